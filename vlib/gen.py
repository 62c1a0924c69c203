"""Shared Hypothesis strategies. All values are plain JSON data."""
import functools, string
from hypothesis import strategies as st
from vlib import mstref

PER = {0: 30, 1: 16, 2: 10, 3: 8, 4: 5, 5: 3, 6: 2}


@functools.cache
def pool():
    """Keys over several collections and all layers, in a fixed order (small indices are
    simple: shrinking moves towards them)."""
    keys = []
    by = [mstref.mine(p, range(7 if i == 0 else 5), PER) for i, p in
          enumerate(['app.x.y/', 'app.x.yz/r-', 'app.x.y/self:', 'b.c.d/3jzfcijpj2z2_'])]
    # long keys that share more than 127 characters; the longest valid keys have 256
    by += [mstref.mine(f'app.x.y/{"L" * n}', range(4), {0: 8, 1: 5, 2: 3, 3: 2}) for n in (150, 244)]
    for layer in range(7):
        for fam in by:
            keys += fam.get(layer, [])
    return keys


@functools.cache
def pool_by_layer():
    out = {}
    for k in pool():
        out.setdefault(mstref.zeros(k), []).append(k)
    return out


KEYCHARS = string.ascii_letters + string.digits + '_-:.~'
raw_key = st.builds(lambda a, b: f'{a}/{b}',
                    st.text(KEYCHARS, min_size=1, max_size=12),
                    st.text(KEYCHARS, min_size=1, max_size=20))


def layered_key():
    """A key whose layer is roughly uniform over 0..6."""
    by = pool_by_layer()
    return st.sampled_from(sorted(by)).flatmap(lambda l: st.sampled_from(by[l]))


def key():
    return st.one_of(layered_key(), st.sampled_from(pool()), raw_key)


def keysets(min_size=0, max_size=40):
    """Sets of distinct keys; sizes and layer mixes vary."""
    return st.one_of(
        st.lists(key(), unique=True, min_size=min_size, max_size=max_size),
        st.lists(layered_key(), unique=True, min_size=min_size, max_size=12),
        st.lists(st.sampled_from(pool()), unique=True, min_size=min_size, max_size=max_size))
