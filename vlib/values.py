"""Generates DAG-CBOR records as plain JSON cases.

A value is JSON, except {'/b': hex} for bytes, {'/c': n} for a CID, and
{'/d': {...}} for a map that would look like one of these."""
import string
from hypothesis import strategies as st
from vlib.mstref import cid_of
import dag_cbor


def cid(n):
    return cid_of(dag_cbor.encode({'linked': n}))


def decode(v):
    if isinstance(v, dict):
        if set(v) == {'/b'}:
            return bytes.fromhex(v['/b'])
        if set(v) == {'/c'}:
            return cid(v['/c'])
        if set(v) == {'/d'}:
            v = v['/d']
        return {k: decode(x) for k, x in v.items()}
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


name = st.one_of(
    st.sampled_from(['$type', 'text', 'createdAt', 'ops', 'blocks', 'commit', 'did', 'rev', 'prev', 'data', 'sig',
                     'version', 'e', 'l', 'k', 'p', 't', 'v', 'seq', 'cid', 'repo', 'langs', 'reply']),
    st.text(string.ascii_letters + string.digits + '_-$é ', max_size=8),
    st.text(max_size=4).filter(lambda s: ok(s)))


def ok(s):
    try:
        s.encode()
        return True
    except UnicodeEncodeError:
        return False


text = st.text(max_size=12).filter(ok)
scalar = st.one_of(st.none(), st.booleans(), st.integers(-2**63, 2**63 - 1), st.integers(-3, 30), text,
                   st.binary(max_size=10).map(lambda b: {'/b': b.hex()}), st.integers(0, 5).map(lambda n: {'/c': n}))
value = st.recursive(scalar, lambda c: st.one_of(
    st.lists(c, max_size=4), st.dictionaries(name, c, max_size=4).map(lambda d: {'/d': d})), max_leaves=8)


def record(no=(), min_size=0):
    n = name.filter(lambda x: x not in no) if no else name
    return st.dictionaries(n, value, min_size=min_size, max_size=6).map(lambda d: {'/d': d})
