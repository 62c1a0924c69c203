"""The tree behaves as an immutable ordered map."""
import bisect, string
from hypothesis import strategies as st
from vlib.core import Check, Test, Violation, eq, raises, check
from vlib import gen
from vlib.mstutil import *
from vlib.mstref import Ref, zeros


def query(tree, model, probes, ref, where):
    """Every read of tree agrees with model."""
    items = sorted(model.items())
    eq(entries_of(tree), items, f'{where}: leaves()')
    eq(tree.leaf_count(), len(items), f'{where}: leaf_count()')
    eq([(l.key, l.value) for l in tree.list()], items, f'{where}: list()')
    for p in probes:
        eq(tree.get(p), model.get(p), f'{where}: get({p})')
        eq([(l.key, l.value) for l in tree.walk_leaves_from(p)],
           [(k, v) for k, v in items if k >= p], f'{where}: walk_leaves_from({p})')
        eq([l.key for l in tree.list(after=p)], [k for k, _ in items if k > p],
           f'{where}: list(after={p})')
        eq([l.key for l in tree.list(before=p)], [k for k, _ in items if k < p],
           f'{where}: list(before={p})')
        for cut in {1, len(p) // 2, len(p), p.find('/') + 1}:
            if cut > 0:
                pre = p[:cut]
                eq([l.key for l in tree.list_with_prefix(pre)],
                   [k for k, _ in items if k.startswith(pre)], f'{where}: list_with_prefix({pre})')
        path = tree.cids_for_path(p)
        if p in model:
            eq(path, ref.nodes_of[p] + [model[p]], f'{where}: cids_for_path({p})')
        else:
            check(path and path[0] == ref.root and all(c in ref.blocks for c in path),
                  f'{where}: cids_for_path({p}) of a missing key names non-node {path}')
    for a, b in zip(probes, probes[1:]):
        eq([l.key for l in tree.list(after=a, before=b)],
           [k for k, _ in items if a < k < b], f'{where}: list({a}, {b})')


def history(case, ctx):
    storage = MemoryStorage()
    tree = MST.create(storage=storage)
    model = {}
    versions = []   # every version ever: (tree, contents, lazily loaded?)
    rejected = 0
    for i, op in enumerate(case['ops']):
        kind, where = op[0], f'step {i} {op}'
        versions.append((tree, dict(model)))
        if kind == 'add':
            k, v = op[1], value(op[2])
            if k in model:
                raises(ValueError, lambda: tree.add(k, v), where)
                rejected += 1
            else:
                tree = tree.add(k, v)
                model[k] = v
        elif kind == 'update':
            k, v = op[1], value(op[2])
            if k in model:
                tree = tree.update(k, v)
                model[k] = v
            else:
                raises(KeyError, lambda: tree.update(k, v), where)
                rejected += 1
        elif kind == 'delete':
            k = op[1]
            if k in model:
                tree = tree.delete(k)
                del model[k]
            else:
                raises(KeyError, lambda: tree.delete(k), where)
                rejected += 1
        elif kind == 'delidx' and model:
            k = sorted(model)[op[1] % len(model)]
            tree = tree.delete(k)
            del model[k]
        elif kind == 'back':    # go on from an older version
            tree, m = versions[op[1] % len(versions)]
            model = dict(m)
        elif kind == 'load':    # work on a lazily loaded copy
            save(storage, tree)
            tree = MST.load(storage=storage, cid=tree.get_pointer())
        elif kind == 'ptr':
            tree.get_pointer()
    versions.append((tree, dict(model)))
    probes = sorted(set(case['probes']) | set(sorted(model)[:6]))
    # now judge every version, old ones included
    for n, (t, m) in enumerate(versions):
        last = n == len(versions) - 1
        ref = Ref(m)
        where = f'version {n} of {len(versions) - 1}'
        eq(t.get_pointer(), ref.root, f'{where}: root')
        if last or n in case['look']:
            query(t, m, probes, ref, where)
        else:
            eq(entries_of(t), sorted(m.items()), f'{where}: leaves()')
    ctx.nontrivial(len(versions) >= 4 and len({tuple(sorted(m)) for _, m in versions}) >= 3)
    if rejected: ctx.label('rejected op')
    if any(o[0] == 'back' for o in case['ops']): ctx.label('branched history')
    if len(model) >= 8: ctx.label('8+ keys')


@st.composite
def histories(draw):
    keys = draw(gen.keysets(1, 12))
    k = st.sampled_from(keys)
    v = st.integers(0, 3)
    op = st.one_of(
        st.tuples(st.just('add'), k, v), st.tuples(st.just('add'), gen.key(), v),
        st.tuples(st.just('update'), k, v), st.tuples(st.just('delete'), k),
        st.tuples(st.just('delidx'), st.integers(0, 20)),
        st.tuples(st.just('back'), st.integers(0, 20)),
        st.tuples(st.sampled_from(['load', 'ptr']))).map(list)
    pre = [['add', x, 0] for x in draw(st.lists(k, unique=True))]
    return {'ops': pre + draw(st.lists(op, max_size=25)),
            'probes': draw(st.lists(st.one_of(k, gen.key(), gen.key()), max_size=4)),
            'look': draw(st.lists(st.integers(0, 30), max_size=3))}


# --- key syntax

OKCHARS = set(string.ascii_letters + string.digits + '_-:.~')


def valid(k):
    parts = k.split('/')
    return (len(k) <= 256 and len(parts) == 2 and all(parts)
            and all(set(p) <= OKCHARS for p in parts))


def syntax(case, ctx):
    keys, k = case['keys'], case['key']
    storage = MemoryStorage()
    tree = MST.create(storage=storage)
    model = {}
    for x in keys:
        tree = tree.add(x, value(0))
        model[x] = value(0)
    if valid(k):
        if k not in model:
            t2 = tree.add(k, value(1))
            eq(t2.get(k), value(1), f'get after add({k!r})')
            eq(t2.get_pointer(), Ref({**model, k: value(1)}).root, f'root after add({k!r})')
    else:
        raises(ValueError, lambda: tree.add(k, value(1)), f'add({k!r})')
        raises((ValueError, KeyError), lambda: tree.update(k, value(1)), f'update({k!r})')
        raises((ValueError, KeyError), lambda: tree.delete(k), f'delete({k!r})')
        ctx.label('invalid')
        if '/' in k: ctx.label('invalid with slash')
    eq(entries_of(tree), sorted(model.items()), 'tree after the call')
    eq(tree.get_pointer(), Ref(model).root, 'root after the call')
    ctx.nontrivial(not valid(k) or k not in model)


def near():
    """Keys one edit away from valid, and at the length limit."""
    odd = st.sampled_from(list('/ !@#$%^&*()+=\\"\'`,<>?[]{}|;\t\n\x00éß中\U0001f600%'))
    return st.one_of(
        st.builds(lambda k, c, i: k[:i % (len(k) + 1)] + c + k[i % (len(k) + 1):], gen.key(), odd, st.integers(0, 60)),
        st.builds(lambda n, m: 'a' * n + '/' + 'b' * m, st.integers(0, 256), st.integers(0, 256)),
        st.integers(250, 262).map(lambda n: 'a.b/' + 'c' * (n - 4)),
        st.sampled_from(['', '/', 'a', 'a/', '/a', 'a//b', 'a/b/', '/a/b', 'a/b/c', 'a/b\n', '\na/b', 'a/..', './.']),
        gen.key(), st.text(max_size=12))


CHECK = Check(
    'P02',
    rule='history: 1-37 add/update/delete ops (existing and missing keys), branching from older versions and lazily '
         'loaded copies, all versions queried at the end; syntax: keys at one edit from valid or at the length limit. '
         'Non-trivial: >=4 versions with >=3 distinct contents; a key that is invalid or new.',
    tests=[Test('history', histories(), history, 2400, 100000),
           Test('syntax', st.fixed_dictionaries({'keys': gen.keysets(0, 4), 'key': near()}), syntax, 3000, 100000)])
