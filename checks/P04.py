"""Tree diffs are exact."""
from hypothesis import strategies as st
from vlib.core import Check, Test, Violation, eq, raises, check
from vlib import gen
from vlib.mstutil import *
from vlib.mstref import Ref
from arroba.diff import Diff, mst_diff, null_diff


def build(model, how, storage, order=None):
    tree = MST.create(storage=storage)
    for k, v in (order or sorted(model.items())):
        tree = tree.add(k, v)
    if how == 'loaded':
        root = save(storage, tree)
        tree = MST.load(storage=storage, cid=root)
    return tree


def judge(diff, old, new, ctx, between=()):
    adds = {k: v for k, v in new.items() if k not in old}
    dels = {k: v for k, v in old.items() if k not in new}
    upds = {k: (old[k], new[k]) for k in old if k in new and old[k] != new[k]}
    eq({k: c.cid for k, c in diff.adds.items()}, adds, 'adds')
    eq({k: c.cid for k, c in diff.deletes.items()}, dels, 'deletes')
    eq({k: (c.prev, c.cid) for k, c in diff.updates.items()}, upds, 'updates')
    for d in diff.adds, diff.deletes, diff.updates:
        for k, c in d.items():
            eq(c.key, k, 'key inside change')
    eq(set(diff.updated_keys()), set(adds) | set(dels) | set(upds), 'updated_keys()')
    applied = dict(old)
    for k, c in {**diff.adds, **diff.updates}.items():
        applied[k] = c.cid
    for k in diff.deletes:
        applied.pop(k, None)
    eq(applied, new, 'old contents with the diff applied')
    a, b = set(Ref(old).blocks), set(Ref(new).blocks)
    check((b - a) <= diff.new_cids, 'new_cids omits %s',
          [c.encode('base32') for c in (b - a) - diff.new_cids])
    check((a - b) <= diff.removed_cids, 'removed_cids omits %s',
          [c.encode('base32') for c in (a - b) - diff.removed_cids])
    shared = a & b
    check(not shared & diff.new_cids, 'new_cids names shared nodes %s',
          [c.encode('base32') for c in shared & diff.new_cids])
    check(not shared & diff.removed_cids, 'removed_cids names shared nodes %s',
          [c.encode('base32') for c in shared & diff.removed_cids])
    vals = {v for v in {**adds, **{k: n for k, (o, n) in upds.items()}}.values()}
    check(vals <= diff.new_cids, 'new_cids omits record values')
    check(diff.new_cids <= b | set(new.values()) | set(between), 'new_cids names CIDs not in the new tree')
    check(diff.removed_cids <= a | set(old.values()) | set(between), 'removed_cids names CIDs not in the old tree')
    ctx.nontrivial(len(adds) + len(dels) + len(upds) >= 1 and len(shared) + len(old) >= 1)
    if Ref(old).height != Ref(new).height and old and new: ctx.label('different heights')
    if abs(Ref(old).height - Ref(new).height) >= 2 and old and new: ctx.label('heights differ by 2+')
    if upds: ctx.label('updates')
    if shared: ctx.label('shared subtrees')
    if not old or not new: ctx.label('one side empty')


def pair(case, ctx):
    storage = MemoryStorage()
    old = {k: value(v) for k, v in case['old']}
    if case['related']:
        new = dict(old)
    else:
        new = {}
    for e in case['edits']:
        if e[0] == 'set':
            new[e[1]] = value(e[2])
        elif new:
            del new[sorted(new)[e[1] % len(new)]]
    a = build(old, case['how'][0], storage)
    if case['derive'] and case['related']:
        b = a
        for k in sorted(set(old) - set(new)):
            b = b.delete(k)
        for k in sorted(new):
            if k not in old:
                b = b.add(k, new[k])
            elif old[k] != new[k]:
                b = b.update(k, new[k])
        if case['how'][1] == 'loaded':
            save(storage, b)
            b = MST.load(storage=storage, cid=b.get_pointer())
    else:
        b = build(new, case['how'][1], storage)
    ctx.label('/'.join(case['how']))
    judge(mst_diff(b, a), old, new, ctx)
    # asking again gives the same answer, and the reverse diff is exact too
    judge(Diff.of(b, a), old, new, ctx)
    judge(mst_diff(a, b), new, old, ctx)


def combined(case, ctx):
    """Diffs along a line of versions, added up, are the diff between its ends."""
    storage = MemoryStorage()
    models = [{k: value(v) for k, v in case['old']}]
    for edits in case['steps']:
        new = dict(models[-1])
        for e in edits:
            if e[0] == 'set':
                new[e[1]] = value(e[2])
            elif new:
                del new[sorted(new)[e[1] % len(new)]]
        models.append(new)
    trees = [build(m, case['how'], storage) for m in models]
    diffs = [mst_diff(b, a) for a, b in zip(trees, trees[1:])]
    total = diffs[0]
    for d in diffs[1:]:
        before = repr((d.adds, d.updates, d.deletes, sorted(map(str, d.new_cids)), sorted(map(str, d.removed_cids))))
        total.add_diff(d)
        eq(repr((d.adds, d.updates, d.deletes, sorted(map(str, d.new_cids)), sorted(map(str, d.removed_cids)))), before, 'the diff that was added')
    judge(total, models[0], models[-1], ctx, between={v for m in models for v in m.values()})
    again = [k for k in {k for m in models for k in m} if len({m.get(k) for m in models}) > 2]
    if again: ctx.label('changed twice')


def null(case, ctx):
    storage = MemoryStorage()
    new = {k: value(v) for k, v in case['new']}
    b = build(new, case['how'], storage)
    for d in mst_diff(b), Diff.of(b, None), null_diff(build(new, case['how'], storage)):
        eq({k: c.cid for k, c in d.adds.items()}, new, 'adds')
        eq((d.updates, d.deletes, d.removed_cids), ({}, {}, set()), 'the rest of a null diff')
        eq(d.new_cids, set(Ref(new).blocks) | set(new.values()), 'new_cids of a null diff')
    ctx.nontrivial(len(new) >= 2)


@st.composite
def pairs(draw):
    base = draw(gen.keysets(0, 25))
    old = [[k, draw(st.integers(0, 2))] for k in base]
    k = st.one_of(st.sampled_from(base), gen.key()) if base else gen.key()
    return {'old': old, 'related': draw(st.sampled_from([True, True, True, False])),
            'edits': draw(st.lists(st.one_of(
                st.tuples(st.just('set'), k, st.integers(0, 2)),
                st.tuples(st.just('del'), st.integers(0, 30))).map(list), max_size=12)),
            'how': [draw(st.sampled_from(['built', 'loaded'])), draw(st.sampled_from(['built', 'loaded']))],
            'derive': draw(st.booleans())}


@st.composite
def lines(draw):
    base = draw(gen.keysets(0, 8))
    k = st.one_of(st.sampled_from(base), st.sampled_from(base), gen.key()) if base else gen.key()
    edits = st.lists(st.one_of(st.tuples(st.just('set'), k, st.integers(0, 2)), st.tuples(st.just('del'), st.integers(0, 30))).map(list), max_size=5)
    return {'old': [[k, draw(st.integers(0, 2))] for k in base], 'steps': draw(st.lists(edits, min_size=2, max_size=4)),
            'how': draw(st.sampled_from(['built', 'loaded']))}


CHECK = Check(
    'P04',
    rule='pairs of trees of 0-25 keys over layers 0-6, the second derived from the first by 0-12 edits or unrelated, '
         'each built in memory or lazily loaded. The second tree may also be the end of a line of versions whose diffs are added up. Non-trivial: the contents differ and the old tree is not trivial.',
    tests=[Test('pair', pairs(), pair, 4000, 200000),
           Test('combined', lines(), combined, 1000, 50000),
           Test('null', st.fixed_dictionaries({
               'new': gen.keysets(0, 25).flatmap(lambda ks: st.tuples(*[st.tuples(st.just(k), st.integers(0, 2)).map(list) for k in ks]).map(list)),
               'how': st.sampled_from(['built', 'loaded'])}), null, 400, 16000)])
