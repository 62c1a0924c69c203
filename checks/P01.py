"""The repo tree is a canonical function of its contents."""
from hypothesis import strategies as st
from vlib.core import Check, Test, Violation, eq
from vlib import gen
from vlib.mstutil import *
from vlib.mstref import zeros


def run_ops(ops, ctx, check_every, storage=None):
    storage = storage or MemoryStorage()
    tree = MST.create(storage=storage)
    model = {}
    dels = emptied = reloads = 0
    saved_root = None
    seq = 0
    for i, op in enumerate(ops):
        kind = op[0]
        if kind == 'set':
            k, v = op[1], value(op[2])
            tree = tree.update(k, v) if k in model else tree.add(k, v)
            model[k] = v
        elif kind == 'del':
            if not model:
                continue
            k = sorted(model)[op[1] % len(model)]
            tree = tree.delete(k)
            del model[k]
            dels += 1
            emptied += not model
        elif kind == 'delhi':   # delete the key on the highest layer: the root shrinks
            if not model:
                continue
            k = max(sorted(model), key=zeros)
            tree = tree.delete(k)
            del model[k]
            dels += 1
            emptied += not model
        elif kind == 'clear':
            for k in (sorted(model) if op[1] % 2 else sorted(model, reverse=True)):
                tree = tree.delete(k)
                dels += 1
            emptied += bool(model)
            model = {}
        elif kind == 'save':
            seq += 1
            save(storage, tree, seq)
            saved_root = None
        elif kind == 'reload':
            seq += 1
            root = save(storage, tree, seq)
            tree = MST.load(storage=storage, cid=root)
            reloads += 1
        if check_every or i == len(ops) - 1:
            ref = Ref(model)
            if tree.get_pointer() != ref.root:
                raise Violation(
                    f'after step {i} {op}: root {tree.get_pointer().encode("base32")} is not the '
                    f'canonical root {ref.root.encode("base32")} for {sorted(model)}')
    ref = Ref(model)
    eq(walk_blocks(tree), ref.blocks, 'node blocks of the tree')
    eq(entries_of(tree), sorted(model.items()), 'entries of the tree')
    save(storage, tree, seq + 1)
    again = MST.load(storage=storage, cid=tree.get_pointer())
    eq(walk_blocks(again), ref.blocks, 'node blocks of the reloaded tree')
    if ref.height >= 1: ctx.label('height>=1')
    if ref.height >= 3: ctx.label('height>=3')
    if emptied: ctx.label('went through empty')
    if dels: ctx.label('has deletes')
    if reloads: ctx.label('has reloads')
    return model, dels


def history(case, ctx):
    model, dels = run_ops(case['ops'], ctx, case['every'])
    ctx.nontrivial(len(case['ops']) >= 3 and (len(model) >= 2 or dels))


@st.composite
def histories(draw, max_ops=40):
    keys = draw(gen.keysets(1, 14))
    op = st.one_of(
        st.tuples(st.just('set'), st.sampled_from(keys), st.integers(0, 3)),
        st.tuples(st.just('set'), st.sampled_from(keys), st.integers(0, 3)),
        st.tuples(st.just('set'), gen.key(), st.integers(0, 3)),
        st.tuples(st.just('del'), st.integers(0, 30)),
        st.tuples(st.just('delhi'), st.just(0)),
        st.tuples(st.sampled_from(['clear', 'save', 'reload', 'reload', 'reload']),
                  st.integers(0, 1)),
    ).map(list)
    return {'ops': draw(st.lists(op, min_size=1, max_size=max_ops)), 'every': draw(st.booleans())}


def orders(case, ctx):
    """Same contents by two different routes."""
    keys, vals = case['keys'], case['vals']
    model = {k: value(v) for k, v in zip(keys, vals)}
    ref = Ref(model)
    roots = []
    for order, extra, reload_at in case['routes']:
        storage = MemoryStorage()
        tree = MST.create(storage=storage)
        ks = sorted(keys)
        # order: a list of indices, each picks the next key to add
        todo = list(ks)
        added = []
        for n, o in enumerate(order + [0] * len(ks)):
            if not todo:
                break
            k = todo.pop(o % len(todo))
            tree = tree.add(k, model[k])
            added.append(k)
            if n < len(extra):
                x = extra[n]
                if x not in model:
                    tree = tree.add(x, value(99))
                    if n in reload_at:
                        save(storage, tree)
                        tree = MST.load(storage=storage, cid=tree.get_pointer())
                    tree = tree.delete(x)
            elif n in reload_at:
                save(storage, tree)
                tree = MST.load(storage=storage, cid=tree.get_pointer())
        eq(tree.get_pointer(), ref.root, f'root via order {added}')
        eq(walk_blocks(tree), ref.blocks, 'node blocks')
    ctx.nontrivial(len(keys) >= 3)
    if ref.height >= 2: ctx.label('height>=2')
    if len(keys) >= 20: ctx.label('20+ keys')


ROUTE = st.tuples(st.lists(st.integers(0, 60), max_size=40),
                  st.lists(gen.key(), max_size=6, unique=True),
                  st.lists(st.integers(0, 20), max_size=3)).map(list)


@st.composite
def order_cases(draw, max_size=40):
    keys = draw(gen.keysets(1, max_size))
    return {'keys': keys, 'vals': draw(st.lists(st.integers(0, 3), min_size=len(keys), max_size=len(keys))),
            'routes': draw(st.lists(ROUTE, min_size=1, max_size=2))}


def big(case, ctx):
    n, stride, start = case['n'], case['stride'], case['start']
    keys = [f'app.bsky.feed.post/3k{(start + i * stride) % 10**7:07d}' for i in range(n)]
    keys = list(dict.fromkeys(keys))
    model = {k: value(i % 7) for i, k in enumerate(keys)}
    tree = MST.create(storage=MemoryStorage())
    for k, v in model.items():
        tree = tree.add(k, v)
    ref = Ref(model)
    eq(tree.get_pointer(), ref.root, f'root of {len(keys)} keys')
    eq(walk_blocks(tree), ref.blocks, 'node blocks')
    gone = keys[::case['step']]
    for k in gone:
        tree = tree.delete(k)
        del model[k]
    ref = Ref(model)
    eq(tree.get_pointer(), ref.root, f'root after deleting {len(gone)} of {len(keys)} keys')
    eq(walk_blocks(tree), ref.blocks, 'node blocks')
    ctx.nontrivial()
    if ref.height >= 4: ctx.label('height>=4')


BIG = st.fixed_dictionaries({'n': st.integers(50, 600), 'stride': st.integers(1, 99991),
                             'start': st.integers(0, 10**7), 'step': st.integers(1, 9)})

CHECK = Check(
    'P01',
    rule='histories: 1-40 set/delete/clear/save/reload ops over keys drawn by layer 0-6; orders: one key set '
         'built by different insertion orders with extra keys added and removed; big: 50-600 keys. Non-trivial: '
         '>=3 ops leaving >=2 keys or containing a delete (histories), >=3 keys (orders), all (big).',
    tests=[Test('history', histories(), history, 4000, 160000),
           Test('orders', order_cases(), orders, 1500, 60000),
           Test('big', BIG, big, 40, 1600)],
    assumptions=['MST values are arbitrary CIDs; keys satisfy the documented syntax'])
