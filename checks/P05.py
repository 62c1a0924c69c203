"""Commits record exactly the requested state, signed and chained."""
from hypothesis import strategies as st
from vlib.core import Check, Test, check, eq
from vlib import world
from vlib.world import World, Block, MemoryStorage, cid_of, Ref, Action, NSID, b32
import dag_cbor


def history(case, ctx):
    w = World(case['storage'], ctx, case['context'])
    for i in range(case['repos']):
        r = w.create(i)
        w.judge_repo(i, r, 'just created')
        w.judge_repo(i, w.load(i), 'created, fresh load')
        w.judge_commit(i, r.head, 'first commit')
    for op in case['ops']:
        i = op[1] % case['repos']
        if op[0] in ('reload', 'open'):
            w.handles[i] = w.load(i) if op[0] == 'reload' else w.open(i)
            continue
        m = w.repos[i]
        old = w.handles[i]
        prev_blocks = None
        resolved = w.resolve(i, op[2])
        before = dict(m.contents)
        data = w.commit(i, resolved)
        last = m.commits[-1]
        eq(data.prev, last['prev'], 'prev of the returned commit data')
        w.judge_commit(i, data.commit, 'returned commit')
        got = [(o.action.name.lower(), o.path, o.cid, o.prev_cid) for o in data.commit.ops]
        eq(got, last['ops'], 'operations of the commit')
        for cid, b in data.blocks.items():
            eq(b.cid, cid, 'key of a returned block')
            eq(cid_of(b.encoded), cid, 'bytes of a returned block')
        w.judge_repo(i, w.handles[i], 'live object')
        if op[3] or op is case['ops'][-1]:
            r = w.load(i)
            w.judge_repo(i, r, 'fresh load')
            w.judge_commit(i, r.head, 'loaded head')
            for p in sorted(set(before) | set(m.contents))[:6]:
                coll, _, rkey = p.partition('/')
                with w.request():
                    eq(r.get_record(coll, rkey), m.contents.get(p), f'get_record({p})')
        if not resolved: ctx.label('empty commit')
        if any(a == 'update' for a, _, _ in resolved) and len(last['ops']) < len(resolved): ctx.label('no-op update')
        if len({p for _, p, _ in resolved}) < len(resolved): ctx.label('same path twice')
        if before and not m.contents: ctx.label('repo emptied')
        ctx.label(case['storage'])
    # all repos are as the model says, from the head down
    for i in range(case['repos']):
        m = w.repos[i]
        w.judge_repo(i, w.load(i), 'at the end')
        _, entries = w.reachable(m.commits[-1]['cid'])
        eq(entries, m.entries, f'entries stored under the head of {m.did}')
        cid = m.commits[-1]['cid']
        for c in reversed(m.commits):
            eq(cid, c['cid'], 'prev chain')
            with w.request():
                b = w.storage.read(cid)
            check(b is not None, 'commit %s in the chain is not stored', b32(cid))
            cid = b.decoded['prev']
        eq(cid, None, 'end of the prev chain')
    ctx.nontrivial(sum(len(m.commits) for m in w.repos.values()) >= case['repos'] + 2)


def sizes(case, ctx):
    """One commit with many operations, up to the limit."""
    w = World(case['storage'], ctx)
    w.create(0)
    n = case['n']
    res = [('create', f'app.x.y/{i:04}', world.record(i % 7)) for i in range(n)]
    w.commit(0, res)
    w.judge_repo(0, w.load(0), 'after a big commit')
    k = min(n, case['k'])
    w.commit(0, [('delete', p, None) for _, p, _ in res[:k]] + [('update', p, world.record(99)) for _, p, _ in res[k:]])
    w.judge_repo(0, w.load(0), 'after a second one')
    w.judge_commit(0, w.handles[0].head)
    ctx.nontrivial(n >= 20)


op = st.one_of(
    st.tuples(st.just('commit'), st.integers(0, 2), world.writes(), st.booleans()),
    st.tuples(st.just('commit'), st.integers(0, 2), world.writes(3), st.booleans()),
    st.tuples(st.sampled_from(['reload', 'open']), st.integers(0, 2))).map(list)

CHECK = Check(
    'P05',
    rule='histories of up to 12 commits of 0-6 writes (creates, updates, no-op updates, deletes, repeated paths, shared records) over 1-3 repos sharing one storage, '
         'with reloads, on the in-memory storage and on Datastore through a fake backend with three ndb context styles; commits of up to 200 operations. '
         'Non-trivial: at least two commits beyond creation, or 20 operations.',
    assumptions=['the Datastore service is an in-process fake under the real ndb client'],
    tests=[Test('history', st.fixed_dictionaries({
        'storage': world.backend, 'context': world.ndb_context, 'repos': st.integers(1, 3),
        'ops': st.lists(op, min_size=1, max_size=12)}), history, 700, 40000),
        Test('sizes', st.fixed_dictionaries({'storage': world.backend, 'n': st.sampled_from([1, 20, 60, 199, 200]), 'k': st.integers(0, 60)}), sizes, 16, 400)])
