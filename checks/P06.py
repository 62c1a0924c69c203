"""A rejected commit changes nothing."""
import contextlib, copy
from hypothesis import strategies as st
from vlib.core import Check, Test, check, eq, Violation
from vlib import world
from vlib.worldutil import stored
from vlib.world import World, Action, Write, Ref, cid_of, b32
import dag_cbor

BIG = {'$type': 'app.x.y', 'blob': 'x' * 1_000_001}
JUST_FITS = {'$type': 'app.x.y', 'blob': 'x' * (1_000_000 - len(dag_cbor.encode({'$type': 'app.x.y', 'blob': 'x' * 100_000})) + 100_000)}
assert len(dag_cbor.encode(JUST_FITS)) == 1_000_000
BAD_PATHS = ['app.x.y/', '/abc', 'app.x.y/a b', 'app.x.y/é', 'app.x.y/a/b', 'app.x.y/' + 'k' * 249, 'app.x!y/abc', 'app.x.y/a\n']
BAD_RECORDS = {'invalid': {'$type': 'app.bsky.feed.like', 'subject': 3, 'createdAt': 'x'},
               'missing field': {'$type': 'app.bsky.feed.post', 'text': 'hi'},
               'too big': BIG, 'undecodable': {'$type': 'app.x.y', 'x': object()},
               'no record': None}


def bad_writes(w, i, bad, valid):
    """The valid writes, with something wrong somewhere. Returns (writes, the errors expected)."""
    kind, pos, n = bad
    res = w.resolve(i, valid)
    pos = pos % (len(res) + 1)
    have = dict(w.apply(w.repos[i].contents, res[:pos])[0])
    def put(a, p, r):
        coll, _, rkey = p.partition('/')
        ws = w.to_writes(res)
        ws.insert(pos, Write(action=Action[a], collection=coll, rkey=rkey, record=r))
        return ws
    if kind == 'create existing':
        if not have:
            return None
        return put('CREATE', sorted(have)[n % len(have)], world.record(n)), ValueError
    if kind in ('update missing', 'delete missing'):
        free = [p for p in world.paths() if p not in have] or ['app.x.y/none-such']
        a = kind.split()[0].upper()
        return put(a, free[n % len(free)], world.record(n) if a == 'UPDATE' else None), ValueError
    if kind == 'bad path':
        # a collection or key with a slash in it would otherwise be another valid path
        p = BAD_PATHS[n % len(BAD_PATHS)]
        return put(['CREATE', 'UPDATE', 'DELETE'][n % 3], p, world.record(n)), ValueError
    if kind == 'too many':
        ops = [Write(action=Action.CREATE, collection='app.x.y', rkey=f'many-{k:03}', record=world.record(k)) for k in range(201)]
        return ops, ValueError
    if kind == 'not a write':
        ws = w.to_writes(res)
        ws.insert(pos, ('CREATE', 'app.x.y', 'abc', {}))
        return ws, Exception
    rec = BAD_RECORDS[kind]
    free = [p for p in world.paths() if p not in have]
    if n % 2 and have or not free:
        return put('UPDATE', sorted(have)[n % len(have)], rec), ValueError if kind == 'too big' else Exception
    return put('CREATE', free[n % len(free)], rec), ValueError if kind == 'too big' else Exception


class Angry(Exception):
    pass


@contextlib.contextmanager
def failing_callback(w, repo):
    """w.commit() on repo gives what the callback got before it failed."""
    told, orig, tell = [], w.storage.commit, repo.callback

    def callback(data=None, lost_seq=None):
        tell(data=data, lost_seq=lost_seq)
        if data is not None:
            told.append(data)
            raise Angry()

    def commit(*args):
        try:
            got = orig(*args)
        except Angry:
            return told[0]
        return got
    repo.callback, w.storage.commit = callback, commit
    try:
        yield
    finally:
        repo.callback, w.storage.commit = tell, orig


def history(case, ctx):
    w = World(case['storage'], ctx, case['context'], callbacks=case['callbacks'])
    for i in range(case['repos']):
        w.create(i)
    rejected = 0
    for op in case['ops']:
        i = op[1] % case['repos']
        m = w.repos[i]
        if op[0] == 'reload':
            w.handles[i] = w.load(i)
        elif op[0] == 'angry':
            # the commit is valid, but the callback that's told of it fails
            if not w.handles[i].callback:
                continue
            with failing_callback(w, w.handles[i]):
                data = w.commit(i, w.resolve(i, op[2]))
            w.judge_repo(i, w.load(i), 'after a commit whose callback failed')
            w.handles[i] = w.load(i)
            ctx.label('callback failed')
        elif op[0] == 'commit':
            ever = set().union(*(nodes(c) for mm in w.repos.values() for c in mm.commits))
            before = Ref(m.entries)
            data = w.commit(i, w.resolve(i, op[2]))
            w.judge_commit(i, data.commit)
            w.judge_repo(i, w.handles[i], 'after a valid commit')
            after = Ref(m.entries)
            tree = {c for c in data.blocks if c in after.blocks}
            new = set(after.blocks) - ever
            check(new <= tree, 'commit leaves out new tree nodes %s', [b32(c) for c in new - tree])
            extra = set(data.blocks) - set(after.blocks) - {data.commit.cid} - {o[2] for o in m.commits[-1]['ops']} - set(m.entries.values())
            overwritten = {cid_of(dag_cbor.encode(r)) for _, _, r in w.resolve(i, op[2]) if r is not None}
            recs = {world_cid(n) for n in range(5)}
            check(extra <= recs, 'commit has blocks that are not its own: %s', [b32(c) for c in extra - recs])
        elif op[0] == 'bad':
            made = bad_writes(w, i, op[3], op[2])
            if made is None:
                continue
            writes, errors = made
            r = w.handles[i]
            snap = stored(w)
            was = (r.head.cid, r.mst.get_pointer(), r.status)
            seq = w.last_seq()
            w.take()
            try:
                with w.request():
                    got = w.storage.commit(r, writes)
            except errors:
                pass
            else:
                raise Violation(f'commit with {op[3][0]} was accepted')
            eq(w.take(), [('lost', seq + 1)] if case['callbacks'] and r.callback else [], 'callbacks of a rejected commit')
            eq(w.last_seq(), seq + 1, 'sequence number after a rejected commit')
            check(stored(w) == snap, 'stored state changed by a commit rejected for %s', op[3][0])
            w.judge_repo(i, r, f'repo object after a commit rejected for {op[3][0]}')
            w.judge_repo(i, w.load(i), f'fresh load after a commit rejected for {op[3][0]}')
            eq((r.head.cid, r.mst.get_pointer(), r.status), was, 'repo object')
            rejected += 1
            ctx.label(op[3][0], case['storage'])
            if len(writes) > 1 and op[3][1] % (len(writes)) > 0: ctx.label('bad after good')
    for i in w.repos:
        w.judge_repo(i, w.load(i), 'at the end')
        w.reachable(w.repos[i].commits[-1]['cid'])
    # the log has the valid commits and nothing of the rejected ones
    with w.request():
        got = [e.commit.cid for e in w.storage.read_events_by_seq(start=1) if not isinstance(e, dict)]
    eq([b32(c) for c in got], [b32(d['cid']) for _, k, d in w.log if k == 'commit'], 'commits in the stored log')
    ctx.nontrivial(rejected)


def world_cid(n):
    return cid_of(dag_cbor.encode(world.record(n)))


def nodes(c):
    return set(Ref({p: cid_of(dag_cbor.encode(r)) for p, r in c['contents'].items()}).blocks)


def limit(case, ctx):
    """The limits themselves are accepted."""
    w = World(case['storage'], ctx)
    w.create(0)
    w.commit(0, [('create', 'app.x.y/fits', JUST_FITS)])
    w.commit(0, [('create', f'app.x.y/{k:03}', world.record(k % 3)) for k in range(200)])
    w.judge_repo(0, w.load(0), 'after commits at the limits')
    ctx.nontrivial()


bad = st.tuples(st.sampled_from(['create existing', 'update missing', 'delete missing', 'bad path', 'create existing', 'update missing',
                                 'delete missing', 'bad path', 'too many', 'too big', 'invalid', 'missing field', 'undecodable', 'no record', 'not a write']),
                st.integers(0, 6), st.integers(0, 30)).map(list)
op = st.one_of(
    st.tuples(st.just('commit'), st.integers(0, 1), world.writes(4)),
    st.tuples(st.just('bad'), st.integers(0, 1), st.lists(world.write(), max_size=4), bad),
    st.tuples(st.just('bad'), st.integers(0, 1), st.lists(world.write(), max_size=4), bad),
    st.tuples(st.just('angry'), st.integers(0, 1), world.writes(4)),
    st.tuples(st.just('reload'), st.integers(0, 1))).map(list)

CHECK = Check(
    'P06',
    rule='histories of up to 12 valid commits, rejected commits (15 kinds of fault at any position of a batch of otherwise valid writes) and reloads over 1-2 repos on both storages, '
         'with and without callbacks; stored state compared byte by byte around each rejection. Non-trivial: at least one rejected commit.',
    assumptions=['the Datastore service is an in-process fake under the real ndb client'],
    tests=[Test('history', st.fixed_dictionaries({
        'storage': world.backend, 'context': world.ndb_context, 'repos': st.integers(1, 2), 'callbacks': st.sampled_from([True, True, False]),
        'ops': st.lists(op, min_size=1, max_size=12)}), history, 700, 40000),
        Test('limit', st.fixed_dictionaries({'storage': world.backend}), limit, 8, 8)])
