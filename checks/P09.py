"""Inactive accounts cannot be written and status changes are announced."""
from hypothesis import strategies as st
from vlib.core import Check, Test, check, eq, Violation
from vlib import world, web
from vlib.world import World, InactiveRepo, Repo, b32
from vlib.worldutil import stored


def events(w, start):
    with w.request():
        return [e for e in w.storage.read_events_by_seq(start=start)]


def refused(w, i, r, resolved, what):
    """A commit to an inactive repo."""
    snap, seq = stored(w), w.last_seq()
    w.take()
    try:
        with w.request():
            w.storage.commit(r, w.to_writes(resolved))
    except InactiveRepo as e:
        check(e.status and e.status in (r.status, w.repos[i].status), 'status of the error: %s', e.status)
    else:
        raise Violation(f'commit to a {w.repos[i].status} repo was accepted, through {what}')
    check(stored(w) == snap, 'a refused commit through %s changed stored state', what)
    check(all(c[0] == 'lost' for c in w.take()), 'a refused commit was announced')
    w.judge_repo(i, w.load(i), 'after a refused commit')


READS = [('com.atproto.repo.getRecord', {'collection': 'app.x.y', 'rkey': '0'}, 'repo'),
         ('com.atproto.repo.listRecords', {'collection': 'app.x.y'}, 'repo'),
         ('com.atproto.repo.describeRepo', {}, 'repo'),
         ('com.atproto.sync.getRepo', {}, 'did'),
         ('com.atproto.sync.getCheckout', {}, 'did'),
         ('com.atproto.sync.getRecord', {'collection': 'app.x.y', 'rkey': '0'}, 'did'),
         ('com.atproto.sync.getHead', {}, 'did'),
         ('com.atproto.sync.getLatestCommit', {}, 'did'),
         ('com.atproto.sync.listBlobs', {}, 'did'),
         ('com.atproto.sync.getBlocks', {}, 'did')]


def api(w, i, n):
    """Every API read and write of an inactive repo is refused."""
    m = w.repos[i]
    names = [m.did, m.handle, f'at://{m.did}/app.x.y/0']
    snap = stored(w)
    for nsid, params, who in READS:
        if nsid.endswith('listBlobs') and w.kind == 'mem':
            continue
        p = dict(params, **{who: names[n % 2] if who == 'repo' else m.did})
        if nsid.endswith('getBlocks'):
            p['cids'] = b32(m.commits[-1]['cid'])
        r = web.get(w, nsid, **p)
        eq(r.error, 'RepoDeactivated', f'{nsid} for a {m.status} repo')
    body = {'repo': names[n % 2], 'collection': 'app.x.y', 'rkey': '0', 'record': world.record(n)}
    for nsid in ('createRecord', 'putRecord', 'deleteRecord'):
        r = web.post(w, f'com.atproto.repo.{nsid}', {k: v for k, v in body.items() if k != 'record' or nsid != 'deleteRecord'})
        eq(r.error, 'RepoDeactivated', f'{nsid} for a {m.status} repo')
    check(stored(w) == snap, 'a refused API call changed stored state')
    r = web.get(w, 'com.atproto.sync.getRepoStatus', did=m.did)
    eq((r.json['active'], r.json.get('status')), (False, 'deactivated'), 'getRepoStatus')


def history(case, ctx):
    web.setup(ctx)
    w = World(case['storage'], ctx, case['context'])
    if case['context'] == 'none' and case['storage'] == 'ds':
        w.context = 'request'
    for i in range(case['repos']):
        w.create(i)
        w.others[i] = [w.handles[i], w.load(i), w.open(i)]
    transitions = 0
    for op in case['ops']:
        i = op[1] % case['repos']
        m = w.repos[i]
        hs = w.others[i]
        n = op[2] % len(hs)
        h = hs[n]
        if op[0] in ('load', 'open'):
            hs.append(w.load(i) if op[0] == 'load' else w.open(i))
            del hs[:-4]
        elif op[0] == 'commit':
            resolved = w.resolve(i, op[3])
            if m.status:
                refused(w, i, h, resolved, f'handle {n} of {len(hs)}')
                ctx.label('commit refused', 'stale handle' if h.status != m.status else 'fresh handle')
            elif h.status:
                continue     # a handle loaded while inactive: which way it goes is not claimed
            else:
                w.commit(i, resolved, handle=h)
                w.judge_repo(i, h, 'after a commit')
        elif op[0] == 'api':
            if m.status:
                api(w, i, op[2])
                ctx.label('api refused')
            else:
                r = web.get(w, 'com.atproto.sync.getLatestCommit', did=m.did)
                eq((r.error, r.json.get('cid')), (None, b32(m.commits[-1]['cid'])), 'getLatestCommit of an active repo')
                r = web.get(w, 'com.atproto.sync.getRepoStatus', did=m.did)
                eq(r.json.get('active'), True, 'getRepoStatus of an active repo')
        else:
            if m.status == 'tombstoned' and op[0] == 'deactivate':
                continue     # what this does is not documented
            seq = w.last_seq()
            was = m.status
            ev = w.set_status(i, op[0], handle=h)
            if ev is None:
                eq(events(w, seq + 1), [], 'events for activating a tombstoned repo')
                ctx.label('activate tombstoned')
            else:
                transitions += 1
                eq(w.last_seq(), seq + 1, f'sequence after {op[0]}')
                got = events(w, seq + 1)
                check(len(got) == 1 and isinstance(got[0], dict), '%s stored events %s', op[0], got)
                e = dict(got[0])
                check(e.pop('time', None), 'event without a time: %s', got)
                kind = 'tombstone' if op[0] == 'tombstone' else 'account'
                eq(e, {'$type': f'com.atproto.sync.subscribeRepos#{kind}', 'seq': seq + 1, **ev[2]}, f'event of {op[0]}')
                calls = w.take()
                check(len(calls) == 1 and calls[0] == ('data', got[0]) if h.callback else not calls, 'callbacks of %s: %s', op[0], calls)
                eq(h.status, m.status, 'status of the object that changed it')
                ctx.label(op[0])
            w.judge_repo(i, w.load(i), f'fresh load after {op[0]}')
        for j in w.repos:
            if j != i:
                w.judge_repo(j, w.load(j), 'another repo', deep=False)
    for i in w.repos:
        w.judge_repo(i, w.load(i), 'at the end')
        w.reachable(w.repos[i].commits[-1]['cid'])
        if not w.repos[i].status:
            w.commit(i, [('create', 'app.x.y/still-works', world.record(1))], handle=w.load(i))
    ctx.nontrivial(transitions)


idx = st.integers(0, 3)
kinds = ['deactivate', 'activate', 'deactivate', 'activate', 'load', 'open', 'api', 'tombstone']
op = st.one_of(st.tuples(st.just('commit'), idx, idx, world.writes(3)),
               st.tuples(st.sampled_from(kinds), idx, idx),
               st.tuples(st.sampled_from(kinds), idx, idx)).map(list)

CHECK = Check(
    'P09',
    rule='histories of up to 16 deactivate, activate, tombstone, load, commit and HTTP API operations through up to 4 handles loaded at different times, over 1-2 repos on both storages. '
         'Non-trivial: at least one status change.',
    assumptions=['the Datastore service is an in-process fake under the real ndb client',
                 'deactivating a tombstoned repo, and writing to a reactivated repo through an object loaded while it was inactive, are not documented and not judged'],
    tests=[Test('history', st.fixed_dictionaries({
        'storage': world.backend, 'context': world.ndb_context, 'repos': st.integers(1, 2),
        'ops': st.lists(op, min_size=2, max_size=16)}), history, 600, 30000)])
