"""The stored event log replays every event once, in order."""
import threading
from hypothesis import strategies as st
import dag_cbor
from arroba.storage import CommitData, Action
from vlib.core import Check, Test, check, eq, Violation
from vlib import world, web, imports, gen
from vlib.mstref import Ref, cid_of
from vlib.log import Log
from vlib.world import World, DIDS, b32, record

PREFIX = 'com.atproto.sync.subscribeRepos#'


def in_thread(fn):
    out = []
    def run():
        try:
            out.append(fn())
        except BaseException as e:
            out.append(e)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if isinstance(out[0], BaseException):
        raise out[0]
    return out[0]


def flat(e):
    return ('commit', e.commit.seq) if isinstance(e, CommitData) else (str(e.get('$type')), e.get('seq'))


def judge_event(w, e, entry, blocks_at, what):
    """One event read from the log is the one the model says."""
    seq, kind, d = entry
    what = f'{what}: event {seq}'
    if kind != 'commit':
        check(isinstance(e, dict), '%s: got %s instead of %s', what, flat(e), kind)
        eq((e['$type'], e['seq'], e['did']), (PREFIX + kind, seq, d['did']), what)
        for k in 'active', 'status':
            if k in d:
                eq(e.get(k), d[k], f'{what}: {k}')
        return
    check(isinstance(e, CommitData), '%s: got %s instead of a commit', what, e if isinstance(e, dict) else flat(e))
    eq((e.commit.seq, b32(e.commit.cid)), (seq, b32(d['cid'])), what)
    eq(e.commit.decoded['did'], d['did'], f'{what}: DID')
    got = [(o.action.name.lower(), o.path, o.cid, o.prev_cid) for o in e.commit.ops]
    eq(got, d['ops'], f'{what}: ops')
    eq(e.prev, d['prev'], f'{what}: prev')
    need = {d['cid'], d['data']} | {c for _, _, c, _ in d['ops'] if c}
    need |= set(blocks_at.get(seq, ()))
    missing = need - set(e.blocks)
    check(not missing, '%s: lacks blocks %s', what, sorted(map(b32, missing)))
    # nothing that isn't part of this commit: the tree and records of its contents
    mine = {d['cid']} | set(Ref({p: cid_of(dag_cbor.encode(r)) for p, r in d['contents'].items()}).blocks)
    mine |= {cid_of(dag_cbor.encode(r)) for r in d['contents'].values()}
    mine |= set(d.get('batch', ()))
    extra = set(e.blocks) - mine
    check(not extra, '%s: has blocks that are not part of the commit: %s', what, sorted(map(b32, extra)))
    for c, b in e.blocks.items():
        check(b is not None, '%s: block %s is None', what, b32(c))
        eq(cid_of(b.encoded), c, f'{what}: bytes of block')


def judge_log(w, start, repo, blocks_at, what, events=None):
    want = [x for x in w.log if x[0] >= start and (not repo or x[2]['did'] == repo)]
    if events is None:
        with w.request():
            events = list(w.storage.read_events_by_seq(start=start, **({'repo': repo} if repo else {})))
    eq([flat(e) for e in events], [('commit' if k == 'commit' else PREFIX + k, s) for s, k, _ in want], what)
    for e, entry in zip(events, want):
        judge_event(w, e, entry, blocks_at, what)
    return events


def history(case, ctx):
    web.setup(ctx)
    w = World(case['storage'], ctx, case['context'])
    if w.fake:
        w.fake.batch = case['batch']
    docs = imports.Docs(ctx)
    log = Log(w, ctx, docs)
    log.create(0)
    readers = []
    for op in case['ops']:
        kind = op[0]
        i = op[1] % 4
        if kind == 'import':
            if i not in w.repos:
                contents = {}
                for p, n in op[2]:
                    contents[p] = record(n)
                log.imported(i, contents)
            continue
        if i not in w.repos:
            log.create(i)
            continue
        if kind == 'read':
            start, who = op[2], op[3]
            dids = sorted(m.did for m in w.repos.values())
            repo = dids[who % len(dids)] if who < 6 else 'did:web:nobody.com' if who == 6 else None
            judge_log(w, start % (w.last_seq() + 3), repo, log.blocks_at, f'log from {start % (w.last_seq() + 3)} of {repo}')
            continue
        m = w.repos[i]
        if kind == 'commit':
            if m.status == 'tombstoned':
                continue
            if m.status:
                log.status(i, 'activate')
            log.commit(i, op[2])
        elif kind == 'reject':
            if not m.status:
                log.reject(i, op[2], op[3])
        elif kind == 'status':
            what = op[2]
            if m.status == 'tombstoned' or (what == 'activate') == (m.status is None):
                continue
            log.status(i, what)
    last = w.last_seq()
    for start in sorted({0, 1, last, last + 1} | {s % (last + 1) for s in case['starts']}):
        judge_log(w, start, None, log.blocks_at, f'log from {start}')
    for i, m in w.repos.items():
        judge_log(w, case['starts'][0] % (last + 1) if case['starts'] else 0, m.did, log.blocks_at, f'log of {m.did}')
    s = log.stats
    ctx.nontrivial(s['commits'] >= 3 and (s['recur'] or s['rejected'] or s['imports']))
    ctx.label(case['storage'], *[k for k, v in s.items() if v])


# reading while the log grows

def growing(case, ctx):
    """An event read that is consumed while new events are stored sees each stored event at most
    once, in order, and everything stored before it started."""
    w = World(case['storage'], ctx, 'request')
    if w.fake:
        w.fake.batch = case['batch']
    log = Log(w, ctx)
    log.create(0)
    for ws in case['before']:
        log.commit(0, ws)
    start = case['start'] % (w.last_seq() + 1)
    known = list(w.log)
    it = None
    got = []
    with w.request():
        it = w.storage.read_events_by_seq(start=start)
        for n in range(10**6):
            # the reader may go on on a thread that doesn't have its ndb context
            e = in_thread(lambda: next(it, None)) if w.fake and n in case['lose'] else next(it, None)
            if e is None:
                break
            got.append(e)
            if n < len(case['during']) and case['during'][n]:
                log.commit(0, case['during'][n])
    seqs = [flat(e)[1] for e in got]
    check(all(a < b for a, b in zip(seqs, seqs[1:])), 'events out of order or repeated: %s', seqs)
    want = [x[0] for x in known if x[0] >= start]
    check(set(want) <= set(seqs), 'events %s stored before the read are missing from %s', want, seqs)
    by = {x[0]: x for x in w.log}
    for e in got:
        judge_event(w, e, by[flat(e)[1]], log.blocks_at, 'growing log')
    ctx.nontrivial(sum(bool(d) for d in case['during']) and len(want) > 2)
    ctx.label(case['storage'], *(['lost context'] if w.fake and case['lose'] else []))


OP = st.one_of(
    st.tuples(st.just('commit'), st.integers(0, 3), world.writes(4)),
    st.tuples(st.just('commit'), st.integers(0, 1), world.writes(4)),
    st.tuples(st.just('reject'), st.integers(0, 3), world.writes(3), st.integers(0, 3)),
    st.tuples(st.just('status'), st.integers(0, 3), st.sampled_from(['deactivate', 'activate', 'deactivate', 'activate', 'tombstone'])),
    st.tuples(st.just('import'), st.integers(1, 3), st.lists(st.tuples(st.sampled_from(world.paths()), st.integers(0, 4)).map(list), max_size=6)),
    st.tuples(st.just('read'), st.integers(0, 3), st.integers(0, 60), st.integers(0, 9)),
).map(list)

CHECK = Check('P11', 'history with at least 3 commits and a recurring record, a rejected commit or an import; or a read with commits in between', [
    Test('history', st.fixed_dictionaries({
        'storage': world.backend, 'context': st.sampled_from(['request', 'nocache', 'none']), 'batch': st.sampled_from([1, 2, 3, 7, 300]),
        'ops': st.lists(OP, min_size=4, max_size=14), 'starts': st.lists(st.integers(0, 60), max_size=3)}), history, 500),
    Test('growing', st.fixed_dictionaries({
        'storage': world.backend, 'batch': st.sampled_from([1, 2, 3, 7, 300]), 'start': st.integers(0, 20),
        'lose': st.lists(st.integers(0, 12), max_size=4), 'before': st.lists(world.writes(3), min_size=1, max_size=5), 'during': st.lists(world.writes(3), max_size=6)}), growing, 200),
])
