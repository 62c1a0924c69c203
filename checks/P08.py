"""Concurrent commits to a repo never lose an update."""
import contextlib
import dag_cbor
from google.api_core import exceptions as gexc
from hypothesis import strategies as st
from multiformats import CID
from arroba import storage as storage_mod
from arroba.repo import Repo
from arroba.util import InactiveRepo
from vlib.core import Check, Test, check, eq, Violation
from vlib import fakeds, gen, sched, world
from vlib.world import World, NSID, b32, cid_of, record, verify
from vlib.mstref import decode_tree

PATHS = world.paths(10)
MORE = [p for ps in gen.pool_by_layer().values() for p in ps[3:13]]     # hardly ever used twice


class Died(Exception):
    pass


def valid(contents, writes):
    """The contents after writes, or None if they can't be applied, and their ops.
    contents is {path: CID}."""
    new, ops = dict(contents), []
    for a, p, n in writes:
        old = new.get(p)
        if a == 'delete':
            if old is None:
                return None, None
            del new[p]
            ops.append(('delete', p, None, old))
            continue
        if (old is None) != (a == 'create'):
            return None, None
        new[p] = cid_of(dag_cbor.encode(record(n)))
        if a == 'create':
            ops.append(('create', p, new[p], None))
        elif old != new[p]:
            ops.append(('update', p, new[p], old))
    return new, ops


class Stored:
    """What is stored, read without going through arroba or ndb."""
    def __init__(self, fake):
        self.blocks, self.seqs, self.repos = {}, {}, {}
        for p, e in fake.entities():
            kind, name = p[-1]
            if kind == 'AtpBlock':
                self.blocks[name] = bytes(e.properties['encoded'].blob_value)
                self.seqs[name] = e.properties['seq'].integer_value
            elif kind == 'AtpRepo':
                self.repos[name] = (e.properties['head'].string_value,
                                    e.properties['status'].string_value or None)

    def chain(self, did):
        """[(commit CID, commit, {path: CID}), ...], first commit first."""
        out, seen = [], set()
        at = self.repos[did][0]
        while at:
            check(at in self.blocks, 'commit %s is not stored', at)
            check(at not in seen, 'commit %s comes up twice in its own history', at)
            seen.add(at)
            data = self.blocks[at]
            eq(b32(cid_of(data)), at, 'bytes of a commit')
            c = dag_cbor.decode(data)
            try:
                entries, _ = decode_tree(c['data'], lambda cid: self.blocks.get(b32(cid)))
            except (KeyError, ValueError) as e:
                raise Violation(f'under commit {at}: {e}')
            for path, v in entries.items():
                check(b32(v) in self.blocks, 'under commit %s: record %s is not stored', at, path)
            out.append((at, c, entries))
            at = b32(c['prev']) if c['prev'] else None
        return out[::-1]


def run(case, ctx):
    with sched.patched_locks():
        seqs = storage_mod.MemorySequences() if case['seqs'] == 'memory' else None
        w = World('ds', ctx, 'request', sequences=seqs)
    fake = w.fake
    n_repos = case['repos']
    for i in range(n_repos):
        w.create(i)
    for k, writes in enumerate(case['before']):
        i = k % n_repos
        w.commit(i, w.resolve(i, writes))

    def load(i, old=0):
        with w.request():
            if old and len(w.repos[i].commits) > old:
                m = w.repos[i]
                return Repo.load(w.storage, cid=m.commits[-1 - old]['cid'], signing_key=m.key, handle=m.handle)
            return w.storage.load_repo(w.repos[i].did)

    shared = {i: load(i) for i in range(n_repos)}
    initial = {i: Stored(fake).chain(w.repos[i].did) for i in range(n_repos)}
    for i, c in initial.items():
        eq([x[0] for x in c], [b32(x['cid']) for x in w.repos[i].commits], 'initial history')
    calls, reads, statuses = [], [], []

    def head(i):
        return fake.entity(fake.data[(('AtpRepo', w.repos[i].did),)][1]).properties['head'].string_value

    def one_commit(job, writes, handle, i):
        call = {'repo': i, 'writes': writes, 'start': head(i), 'cb': [], 'fault': job['fault'], 'n': len(calls)}
        calls.append(call)
        call['end'] = None
        if handle is not shared[i]:
            handle.callback = lambda data=None, lost_seq=None: call['cb'].append((data, lost_seq))
        try:
            call['data'] = w.storage.commit(handle, w.to_writes([(a, p, None if a == 'delete' else record(n))
                                                                for a, p, n in writes]))
        except (ValueError, InactiveRepo, gexc.GoogleAPICallError) as e:
            call['error'] = e
        call['end'] = head(i)
        if 'data' in call and handle is not shared[i]:
            eq(b32(handle.head.cid), b32(call['data'].commit.cid), "committer's own repo object: head")

    def writer(job):
        i = job['repo'] % n_repos
        mode = job['handle']
        handle = shared[i] if mode == 'shared' else None if mode == 'fresh' else load(i, 1 if mode == 'old' else 0)

        def go():
            nonlocal handle
            with w.client.context() if job['context'] == 'lasting' else contextlib.nullcontext():
                for writes in job['commits']:
                    with contextlib.nullcontext() if job['context'] == 'lasting' else w.client.context():
                        h = load(i) if mode == 'fresh' else handle
                        one_commit(job, [('create', MORE[p % len(MORE)], n) if a == 'new' else (a, PATHS[p % 10], n)
                                         for a, p, n in writes], h, i)
        return go

    def reader(job):
        i = job['repo'] % n_repos
        def go():
            for _ in range(2):
                start = head(i)
                with w.client.context():
                    r = load(i)
                    got = {f'{coll}/{k}': cid_of(dag_cbor.encode(v))
                           for coll, rs in r.get_contents().items() for k, v in rs.items()}
                with sc.atomic():
                    reads.append((i, start, b32(r.head.cid), head(i), got))
        return go

    def status(job):
        i = job['repo'] % n_repos
        def go():
            with w.client.context():
                r = load(i)
                before = len(statuses)
                try:
                    w.storage.deactivate_repo(r)
                    statuses.append((i, 'done'))
                except gexc.Aborted:
                    statuses.append((i, 'maybe'))
        return go

    sc = sched.Sched(case['schedule'], lines=('arroba/storage.py', 'arroba/datastore_storage.py') if case['lines'] else ())
    sched.Lock.sched = sc
    tasks, commits_seen, rpcs = [], {}, {}

    def on_rpc(n, name, req):
        t = sc.current()
        sc.point()
        if t is None:
            return None
        job = case['jobs'][t.index]
        rpcs[t.index] = rpcs.get(t.index, 0) + 1
        if job['die'] and rpcs[t.index] >= job['die']:
            raise sched.Abandoned()     # its process is gone
        if name == 'commit' and job['fault']:
            k = commits_seen[t.index] = commits_seen.get(t.index, 0) + 1
            at, kind = job['fault']
            if k == at:
                err = (gexc.Aborted, gexc.ServiceUnavailable, gexc.InternalServerError)[kind % 3]('injected')
                if kind >= 3:
                    return err      # applied, but the caller doesn't know
                raise err
        return None

    for job in case['jobs']:
        tasks.append(sc.spawn({'write': writer, 'read': reader, 'status': status}[job['kind']](job)))
    fake.on_rpc = on_rpc
    try:
        sc.run()
    except sched.Deadlock as e:
        raise Violation(str(e))
    finally:
        fake.on_rpc = None
        sched.Lock.sched = None
    for t, job in zip(tasks, case['jobs']):
        if t.error:
            raise t.error

    # the oracle
    s = Stored(fake)
    total = overlaps = 0
    for i in range(n_repos):
        m = w.repos[i]
        chain = s.chain(m.did)
        names = [c[0] for c in chain]
        eq(names[:len(initial[i])], [c[0] for c in initial[i]], 'earlier history')
        base = len(initial[i])
        mine = [c for c in calls if c['repo'] == i]
        by_cid = {}
        for c in mine:
            if 'data' in c:
                cid = b32(c['data'].commit.cid)
                check(cid not in by_cid, 'two calls returned commit %s', cid)
                by_cid[cid] = c
                check(cid in names, 'a commit reported success but %s is not in the history of the final head', cid)
        unsure = [c for c in mine if 'data' not in c and (c['end'] is None or not isinstance(c['error'], (ValueError, InactiveRepo)))]
        revs = set()
        for k in range(base, len(chain)):
            name, c, entries = chain[k]
            eq((c['did'], c['version'], set(c)), (m.did, 3, world.COMMIT_FIELDS), f'commit {name}')
            check(verify(c, m.key.public_key()), 'commit %s: bad signature', name)
            check(c['rev'] not in revs, 'two commits have rev %s', c['rev'])
            revs.add(c['rev'])
            eq(c['rev'], world.rev_of(s.seqs[name]), 'rev of commit')
            before = chain[k - 1][2]
            call = by_cid.get(name)
            if call is None:
                fits = [u for u in unsure if valid(before, u['writes'])[0] == entries]
                check(fits, 'commit %s is in the history but no call made it', name)
                unsure.remove(fits[0])
                continue
            new, ops = valid(before, call['writes'])
            check(new is not None, 'commit %s of %s succeeded on top of %s', name, call['writes'], before)
            eq(entries, new, f'contents after commit {name} of {call["writes"]}')
            d = call['data']
            eq(b32(d.prev), chain[k - 1][0], 'prev that the commit call returned')
            eq([(o.action.name.lower(), o.path, o.cid, o.prev_cid) for o in d.commit.ops or []], ops, 'ops of commit')
            check(names.index(call['start']) < k <= names.index(call['end']),
                  'commit %s is not in between the heads at the start and end of its call', name)
            if k - names.index(call['start']) > 1:
                overlaps += 1
            total += 1
        for c in mine:
            if c['end'] is None:
                continue
            at, end = names.index(c['start']), names.index(c['end'])
            if 'error' in c:
                e = c['error']
                if isinstance(e, ValueError) and not isinstance(e, InactiveRepo):
                    check(any(valid(chain[k][2], c['writes'])[0] is None for k in range(at, end + 1)),
                          '%s failed with %r, but was valid all along', c['writes'], e)
                elif isinstance(e, InactiveRepo):
                    check(any(j['kind'] == 'status' and j['repo'] % n_repos == i for j in case['jobs']), 'unexpected %r', e)
                elif case['seqs'] == 'memory' and not any(j['fault'] for j in case['jobs']):
                    raise Violation(f'commit gave up: {e!r}')
            if c['cb']:
                check(len(c['cb']) == 1, 'callback called %s times for one commit', len(c['cb']))
                data, lost = c['cb'][0]
                eq((data is not None, lost is None), ('data' in c, 'data' in c), 'callback reported success, no lost seq')
                if data:
                    eq(b32(data.commit.cid), b32(c['data'].commit.cid), 'commit in callback')
        for r, start, seen, end, got in reads:
            if r == i:
                check(seen in names, 'a reader saw head %s, which is not in the history', seen)
                check(names.index(start) <= names.index(seen) <= names.index(end), 'a reader saw an outdated head')
                eq(got, chain[names.index(seen)][2], 'contents that a reader saw')
        sure = [x for x in statuses if x == (i, 'done')]
        if sure:
            eq(s.repos[m.did][1], 'deactivated', 'status after deactivation')
        elif not any(j['kind'] == 'status' and j['repo'] % n_repos == i for j in case['jobs']):
            eq(s.repos[m.did][1], None, 'status')
        # and the next commit works, on top of the final head
        if s.repos[m.did][1] is None:
            with w.request():
                d = w.storage.commit(load(i, 0), w.to_writes([('create', 'app.last.x/z', record(9))]))
            eq(b32(d.prev), names[-1], 'prev of the next commit')
    ctx.nontrivial(total > 1 and overlaps and sc.switches > 1)
    ctx.label(*{'fault' for j in case['jobs'] if j['fault']}, *{'status' for _ in statuses}, *{'read' for _ in reads},
              *{'died' for j in case['jobs'] if j['die']}, case['seqs'],
              *{'overlap' for _ in range(overlaps)}, *{'conflict' for _ in range(min(1, fake.conflicts))})


num = st.integers(0, 5)
write = st.one_of(*[st.tuples(st.just('new'), st.integers(0, 69), num)] * 4,
                  st.tuples(st.sampled_from(['create', 'update', 'delete']), st.integers(0, 9), num)).map(list)
writes = st.one_of(st.lists(write, min_size=1, max_size=1), st.lists(write, max_size=4))
fault = st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(1, 5), st.integers(0, 5)).map(list))
job = st.fixed_dictionaries({
    'kind': st.sampled_from(['write'] * 15 + ['read', 'status']), 'repo': st.sampled_from([0, 0, 0, 0, 1]),
    'handle': st.sampled_from(['kept', 'fresh', 'shared', 'old']), 'context': st.sampled_from(['request', 'lasting']),
    'commits': st.lists(writes, min_size=1, max_size=2), 'fault': fault,
    'die': st.one_of(st.none(), st.none(), st.none(), st.none(), st.none(), st.integers(1, 25))})
schedule = st.lists(st.tuples(st.one_of(st.integers(1, 6), st.integers(1, 15)), st.integers(0, 3)).map(list), min_size=3, max_size=16)

CHECK = Check('P08', 'at least two commits succeeded, one of them on top of a commit made during its call', [
    Test('schedules', st.fixed_dictionaries({
        'repos': st.sampled_from([1, 1, 1, 2]), 'seqs': st.sampled_from(['memory', 'memory', 'memory', 'datastore']),
        'lines': st.sampled_from([False] * 5 + [True]),
        'before': st.lists(world.writes(5), max_size=2),
        'jobs': st.lists(job, min_size=2, max_size=4), 'schedule': schedule}), run, 700),
    ],
    assumptions=['Datastore is a stand-in with serializable optimistic transactions'])
