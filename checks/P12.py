"""Sequence numbers are unique, increasing and never reused."""
import os
os.environ['MEMCACHE_SEQUENCE_BATCH'] = '9'
os.environ['MEMCACHE_SEQUENCE_BUFFER'] = '4'
import contextlib, threading
from google.api_core import exceptions as gexc
from google.cloud import ndb
from hypothesis import strategies as st
from arroba import datastore_storage, storage
from vlib import fakeds, sched
from vlib.core import Check, Test, check, eq, Violation
from vlib.memc import Memcache

STREAMS = ['com.atproto.sync.subscribeRepos', 'com.atproto.label.subscribeLabels']


class Gone(Exception):
    """The memcache server or connection failed."""


def small_batches(ctx, batch, buffer):
    for name, v in ('MEMCACHE_SEQUENCE_BATCH', batch), ('MEMCACHE_SEQUENCE_BUFFER', buffer):
        if isinstance(getattr(datastore_storage, name, None), int):
            old = getattr(datastore_storage, name)
            setattr(datastore_storage, name, v)
            ctx.cleanup(lambda name=name, old=old: setattr(datastore_storage, name, old))


class Servers:
    """The Datastore and memcache servers that all processes share."""
    def __init__(self, ctx, kind, batch=9, buffer=4):
        self.kind = kind
        self.fake = fakeds.fresh()
        self.client = fakeds.client()
        ctx.cleanup(fakeds.reset_context)
        self.mc = Memcache()
        if kind == 'memcache':
            small_batches(ctx, batch, buffer)
        with sched.patched_locks():
            self.memory = storage.MemorySequences() if kind == 'memory' else None

    def process(self):
        with sched.patched_locks():
            if self.kind == 'memory':
                return self.memory
            if self.kind == 'datastore':
                return sched.own_process(datastore_storage.DatastoreSequences)(ndb_client=self.client)
            return sched.own_process(datastore_storage.MemcacheSequences)(memcache=self.mc, ndb_client=self.client)


class Ref:
    """What has been allocated."""
    def __init__(self):
        self.given = {s: [] for s in STREAMS}    # (seq, start, end)
        self.vague = set()      # streams whose counter an unfinished call may have moved
        self.time = 0

    def tick(self):
        self.time += 1
        return self.time

    def got(self, stream, seq, start, end, what='allocate'):
        check(type(seq) is int and seq > 0, '%s returned %r', what, seq)
        for other, s, e in self.given[stream]:
            check(other != seq, '%s returned %s, which was returned before', what, seq)
            if e < start:
                check(other < seq, '%s returned %s, but %s was allocated before it began', what, seq, other)
            if end < s:
                check(seq < other, '%s returned %s, but %s was allocated after it ended', what, seq, other)
        self.given[stream].append((seq, start, end))

    def last(self, stream, got, what):
        top = max((g[0] for g in self.given[stream]), default=0)
        if got is None:
            return
        check(type(got) is int, '%s is %r', what, got)
        if stream in self.vague:
            check(got >= top, '%s is %s, below %s', what, got, top)
        elif top or got != 0:
            eq(got, top, what)


def history(case, ctx):
    s = Servers(ctx, case['kind'], *case['sizes'])
    ref = Ref()
    procs = {}

    def proc(i):
        if i not in procs:
            procs[i] = (s.process(), s.client.context() if case['long'][i] else None)
        return procs[i]

    @contextlib.contextmanager
    def inside(i):
        """In process i's ndb context: one for its lifetime, one per call, or none of ours."""
        if case['long'][i] == 1:
            cm = procs[i][1]
            if not hasattr(cm, 'entered'):
                with s.client.context() as c:
                    pass
            with long_context(s, procs, i):
                yield
        elif case['long'][i] == 2:
            with s.client.context():
                yield
        else:
            yield

    flushed = failed = allocs = 0
    for op in case['ops']:
        kind = op[0]
        if kind == 'alloc':
            i, stream = op[1], STREAMS[op[2]]
            p, _ = proc(i)
            for _ in range(op[3]):
                with inside(i):
                    start = ref.tick()
                    seq = p.allocate(stream)
                    ref.got(stream, seq, start, ref.tick(), f'{case["kind"]} allocate')
                    ref.vague.discard(stream)
                    allocs += 1
        elif kind == 'intx':
            # the caller is in a transaction of its own, which reads, is maybe retried, and fails in the end or not
            i, streams, n, ok, retry = op[1], [STREAMS[k] for k in op[2]], op[3], op[4], [op[5]]
            p, _ = proc(i)
            @ndb.transactional(retries=1)
            def tx():
                nonlocal allocs
                datastore_storage.AtpRepo.get_by_id('did:web:x.com')
                for stream in streams * n:
                    start = ref.tick()
                    seq = p.allocate(stream)
                    ref.got(stream, seq, start, ref.tick(), f'{case["kind"]} allocate in a transaction')
                    ref.vague.discard(stream)
                    allocs += 1
                if retry[0]:
                    retry[0] = 0
                    raise gexc.Aborted('try again')
                if not ok:
                    raise Gone('roll back')
            try:
                with inside(i), (contextlib.nullcontext() if case['long'][i] in (1, 2) else s.client.context()):
                    tx()
            except Gone:
                pass
            ctx.label('in a transaction', *([] if ok else ['in a transaction that was rolled back']))
        elif kind == 'outage':
            # Datastore fails for a while, maybe only its commits, maybe after they're applied
            i, stream, n, commits, after = op[1], STREAMS[op[2]], op[3], op[4], op[5]
            p, _ = proc(i)
            hit = [0]
            def down(k, name, req):
                if not commits or name == 'commit':
                    hit[0] += 1
                    e = gexc.PermissionDenied('injected')
                    if after:
                        return e
                    raise e
            for _ in range(n):
                hit[0] = 0
                s.fake.on_rpc = down
                try:
                    with inside(i):
                        start = ref.tick()
                        seq = p.allocate(stream)
                        ref.got(stream, seq, start, ref.tick(), f'{case["kind"]} allocate')
                        ref.vague.discard(stream)
                except BaseException as e:
                    if not hit[0]:
                        raise
                    ref.vague.add(stream)
                    failed += 1
                finally:
                    s.fake.on_rpc = None
        elif kind == 'flush':
            s.mc.flush_all()
            flushed += 1
        elif kind == 'restart':
            procs.pop(op[1], None)
        elif kind == 'last':
            i, stream = op[1], STREAMS[op[2]]
            p, _ = proc(i)
            with inside(i):
                ref.last(stream, p.last(stream), f'{case["kind"]} last')
        elif kind == 'fail':
            # one server call of an allocation fails, before or after it takes effect
            i, stream, at, after, n = op[1], STREAMS[op[2]], op[3], op[4], op[5]
            p, _ = proc(i)
            count = [0]
            def due():
                count[0] += 1
                return at < count[0] <= at + n
            def on_rpc(k, name, req):
                if due():
                    e = gexc.InternalServerError('injected') if n < 3 else gexc.ServiceUnavailable('injected')
                    if after:
                        return e
                    raise e
            def hook(phase, cmd):
                if phase == ('after' if after else 'before') and due():
                    raise Gone('injected')
            s.fake.on_rpc, s.mc.hook = on_rpc, hook
            try:
                with inside(i):
                    start = ref.tick()
                    seq = p.allocate(stream)
                    ref.got(stream, seq, start, ref.tick(), f'{case["kind"]} allocate')
                    ref.vague.add(stream)
            except (Gone, gexc.GoogleAPICallError) as e:
                ref.vague.add(stream)
                failed += 1
            except BaseException as e:
                if count[0] <= at:
                    raise       # nothing was injected
                ref.vague.add(stream)
                failed += 1
            finally:
                s.fake.on_rpc, s.mc.hook = None, lambda phase, cmd: None
    ctx.nontrivial(allocs > 5 and (len(procs) > 1 or flushed or failed))
    ctx.label(case['kind'], *(['flushed'] if flushed else []), *(['failed'] if failed else []),
              *(['lasting context'] if 1 in case['long'] else []))


_held = {}

@contextlib.contextmanager
def long_context(s, procs, i):
    """The one context process i keeps for all its calls."""
    p = procs[i]
    c = getattr(p[0], '_verif_ctx', None)
    if c is None:
        with s.client.context() as c:
            p[0]._verif_ctx = c
            yield
        return
    with c.use():
        yield


def concurrent(case, ctx):
    """Several processes and threads at once, interleaved at every line of arroba's and at
    every server call, with the memcache contents lost and processes killed on the way."""
    s = Servers(ctx, case['kind'], 9, 4)
    ref = Ref()
    procs = [s.process() for _ in range(1 if case['kind'] == 'memory' else 3)]
    stream = STREAMS[0]

    def alloc(p, n):
        for _ in range(n):
            with contextlib.nullcontext() if case['context'] == 'none' else s.client.context():
                start = ref.tick()
                seq = p.allocate(stream)
                with sc.atomic():
                    results.append((seq, start, ref.tick()))

    if case['warm']:
        seq = procs[0].allocate(stream)
        ref.got(stream, seq, ref.tick(), ref.tick())
    for phase in case['phases']:
        results, dead = [], []
        sc = sched.Sched(phase['schedule'], lines=('arroba/datastore_storage.py', 'arroba/storage.py') if phase['lines'] else ())
        sched.Lock.sched = sc
        s.fake.on_rpc = lambda n, name, req: sc.point()
        s.mc.hook = lambda ph, cmd: sc.point()
        tasks = []
        for k, (pi, n) in enumerate(phase['tasks']):
            tasks.append(sc.spawn(lambda p=procs[pi % len(procs)], n=n: alloc(p, n)))
        if phase['kill'] and case['kind'] != 'memory':
            k, n = phase['kill']
            victim = phase['tasks'][k % len(phase['tasks'])][0]
            mates = [t for t, (pi, _) in zip(tasks, phase['tasks']) if pi == victim]
            def die():
                dead.append(victim)
                sc.kill(mates)
            tasks[k % len(phase['tasks'])].die_at = n, die
        warm = bool(s.mc.data)     # a second loss otherwise
        if phase['flush'] and warm:
            def flush():
                sc.point()
                s.mc.flush_all()
            tasks.append(sc.spawn(flush))
        try:
            sc.run()
        except sched.Deadlock as e:
            raise Violation(str(e))
        finally:
            s.fake.on_rpc, s.mc.hook = None, lambda ph, cmd: None
            sched.Lock.sched = None
        for t in tasks:
            if t.error:
                if isinstance(t.error, gexc.Aborted):
                    ref.vague.add(stream)      # contention beyond the retries
                    ctx.label('gave up')
                    continue
                raise t.error
        for r in results:
            ref.got(stream, *r, what=f'{case["kind"]} allocate')
        for i in dead:
            ref.vague.add(stream)
            procs[i] = s.process()
            ctx.label('killed')
        for p in procs:
            ref.last(stream, p.last(stream), f'{case["kind"]} last')
        ctx.nontrivial(sc.switches > 2)
        ctx.label(case['kind'], *(['flush'] if phase['flush'] and warm else []))
        if phase['restart']:
            procs = [s.process() for _ in procs]
        if phase['flush_after']:
            s.mc.flush_all()


who = st.integers(0, 2)
stream = st.sampled_from([0, 0, 0, 1])
op = st.one_of(
    st.tuples(st.just('alloc'), who, stream, st.integers(1, 8)),
    st.tuples(st.just('alloc'), who, stream, st.integers(1, 8)),
    st.tuples(st.just('fail'), who, stream, st.integers(0, 7), st.booleans(), st.sampled_from([1, 1, 1, 2, 30])),
    st.tuples(st.just('outage'), who, stream, st.integers(1, 12), st.booleans(), st.booleans()),
    st.tuples(st.just('intx'), who, st.lists(stream, min_size=1, max_size=2), st.integers(1, 3), st.booleans(), st.booleans()),
    st.tuples(st.just('flush')),
    st.tuples(st.just('restart'), who),
    st.tuples(st.just('last'), who, stream),
).map(list)
schedule = st.lists(st.tuples(st.one_of(st.integers(1, 7), st.integers(1, 40)), st.integers(0, 3)).map(list), max_size=12)

CHECK = Check(
    'P12', 'at least 6 allocations by two processes, or with memcache lost or a server call failing; or at least 3 switches between concurrent calls', [
    Test('history', st.fixed_dictionaries({
        'kind': st.sampled_from(['memcache', 'memcache', 'memcache', 'datastore', 'memory']),
        'sizes': st.sampled_from([[9, 4], [3, 2], [5, 4], [20, 2]]),
        'long': st.lists(st.integers(0, 2), min_size=3, max_size=3),
        'ops': st.lists(op, min_size=3, max_size=20)}), history, 1500),
    Test('concurrent', st.fixed_dictionaries({
        'kind': st.sampled_from(['memcache', 'memcache', 'datastore', 'memory']),
        'context': st.sampled_from(['none', 'call']), 'warm': st.booleans(),
        'phases': st.lists(st.fixed_dictionaries({
            'lines': st.booleans(), 'flush': st.booleans(), 'flush_after': st.booleans(), 'restart': st.booleans(),
            'kill': st.one_of(st.none(), st.tuples(st.integers(0, 2), st.integers(1, 45)).map(list)),
            'tasks': st.lists(st.tuples(st.integers(0, 2), st.integers(1, 3)).map(list), min_size=2, max_size=3),
            'schedule': schedule}), min_size=1, max_size=3)}), concurrent, 800),
    Test('threads', st.fixed_dictionaries({
        'kind': st.just('memory'), 'context': st.just('none'), 'warm': st.booleans(),
        'phases': st.lists(st.fixed_dictionaries({
            'lines': st.just(True), 'flush': st.just(False), 'flush_after': st.just(False), 'restart': st.just(False),
            'kill': st.none(),
            'tasks': st.lists(st.tuples(st.just(0), st.integers(1, 2)).map(list), min_size=2, max_size=3),
            'schedule': st.lists(st.tuples(st.integers(1, 9), st.integers(0, 2)).map(list), min_size=2, max_size=8)}),
            min_size=1, max_size=2)}), concurrent, 200),
    ],
    assumptions=['memcached and Datastore are stand-ins with atomic commands and serializable optimistic transactions',
                 'fewer calls are in progress at once than MEMCACHE_SEQUENCE_BUFFER, and memcache loses its contents at most once while any of them is (being empty at first counts as once)'])
