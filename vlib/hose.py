"""A server with its firehose collector and subscribers as scheduled tasks on virtual time."""
import copy
from datetime import timedelta
import dag_cbor
from arroba import firehose, server, storage as storage_mod, xrpc_sync
from arroba.storage import SUBSCRIBE_REPOS_NSID as NSID
from vlib import gen, sched
from vlib.core import check, eq, Violation, HarnessError
from vlib.mstref import Ref, cid_of
from vlib.world import World, b32, record, rev_of, KEYS, DIDS

KINDS = [('account', {'active': True}), ('account', {'active': False, 'status': 'deactivated'}), ('identity', {'handle': 'x.com'}),
         ('identity', {}), ('sync', {'rev': '2222222222222', 'blocks': b'xyz'})]
PATHS = [p for ps in gen.pool_by_layer().values() for p in ps[:12]]


class Sequences(storage_mod.Sequences):
    """Like MemorySequences, but an allocated number can be held back and used later."""
    def __init__(self):
        self.next = {}
        self.use = None

    def allocate(self, nsid):
        if self.use is not None:
            seq, self.use = self.use, None
            return seq
        n = self.next[nsid] = self.next.get(nsid, 0) + 1
        return n

    def last(self, nsid):
        return self.next.get(nsid)


class Failed(Exception):
    """An injected storage failure."""


class Sub:
    def __init__(self, hose, cursor, limit, pauses):
        self.hose, self.cursor, self.limit, self.pauses = hose, cursor, limit, pauses
        self.items = []         # (virtual time, step, header, payload)
        self.error = None
        self.ended = False      # the generator finished
        self.left = False       # we stopped reading
        self.lo = hose.seqs.last(NSID) or 0
        self.hi = None
        self.born = hose.sc.steps
        self.connected = None   # how many events were written before it was known to be live
        self.task = hose.sc.spawn(self.run)

    def run(self):
        sc = self.hose.sc
        events = xrpc_sync.subscribe_repos(**({} if self.cursor is None else {'cursor': self.cursor}))
        try:
            for header, payload in events:
                with sc.atomic():
                    if self.hi is None:
                        self.hi = self.hose.seqs.last(NSID)
                    self.items.append((sc.now, sc.steps, copy.deepcopy(header), dag_cbor.encode(payload)))
                if self.limit and len(self.items) >= self.limit:
                    self.left = True
                    return
                pause = self.pauses.get(len(self.items))
                if pause:
                    sc.sleep(pause)
                sc.point()
            self.ended = True
        except AssertionError as e:
            self.error = e
        finally:
            events.close()

    @property
    def seqs(self):
        return [dag_cbor.decode(p)['seq'] for _, _, h, p in self.items if h.get('t') and h['t'] != '#info']


class Hose:
    def __init__(self, ctx, kind, conf, schedule, lines, repos=1):
        self.seqs = Sequences()
        self.w = w = World(kind, ctx, 'request', sequences=self.seqs, callbacks=False)
        self.storage = w.storage
        self.sc = sched.Sched(schedule, lines=('arroba/firehose.py', 'arroba/xrpc_sync.py') if lines else (), cycle=conf.get('cycle', False))
        self.sc.max_steps = 400_000
        self.delay = conf.get('delay', 1000)
        self.conf = conf
        consts = {'ROLLBACK_WINDOW': conf.get('rollback', 50), 'PRELOAD_WINDOW': conf.get('preload', 50),
                  'SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW': conf.get('window', 1000),
                  'SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY': timedelta(seconds=self.delay),
                  'SUBSCRIBE_REPOS_BATCH_DELAY': timedelta(seconds=conf.get('batch', 0))}
        for name, v in ({} if conf.get('asis') else consts).items():
            if not hasattr(firehose, name):
                raise HarnessError(f'firehose has no {name}')
            ctx.cleanup(lambda name=name, old=getattr(firehose, name): setattr(firehose, name, old))
            setattr(firehose, name, v)
        ctx.cleanup(sched.install(firehose))
        firehose.reset()
        ctx.cleanup(firehose.reset)
        self.events = {}        # seq -> dict
        self.order = []         # seqs in the order they were written
        self.reserved = []
        self.lost = {}          # seq -> virtual time
        self.subs = []
        self.notified = []
        self.collector = None
        self.pending = {}       # seq -> virtual time at which the write began
        self.failing = None     # the collector's next read fails at this event
        self.slow = 0           # virtual seconds the collector takes to read an event
        self.reading = False
        self.read_at = {}       # seq -> step at which the collector's last read that had it began
        self.contents = {}
        self.handles = {}
        for i in range(repos):
            w.create(i)
            self.handles[i] = w.handles[i]
            self.contents[i] = {}
        for seq, what, d in w.log:
            self.events[seq] = {'kind': what, 'at': (self.sc.now, self.sc.now), 'i': DIDS.index(d['did']), 'loose': True,
                                **({'cid': d['cid'], 'ops': [], 'prevData': None} if what == 'commit' else {})}
            self.order.append(seq)
        if w.fake:
            w.fake.on_rpc = lambda n, name, req: self.sc.point()
            w.fake.batch = conf.get('query_batch')
            ctx.cleanup(lambda: setattr(w.fake, 'on_rpc', None))
        orig = self.storage.read_events_by_seq

        def reading(*args, **kwargs):
            if self.collector is None or self.sc.current() is not self.collector.task:
                yield from orig(*args, **kwargs)
                return
            began = self.sc.steps
            self.reading = True
            try:
                for n, e in enumerate(orig(*args, **kwargs)):
                    if self.failing is not None and n >= self.failing:
                        self.failing = None
                        raise Failed('injected')
                    self.read_at[e['seq'] if isinstance(e, dict) else e.commit.seq] = began
                    if self.slow:
                        self.sc.sleep(self.slow)
                    yield e
            finally:
                self.reading = False
        self.storage.read_events_by_seq = reading

    # --- operations, on the driver's task

    def start(self, others=0):
        # others start it at the same time
        tasks = [self.sc.spawn(firehose.start) for _ in range(others)]
        firehose.start()
        while any(t.state != 'done' for t in tasks):
            self.sc.sleep(.001)
        self.collector = firehose.collector

    def restart(self, others=0):
        """The process with the collector and all its subscribers is replaced by another."""
        doomed = [self.collector.task] + [s.task for s in self.subs if s.task.state != 'done']
        for s in self.subs:
            s.left = True
        self.sc.kill(doomed)
        while any(t.state != 'done' for t in doomed):
            self.sc.sleep(.001)
        for v in list(vars(firehose).values()):
            if isinstance(v, sched.Lock):       # a killed thread may not have released it
                v.owner, v.count = None, 0
        firehose.reset()
        self.failing = None
        self.start(others)

    def repo(self, i):
        return self.handles[i % len(self.handles)]

    def written(self, seq, start, **kw):
        self.events[seq] = {'at': (start, self.sc.now), **kw}
        self.order.append(seq)

    def event(self, i, kind, seq=None):
        what, kw = KINDS[kind % len(KINDS)]
        i %= len(self.handles)
        self.seqs.use = seq
        start = self.sc.now
        with self.w.request():
            block = self.storage.write_event(repo=self.handles[i], type=what, **kw)
        d = block.decoded
        self.written(d['seq'], start, kind=what, i=i, payload={**kw, 'seq': d['seq'], 'did': DIDS[i], 'time': d['time']})
        return d['seq']

    def commit(self, i, writes, seq=None):
        i %= len(self.handles)
        have = dict(self.contents[i])
        resolved = []
        for n, (p, v) in enumerate(writes):
            path = PATHS[p % len(PATHS)]
            if v is None and path in have:
                resolved.append(('delete', path, None))
                del have[path]
            else:
                v = v or 0
                resolved.append(('update' if path in have else 'create', path, record(v)))
                have[path] = record(v)
        new, ops = self.w.apply(self.contents[i], resolved)
        self.seqs.use = seq
        start = self.sc.now
        prev = Ref({p: cid_of(dag_cbor.encode(r)) for p, r in self.contents[i].items()}).root
        with self.w.request():
            d = self.storage.commit(self.handles[i], self.w.to_writes(resolved))
        self.contents[i] = new
        self.written(d.commit.seq, start, kind='commit', i=i, cid=d.commit.cid, ops=ops, prevData=prev)
        return d.commit.seq

    def reserve(self):
        self.reserved.append(self.seqs.allocate(NSID))

    def settle(self, preload):
        """Before a (re)start: what is missing in the window it loads then isn't waited for.

        What is above everything stored isn't in there.
        """
        lowest = max([*self.order, self.seqs.last(NSID) - preload])
        for seq in [s for s in self.reserved if s <= lowest]:
            self.reserved.remove(seq)
            self.event(0, 0, seq)

    def lose(self, seq):
        self.lost[seq] = self.sc.now
        firehose.mark_seq_lost(seq)

    def notify(self):
        self.notified.append(self.sc.now)
        firehose.send_events()

    def subscribe(self, cursor, limit=None, pauses=None):
        s = Sub(self, cursor, limit, pauses or {})
        self.subs.append(s)
        return s

    def look(self):
        """Notes which subscribers are being served live by now."""
        for s in self.subs:
            if s.connected is None and s.task.state == 'waiting' and isinstance(s.task.on, sched.Queue):
                s.connected = len(self.order)

    def run(self, driver):
        """Runs driver() as a task until it ends."""
        sched.Lock.sched = self.sc
        t = self.sc.spawn(driver)
        try:
            self.sc.run(until=[t])
        except sched.Deadlock as e:
            raise Violation(str(e))
        finally:
            sched.Lock.sched = None
            if self.w.fake:
                self.w.fake.on_rpc = None
        for task in [t] + [s.task for s in self.subs]:
            if task.error:
                raise task.error

    # --- oracles

    def judge_frame(self, header, payload, content):
        """An event frame says what was written; content is {seq: bytes} seen so far."""
        p = dag_cbor.decode(payload)
        seq = p.get('seq')
        check(seq in self.events, 'got an event with seq %s, which nobody wrote', seq)
        e = self.events[seq]
        eq(header, {'op': 1, 't': '#' + e['kind']}, f'header of event {seq}')
        if e['kind'] == 'commit':
            eq((p['repo'], p['commit'], p['rev']), (DIDS[e['i']], e['cid'], rev_of(seq)), f'repo, commit, rev of event {seq}')
            got = [(o['action'], o['path'], o['cid'], o.get('prev')) for o in p['ops']]
            eq(got, e['ops'], f'ops of event {seq}')
            eq(p.get('prevData'), e['prevData'], f'prevData of event {seq}')
        elif 'payload' in e:
            eq(p, e['payload'], f'payload of event {seq}')
        else:
            eq(p['did'], DIDS[e['i']], f'did of event {seq}')
        old = content.setdefault(seq, payload)
        check(old == payload, 'event %s has different content for different subscribers', seq)
