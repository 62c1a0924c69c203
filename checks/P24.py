"""A lease has at most one holder at a time."""
from datetime import datetime, timedelta, timezone
from hypothesis import strategies as st
from vlib.core import Check, Test, Violation, eq, raises, check
from vlib.memc import Memcache, Clock
import threading, time
import webutil.util
from arroba.memcache import Lease


class Virtual:
    """Patches every clock the lease could read, and sleep, to one virtual clock."""
    def __init__(self, ctx):
        self.clock = Clock()
        self.on_sleep = None
        self.slept = []
        saved = (webutil.util.now, time.sleep, time.time, time.monotonic)
        def restore():
            webutil.util.now, time.sleep, time.time, time.monotonic = saved
        ctx.cleanup(restore)
        webutil.util.now = lambda tz=timezone.utc, **kw: datetime.fromtimestamp(self.clock.now, tz)
        time.time = time.monotonic = lambda: self.clock.now
        time.sleep = self.sleep

    def sleep(self, s):
        self.slept.append(s)
        until = self.clock.now + s
        if self.on_sleep:
            self.on_sleep(s)
        self.clock.now = max(self.clock.now, until)


def secs(ms):
    return timedelta(milliseconds=ms)


def history(case, ctx):
    v = Virtual(ctx)
    lag = list(case['lag'])
    def latency(phase, cmd):
        # the reply to an add takes a while
        if phase == 'after' and cmd == 'add' and lag:
            v.clock.now += lag.pop(0) / 1000
    mc = Memcache(v.clock, latency)
    keys = ['lease-a', 'lease-b', 'c' * 250]
    held = {}        # key -> (lease id, expiry): the reference lock
    leases = {}      # lease id -> (Lease, key, expiration, acquired at or None)
    depth = [0]
    pending = []     # ops left over for sleeps to run

    def holder(key):
        h = held.get(key)
        return h if h and v.clock.now < h[1] else None

    def maybe_held(key):
        # memcached expires in whole seconds, so an expiration rounded up is fine
        h = held.get(key)
        return h and mc.took_effect < h[1] + 1

    def make(op, ops):
        _, who, k, exp, retries, delay = op
        key = keys[k]
        lease = Lease(mc, key, expiration=secs(exp), retries=retries, initial_retry_delay=secs(delay))
        v.slept.clear()
        slept = []

        total = [0]
        def during(seconds):
            # while this one sleeps between attempts, others act
            slept.append(v.clock.now)
            total[0] += seconds
            check(maybe_held(key), 'retried although nobody held the lease %s', key)
            if ops and depth[0] < 2:
                depth[0] += 1
                run(ops.pop(0), ops)
                depth[0] -= 1
        v.on_sleep, prev = during, v.on_sleep
        start = len(mc.log)
        try:
            lease.acquire()
        except RuntimeError:
            check(maybe_held(key), 'acquire of %s failed although nobody held it', key)
            check(len(slept) == retries, 'gave up after %d retries, want %d', len(slept), retries)
            check(total[0] > (retries * delay - 1) / 1000, 'gave up after waiting %s s in total for %d retries at least %s ms apart',
                  total[0], retries, delay)
            check(not lease.expires_at, 'a lease that was not acquired has an expiration')
            ctx.label('acquire failed')
            return
        finally:
            v.on_sleep = prev
        check(len(slept) <= retries, 'retried %d times, allowed %d', len(slept), retries)
        h = held.get(key)
        check(not h or mc.took_effect >= h[1], 'acquired %s while %s held it', key, h)
        held[key] = (who, mc.took_effect + exp / 1000)
        leases[who] = [lease, key, exp]
        ctx.label('acquired')
        if slept: ctx.label('acquired after waiting')
        if exp % 1000: ctx.label('fractional expiration')
        check(not holder(key) or mc.peek(key) is not None, 'acquired but not in memcache')

    def drop(who):
        lease, key, exp = leases.pop(who)
        h = holder(key)
        mine = h and h[0] == who
        lease.release()
        if mine:
            held.pop(key)
            ctx.label('released')
        else:
            ctx.label('released after expiry')
            if h:
                ctx.label('successor in place at late release')
                check(mc.peek(key) is not None, "a late release of %s deleted its successor's lease", key)

    def run(op, ops):
        if op[0] == 'acquire':
            if op[1] in leases:
                return
            make(op, ops)
        elif op[0] == 'release':
            if op[1] in leases:
                drop(op[1])
        elif op[0] == 'forget':       # the holder crashed
            leases.pop(op[1], None)
        elif op[0] == 'tick':
            v.clock.now += op[1] / 1000
        elif op[0] == 'to_expiry':    # exactly at, just before or after an expiry
            if held:
                key = sorted(held)[op[1] % len(held)]
                v.clock.now = max(v.clock.now, held[key][1] + op[2] / 1000)
        elif op[0] == 'probe':
            # what a newcomer without retries sees must be what the reference says
            lag.clear()
            key = keys[op[1]]
            lease = Lease(mc, key, expiration=timedelta(seconds=1), retries=0)
            h = holder(key)
            if h:
                raises((RuntimeError,), lease.acquire, f'acquire of held {key}')
            elif key not in held or v.clock.now >= held[key][1] + 1:
                # up to a second of rounding is the memcache granularity
                lease.acquire()
                lease.release()
                lease2 = Lease(mc, key, expiration=timedelta(seconds=1), retries=0)
                lease2.acquire()
                lease2.release()
                held.pop(key, None)
                ctx.label('probe found it free')

    ops = [list(o) for o in case['ops']]
    n = 0
    while ops:
        run(ops.pop(0), ops)
        n += 1
    ctx.nontrivial(len({o[1] for o in case['ops'] if o[0] == 'acquire'}) >= 2)


def scope(case, ctx):
    """Leaving the scope releases, on error too; the error gets out."""
    v = Virtual(ctx)
    mc = Memcache(v.clock)
    class Boom(Exception): pass
    for fail in case['fails']:
        err = {0: None, 1: Boom(), 2: KeyboardInterrupt(), 3: ValueError('x')}[fail]
        try:
            with Lease(mc, 'k', expiration=secs(case['exp']), retries=0) as lease:
                check(mc.peek('k') is not None, 'not held inside the scope')
                raises((RuntimeError,), Lease(mc, 'k', retries=0).acquire, 'second acquire inside the scope')
                v.clock.now += min(case['inside'], case['exp'] - 1) / 1000
                if err:
                    raise err
        except (Boom, KeyboardInterrupt, ValueError) as e:
            check(e is err, 'another error came out of the scope: %r', e)
        else:
            check(err is None, 'the error was swallowed')
        check(mc.peek('k') is None, 'still held after the scope ended with %r', err)
        v.clock.now += case['between'] / 1000
    ctx.nontrivial(any(case['fails']))


def race(case, ctx):
    """Real threads, real client calls, generated interleaving at each memcache command."""
    v = Virtual(ctx)
    turn = threading.Semaphore(0)
    inside, most = [0], [0]
    lock = threading.Lock()
    mc = Memcache(v.clock)
    order = list(case['order'])
    n = case['n']
    gates = [threading.Semaphore(0) for _ in range(n)]
    idle = threading.Semaphore(0)
    me = threading.local()

    def hook(phase, cmd):
        if phase == 'before':
            idle.release()
            gates[me.i].acquire()
    mc.hook = hook
    v.on_sleep = lambda seconds: hook('before', 'sleep')
    errors, done = [], [False] * n

    def body(i):
        me.i = i
        gates[i].acquire()
        try:
            with Lease(mc, 'k', expiration=timedelta(minutes=5), retries=case['retries'], initial_retry_delay=timedelta(0)):
                inside[0] += 1
                most[0] = max(most[0], inside[0])
                hook('before', 'work')
                inside[0] -= 1
        except RuntimeError:
            ctx.label('some gave up')
        except BaseException as e:
            errors.append(e)
        done[i] = True
        idle.release()

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    step = 0
    while not all(done):
        live = [i for i in range(n) if not done[i]]
        i = live[(order[step % len(order)] if order else 0) % len(live)]
        step += 1
        gates[i].release()
        if not idle.acquire(timeout=30):
            raise Violation('a lease call neither finished nor made progress')
    if errors:
        raise errors[0]
    check(most[0] <= 1, '%d holders inside the scope at once', most[0])
    check(mc.peek('k') is None, 'still held after everyone left')
    ctx.nontrivial(step > n * 2)


who = st.integers(0, 5)
exp = st.sampled_from([200, 500, 999, 1000, 1001, 1500, 1999, 2000, 2500, 5000, 60000, 300000])
op = st.one_of(
    st.tuples(st.just('acquire'), who, st.integers(0, 2), exp, st.integers(0, 3), st.sampled_from([100, 400, 1000, 3000])),
    st.tuples(st.just('acquire'), who, st.just(0), exp, st.integers(0, 3), st.sampled_from([100, 400, 1000, 3000])),
    st.tuples(st.just('release'), who),
    st.tuples(st.just('forget'), who),
    st.tuples(st.just('tick'), st.sampled_from([1, 99, 250, 500, 1000, 1499, 2000, 61000])),
    st.tuples(st.just('to_expiry'), st.integers(0, 2), st.sampled_from([-1, 0, 1, 400, 1000])),
    st.tuples(st.just('probe'), st.integers(0, 2)),
).map(list)

CHECK = Check(
    'P24',
    rule='histories of up to 25 acquires, releases, holder crashes, clock advances (to just before, at and after expiries) by 6 holders over 3 keys with '
         '200 ms-5 min expirations, where others act while one sleeps between retries; scopes left by errors; 2-4 threads interleaved at every memcache command. '
         'Non-trivial: two or more acquirers, or an error, or a real interleaving.',
    assumptions=['the memcache server is a virtual-time stand-in with memcached semantics: integer seconds, 0 means never, atomic add'],
    tests=[
        Test('history', st.fixed_dictionaries({'ops': st.lists(op, min_size=2, max_size=25),
            'lag': st.lists(st.sampled_from([0, 0, 1, 300, 900]), max_size=6)}), history, 6000, 400000),
        Test('scope', st.fixed_dictionaries({'fails': st.lists(st.integers(0, 3), min_size=1, max_size=5), 'exp': exp,
                                             'inside': st.integers(0, 4000), 'between': st.integers(0, 3000)}), scope, 1500, 50000),
        Test('race', st.fixed_dictionaries({'n': st.integers(2, 4), 'retries': st.integers(0, 3),
                                            'order': st.lists(st.integers(0, 11), min_size=1, max_size=25)}), race, 800, 30000),
    ])
