"""Runs several tasks, each on its own thread, one at a time under a generated schedule.

A task gives up its turn at every yield point: explicit ones (point(), called from the
stand-ins for Datastore and memcache) and, with lines=..., every line of the named files.
A schedule is a list of [n, who]: switch to task `who` of those that can run and let it
pass n points. When it is used up, each task runs until it waits or ends.

Locks made while patched_locks() is active are cooperative, so a task that waits for one
is known to be waiting. install() does that for a whole module: its locks, conditions,
events, queues, threads and clock. Time is virtual: it only passes when every task waits.
A task that blocks on anything else is noticed by a timeout and set aside until it moves
on by itself.
"""
import contextlib, queue, sys, threading, time, types
from vlib.core import HarnessError

BLOCKED_AFTER = 2.0     # seconds without progress before a task counts as blocked
STUCK_AFTER = 40.0


REAL_LOCK = threading.Lock


class Abandoned(BaseException):
    """The run is over; the task's thread unwinds."""


class Task:
    def __init__(self, sched, index, fn):
        self.sched, self.index, self.fn = sched, index, fn
        self.state = 'ready'        # ready, running, waiting, blocked, done
        self.gate = threading.Semaphore(0)
        self.error = None
        self.on = None              # the lock it waits for
        self.quiet = 0
        self.dead = False
        self.deadline = None        # virtual time at which it stops waiting
        self.points = 0
        self.die_at = None          # (point number, fn called then)
        self.thread = threading.Thread(target=self._run, daemon=True, name=f'task {index}')

    def _run(self):
        self.sched.local.task = self
        self.gate.acquire()
        try:
            if self.sched.over:
                return
            if self.sched.lines:
                sys.settrace(self._trace)
            self.fn()
        except Abandoned:
            pass
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            with self.sched.cond:
                self.state = 'done'
                self.sched.cond.notify_all()

    def _trace(self, frame, event, arg):
        if event == 'call':
            return self._trace if frame.f_code.co_filename.endswith(self.sched.lines) else None
        if event == 'line':
            self.sched.point()
        return self._trace


class Sched:
    def __init__(self, schedule, lines=(), now=1_700_000_000.0, cycle=False):
        self.plan = [list(s) for s in schedule]
        self.cycle = cycle          # start the schedule over when it's used up
        self.left = 0
        self.lines = tuple(lines)
        self.cond = threading.Condition(REAL_LOCK())
        self.local = threading.local()
        self.tasks = []
        self.steps = 0
        self.switches = 0
        self.over = False
        self.now = now
        self.max_steps = None

    def spawn(self, fn):
        t = Task(self, len(self.tasks), fn)
        with self.cond:
            self.tasks.append(t)
        t.thread.start()
        return t

    def current(self):
        return getattr(self.local, 'task', None)

    def _abandon(self, t):
        t.quiet += 1        # let it unwind undisturbed
        raise Abandoned()

    def point(self):
        """Called on a task's thread: others may run here. Elsewhere, does nothing."""
        t = self.current()
        if t is None or t.quiet:
            return
        if t.dead or self.over:
            self._abandon(t)
        t.points += 1
        if t.die_at and t.points >= t.die_at[0]:
            t.die_at[1]()
            self._abandon(t)
        self.steps += 1
        if self.max_steps and self.steps > self.max_steps:
            self._yield(t, 'ready')
        if self.left > 0:
            self.left -= 1
        elif self.plan:
            self._yield(t, 'ready')

    @contextlib.contextmanager
    def atomic(self):
        """No switches inside, for harness code that runs on a task's thread."""
        t = self.current()
        if t: t.quiet += 1
        try:
            yield
        finally:
            if t: t.quiet -= 1

    def _yield(self, t, state, deadline=None):
        """Returns True, or False when it was woken because of the deadline."""
        with self.cond:
            if self.over or t.dead:
                self._abandon(t)
            t.state, t.deadline = state, deadline
            self.cond.notify_all()
        t.gate.acquire()
        if self.over or t.dead:
            self._abandon(t)
        timed_out, t.timed_out = getattr(t, 'timed_out', False), False
        return not timed_out

    def wait(self, on, timeout=None):
        """The current task waits until wake(on) or the timeout; True if it was woken."""
        t = self.current()
        if t is None:
            raise HarnessError('waiting outside a task')
        t.on = on
        return self._yield(t, 'waiting', None if timeout is None else self.now + max(timeout, 0.001))

    def wake(self, on, n=None):
        with self.cond:
            for t in self.tasks:
                if t.state == 'waiting' and t.on is on and n != 0:
                    t.state, t.on, t.deadline = 'ready', None, None
                    n = n and n - 1

    def sleep(self, seconds):
        t = self.current()
        if t is not None:
            if self.over or t.dead:
                raise Abandoned()
            self.wait(object(), seconds)

    def kill(self, tasks):
        """These tasks' process is gone: they do nothing more."""
        for t in tasks:
            t.dead = True
            if t.state == 'waiting':
                t.state = 'ready'

    def _step(self, t):
        """Let t run to where it gives up its turn."""
        with self.cond:
            t.state = 'running'
        t.gate.release()
        while True:
            steps = self.steps
            with self.cond:
                if self.cond.wait_for(lambda: t.state != 'running', BLOCKED_AFTER):
                    return
                if steps == self.steps:
                    t.state = 'blocked'
                    return

    def run(self, until=()):
        """Until these tasks, or all, are done."""
        cur = None
        stuck_since = None
        try:
            while True:
                with self.cond:
                    live = [t for t in self.tasks if t.state != 'done']
                    ready = [t for t in live if t.state == 'ready']
                if not live or (until and all(t.state == 'done' for t in until)):
                    return
                if self.max_steps and self.steps > self.max_steps:
                    raise Deadlock(f'no end after {self.max_steps} steps')
                if not ready:
                    if any(t.state == 'blocked' for t in live):
                        stuck_since = stuck_since or time.time()
                        with self.cond:
                            moved = self.cond.wait_for(lambda: any(t.state in ('ready', 'done') for t in live), 1)
                        if moved:
                            stuck_since = None
                        elif time.time() - stuck_since > STUCK_AFTER:
                            raise Deadlock(f'tasks {[t.index for t in live]} make no progress')
                        continue
                    timed = [t for t in live if t.state == 'waiting' and t.deadline is not None]
                    if not timed:
                        raise Deadlock(f'tasks {[t.index for t in live]} wait for what nothing will release')
                    t = min(timed, key=lambda t: t.deadline)
                    self.now = max(self.now, t.deadline)
                    t.state, t.on, t.deadline, t.timed_out = 'ready', None, None, True
                    continue
                stuck_since = None
                if cur not in ready or self.left <= 0:
                    if self.plan:
                        n, who = self.plan.pop(0)
                        if self.cycle:
                            self.plan.append([n, who])
                        pick = ready[who % len(ready)]
                        self.left = n - 1
                    else:
                        self.left = 0
                        pick = ready[0]
                    if pick is not cur:
                        self.switches += 1
                    cur = pick
                else:
                    self.left -= 1
                self._step(cur)
        finally:
            with self.cond:
                self.over = True
                tasks = list(self.tasks)
            for t in tasks:
                if t.state != 'done':
                    t.gate.release()
            for t in tasks:
                t.thread.join(2)


class Deadlock(Exception):
    pass


class Lock:
    """threading.Lock, RLock when reentrant, that knows the scheduler."""
    sched = None

    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.count = reentrant, None, 0
        self.real = REAL_LOCK()

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if Lock.sched and self.owner != me:
            Lock.sched.point()
        while True:
            s = Lock.sched
            t = s.current() if s else None
            with self.real:
                if self.owner is None or (self.reentrant and self.owner == me):
                    self.owner, self.count = me, self.count + 1
                    return True
            if not blocking:
                return False
            if t is None or s.over or t.dead:
                if self.owner not in {x.ident for x in threading.enumerate()}:
                    with self.real:     # it died in between
                        self.owner, self.count = None, 0
                time.sleep(.001)
                continue
            s.wait(self)

    def release(self):
        with self.real:
            if self.owner is None:
                raise RuntimeError('release unlocked lock')
            self.count -= 1
            if self.count == 0:
                self.owner = None
        if Lock.sched:
            Lock.sched.wake(self)
            if not self.count:
                Lock.sched.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


@contextlib.contextmanager
def patched_locks():
    """Locks that the code makes inside are cooperative."""
    orig = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = Lock, lambda: Lock(True)
    try:
        yield
    finally:
        threading.Lock, threading.RLock = orig


LOCK_TYPES = (type(threading.Lock()), type(threading.RLock()))


def own_process(cls):
    """A subclass with its own copy of cls's class-level state, as another process has."""
    attrs = {}
    for c in cls.__mro__:
        if not c.__module__.startswith('arroba.'):
            continue
        for k, v in vars(c).items():
            if k in attrs or k.startswith('__'):
                continue
            if isinstance(v, (dict, set, list)):
                attrs[k] = type(v)()
            elif isinstance(v, LOCK_TYPES):
                attrs[k] = Lock(isinstance(v, LOCK_TYPES[1]))
    return type(cls.__name__, (cls,), attrs)


class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True
        if Lock.sched:
            Lock.sched.wake(self)

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        s = Lock.sched
        if s and s.current():
            s.point()
            while not self.flag:
                if not s.wait(self, timeout):
                    break
        return self.flag


class Condition:
    def __init__(self, lock=None):
        self.lock = lock or Lock(True)
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waits = 0

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *exc):
        self.lock.__exit__(*exc)

    def wait(self, timeout=None):
        s = Lock.sched
        count, self.lock.count = self.lock.count, 1
        self.lock.release()
        self.waits += 1
        try:
            return s.wait(self, timeout)
        finally:
            self.lock.acquire()
            self.lock.count = count

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else Lock.sched.now + timeout
        while not (ret := predicate()):
            left = None if end is None else end - Lock.sched.now
            if left is not None and left <= 0:
                break
            self.wait(left)
        return ret

    def notify(self, n=1):
        if Lock.sched:
            Lock.sched.wake(self, n)

    def notify_all(self):
        self.notify(None)


class Queue:
    """queue.SimpleQueue and queue.Queue."""
    def __init__(self, maxsize=0):
        self.items, self.maxsize = [], maxsize

    def put(self, item, block=True, timeout=None):
        if self.maxsize and len(self.items) >= self.maxsize:
            raise queue.Full()
        if Lock.sched:
            Lock.sched.point()
        self.items.append(item)
        if Lock.sched:
            Lock.sched.wake(self)

    def put_nowait(self, item):
        self.put(item)

    def get(self, block=True, timeout=None):
        s = Lock.sched
        if s:
            s.point()
        while not self.items:
            if not block or not s.wait(self, timeout):
                raise queue.Empty()
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(block=False)

    def qsize(self):
        return len(self.items)

    def empty(self):
        return not self.items


class Time(types.ModuleType):
    """The time module, on virtual time."""
    def __init__(self):
        super().__init__('time')
        self.__dict__.update({k: v for k, v in vars(time).items() if not k.startswith('__')})
        self.time = self.monotonic = self.perf_counter = lambda: Lock.sched.now
        self.time_ns = self.monotonic_ns = lambda: int(Lock.sched.now * 1e9)
        self.sleep = lambda s: Lock.sched.sleep(s)


class Threading(types.ModuleType):
    """The threading module, cooperative."""
    def __init__(self, start):
        super().__init__('threading')
        self.__dict__.update({k: v for k, v in vars(threading).items() if not k.startswith('__')})
        self.Lock, self.RLock = Lock, lambda: Lock(True)
        self.Event, self.Condition = Event, Condition
        self.Thread = type('Thread', (threading.Thread,), {'start': start})


def install(module):
    """Makes a module's synchronization cooperative; returns a function that undoes it.

    Threads that the module starts become tasks of Lock.sched."""
    def start(thread):
        thread.task = Lock.sched.spawn(thread.run)
    time_mod, threading_mod = Time(), Threading(start)
    saved, classes = {}, []
    for name, v in list(vars(module).items()):
        new = None
        if v is threading: new = threading_mod
        elif v is time: new = time_mod
        elif v is time.time or v is time.monotonic: new = time_mod.time
        elif v is time.sleep: new = time_mod.sleep
        elif v in (threading.Lock, threading.RLock, threading.Event, threading.Condition) if callable(v) else False:
            new = getattr(threading_mod, v.__name__, None) or (Lock if v is threading.Lock else threading_mod.RLock)
        elif v is queue.SimpleQueue or v is queue.Queue: new = Queue
        elif v is queue:
            new = types.ModuleType('queue')
            new.__dict__.update({**vars(queue), 'SimpleQueue': Queue, 'Queue': Queue})
        elif isinstance(v, LOCK_TYPES): new = Lock(isinstance(v, LOCK_TYPES[1]))
        elif isinstance(v, threading.Event):
            new = Event()
            new.flag = v.is_set()
        elif isinstance(v, threading.Condition): new = Condition()
        elif isinstance(v, type) and issubclass(v, threading.Thread) and v.__module__ == module.__name__:
            classes.append((v, v.__dict__.get('start')))
            v.start = start
        if new is not None:
            saved[name] = v
            setattr(module, name, new)

    def undo():
        for name, v in saved.items():
            setattr(module, name, v)
        for c, orig in classes:
            if orig: c.start = orig
            else: del c.start
    return undo
