"""Timestamp identifiers and AT URIs round-trip and keep order."""
import os, sys, threading, time
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo
from hypothesis import strategies as st
from vlib.worldutil import patch_clock
from vlib.core import Check, Test, Violation, HarnessError, eq, raises, check
from arroba import util

ALPHABET = '234567abcdefghijklmnopqrstuvwxyz'
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
MAX = 2 ** 55 - 1     # 11 base32 characters
MAX_US = (datetime(3000, 1, 1, tzinfo=timezone.utc) - EPOCH) // timedelta(microseconds=1)


def ref_tid(num, clock=None):
    out = ''
    for _ in range(11):
        out = ALPHABET[num & 31] + out
        num >>= 5
    return out


def wellformed(tid):
    check(isinstance(tid, str) and len(tid) == 13 and set(tid) <= set(ALPHABET),
          'TID %r is not 13 sortable base32 characters', tid)


def ints(case, ctx):
    prev = None
    for n, c in sorted(map(tuple, case['nums'])):
        tid = util.int_to_tid(n, clock_id=c)
        wellformed(tid)
        eq(tid[:11], ref_tid(n), f'timestamp part of TID for {n}')
        if c == 0:
            eq(tid[11:], '22', 'clock part for clock id 0')
        eq(util.tid_to_int(tid), n, f'tid_to_int({tid})')
        eq(util.tid_to_int(tid.encode()), n, f'tid_to_int of bytes {tid}')
        own = util.int_to_tid(n)
        wellformed(own)
        eq(util.tid_to_int(own), n, f"tid_to_int({own}), this runtime's clock id")
        if prev is not None and prev[0] < n:
            check(prev[1] < tid, 'order: %s -> %s but %s -> %s', prev[0], prev[1], n, tid)
        prev = (n, tid)
        eq(util.s32decode(util.s32encode(n)), n, 's32 round trip')
    ctx.nontrivial(len({n for n, _ in case['nums']}) >= 2)
    if any(c for _, c in case['nums']): ctx.label('non-zero clock ids')
    if any(n >= 2**53 for n, _ in case['nums']): ctx.label('beyond float precision')


def instants(case, ctx):
    prev = None
    tz = timezone.utc if case['tz'] is None else ZoneInfo(case['tz'])
    if case['offset'] is not None:
        tz = timezone(timedelta(minutes=case['offset']))
    os.environ['TZ'] = case['local']
    time.tzset()
    def restore():
        os.environ['TZ'] = 'UTC'
        time.tzset()
    ctx.cleanup(restore)
    for us in sorted(case['us']):
        instant = EPOCH + timedelta(microseconds=us)
        tid = util.datetime_to_tid(instant.astimezone(tz), clock_id=case['clock'])
        wellformed(tid)
        eq(util.tid_to_int(tid), us, f'microseconds in TID of {instant.astimezone(tz)}')
        eq(tid, util.int_to_tid(us, clock_id=case['clock']), f'TID of {instant.astimezone(tz)} with clock id {case["clock"]}')
        eq(util.datetime_to_tid(instant.astimezone(tz))[-2:], util.int_to_tid(us)[-2:], "this runtime's clock id")
        back = util.tid_to_datetime(tid)
        eq(back, instant, 'instant round trip')
        check(back.utcoffset() is not None, 'tid_to_datetime returned a naive datetime')
        # naive datetimes are local time
        local = instant.astimezone()
        eq(util.tid_to_datetime(util.datetime_to_tid(local.replace(tzinfo=None, fold=local.fold))),
           instant, f'naive local time {local} in {case["local"]}')
        if prev is not None and prev[0] < us:
            check(prev[1] < tid, 'TID order of instants')
        prev = (us, tid)
    ctx.nontrivial(len(set(case['us'])) >= 2)
    if case['local'] != 'UTC': ctx.label('local zone not UTC')
    if case['tz']: ctx.label('zone with DST')


def malformed(case, ctx):
    kind, s = case['kind'], case['s']
    tid = util.int_to_tid(case['n'], clock_id=0)
    if kind == 'length':
        bad = s if len(s) != 13 else s + '2'
    elif kind == 'char':
        i = case['i'] % 11
        bad = tid[:i] + case['c'] + tid[i + 1:]
    elif kind == 'type':
        bad = [None, 5, [tid], 2.5][case['i'] % 4]
    for fn in util.tid_to_int, util.tid_to_datetime:
        raises((ValueError,), lambda: fn(bad), f'{fn.__name__}({bad!r})')
    ctx.nontrivial()
    ctx.label(kind)


def clock(case, ctx):
    """next_tid under arbitrary clock readings."""
    reads = iter(case['reads'])
    last = [0]
    def time_ns():
        last[0] = next(reads, last[0])
        return last[0]
    patch_clock(ctx, time_ns)
    prev = ''
    for _ in case['reads']:
        before = last[0]
        tid = util.next_tid()
        wellformed(tid)
        check(tid > prev, 'next_tid went from %s to %s with clock %s', prev, tid, last[0])
        check(util.tid_to_int(tid) >= last[0] // 1000, 'next_tid is behind the clock')
        prev = tid
    r = case['reads']
    if any(b < a for a, b in zip(r, r[1:])): ctx.label('clock goes back')
    if any(b == a for a, b in zip(r, r[1:])): ctx.label('clock stands still')
    ctx.nontrivial(any(b <= a for a, b in zip(r, r[1:])))
    # leave the module's clock where later cases start fresh: not resettable publicly,
    # so every case only demands increase from its own start.


def threads(case, ctx):
    """Two threads in next_tid; the first is paused after a chosen number of bytecodes
    while the second runs as far as it can."""
    if case['frozen']:
        patch_clock(ctx, lambda: 1_700_000_000_000_000_000)
    got = {0: [], 1: []}
    pauses = list(case['pauses'])
    step = [0]
    resume, paused = threading.Event(), threading.Event()
    order = []

    def opcode(frame, event, arg):
        if event == 'opcode':
            step[0] += 1
            if pauses and step[0] == pauses[0]:
                pauses.pop(0)
                step[0] = 0
                paused.set()
                if not resume.wait(30):
                    raise HarnessError('never resumed')
                resume.clear()
        return opcode

    def tracer(frame, event, arg):
        if frame.f_code.co_filename == util.__file__:
            frame.f_trace_opcodes = True
            return opcode
        return None

    finished, errors = threading.Event(), []

    def first():
        sys.settrace(tracer)
        try:
            for _ in range(case['n']):
                got[0].append(util.next_tid())
        except BaseException as e:
            errors.append(e)
        finally:
            sys.settrace(None)
            finished.set()
            paused.set()

    def second(count):
        try:
            for _ in range(count):
                got[1].append(util.next_tid())
        except BaseException as e:
            errors.append(e)

    a = threading.Thread(target=first, daemon=True)
    a.start()
    helpers = []
    preempted = 0
    while not finished.is_set():
        if not paused.wait(30):
            raise HarnessError('first thread neither paused nor finished')
        if finished.is_set():
            break
        paused.clear()
        preempted += 1
        b = threading.Thread(target=second, args=(case['m'],), daemon=True)
        b.start()
        b.join(0.05)       # it may block on a lock the first one holds: then it goes on later
        if b.is_alive():
            ctx.label('second thread had to wait')
        helpers.append(b)
        resume.set()
    a.join(30)
    for b in helpers:
        b.join(30)
        if b.is_alive():
            raise Violation('next_tid blocked forever')
    for e in errors:
        raise e if isinstance(e, HarnessError) else Violation(f'next_tid failed: {e!r}')
    for g in (got[0],) if len(helpers) > 1 else got.values():
        check(all(x < y for x, y in zip(g, g[1:])), "one thread's TIDs do not increase: %s", g)
    every = got[0] + got[1]
    check(len(set(every)) == len(every), 'next_tid returned a TID twice: %s', every)
    ctx.nontrivial(preempted >= 1)


def uris(case, ctx):
    did, coll, rkey = case['did'], case['coll'], case['rkey']
    uri = util.at_uri(did, coll, rkey)
    eq(uri, f'at://{did}/{coll}/{rkey}', 'AT URI')
    eq(tuple(util.parse_at_uri(uri)), (did, coll, rkey), f'parse of {uri}')
    eq(util.parse_at_uri(f'at://{did}')[0], did, 'repo-only URI')
    eq(tuple(util.parse_at_uri(f'at://{did}/{coll}')), (did, coll, ''), 'collection URI')
    for bad in '', None, did, uri[1:], f'https://{did}/{coll}/{rkey}':
        raises((ValueError,), lambda: util.parse_at_uri(bad), f'parse_at_uri({bad!r})')
    for i in range(3):
        parts = [did, coll, rkey]
        parts[i] = ''
        raises((AssertionError, ValueError), lambda: util.at_uri(*parts), f'at_uri{tuple(parts)}')
    ctx.nontrivial()


num = st.one_of(st.integers(0, MAX), st.integers(0, 70), st.integers(2**53 - 3, 2**53 + 40),
                st.sampled_from([2**(5 * k) + d for k in range(1, 11) for d in (-1, 0, 1)]), st.just(MAX))
us = st.one_of(st.integers(0, MAX_US), st.integers(0, 100), st.integers(1_600_000_000_000_000, 1_900_000_000_000_000))
word = st.text('abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-', min_size=1, max_size=10)
ns = st.integers(0, 4)
step = st.one_of(st.integers(-5_000_000, 5_000_000), st.integers(-3000, 3000), st.just(0))


@st.composite
def readings(draw):
    t = draw(st.sampled_from([1_700_000_000_000_000_000, 1_700_000_000_000_000_999, 10**6]))
    out = []
    for d in draw(st.lists(step, min_size=2, max_size=25)):
        t = max(0, t + d)
        out.append(t)
    return out

CHECK = Check(
    'P20',
    rule='sets of integers over the whole 55-bit range with clock ids 0-1023; microsecond instants 1970-3000 in fixed and DST zones '
         'and local zones; malformed TIDs; clock readings that jump, stall and go back; a thread preempted at generated bytecodes of '
         'next_tid; DIDs, collections and keys. Non-trivial: at least two distinct values, a clock that does not advance, a real preemption, or any URI.',
    tests=[
        Test('ints', st.fixed_dictionaries({'nums': st.lists(st.tuples(num, st.one_of(st.just(0), st.integers(0, 1023))).map(list), min_size=1, max_size=12)}), ints, 3000, 200000),
        Test('instants', st.fixed_dictionaries({
            'us': st.lists(us, min_size=1, max_size=8), 'clock': st.one_of(st.none(), st.integers(0, 31)),
            'tz': st.sampled_from([None, 'America/Los_Angeles', 'Europe/Lisbon', 'Australia/Lord_Howe']),
            'offset': st.one_of(st.none(), st.integers(-12 * 60, 14 * 60)),
            'local': st.sampled_from(['UTC', 'America/New_York', 'Asia/Kolkata'])}), instants, 2000, 120000),
        Test('malformed', st.fixed_dictionaries({
            'kind': st.sampled_from(['length', 'char', 'type']), 'n': num,
            's': st.text(ALPHABET, max_size=16), 'i': st.integers(0, 10),
            'c': st.sampled_from('0189ABZ!_.~ é')}), malformed, 800, 40000),
        Test('clock', st.fixed_dictionaries({'reads': readings()}), clock, 1500, 80000),
        Test('threads', st.fixed_dictionaries({
            'frozen': st.booleans(), 'n': st.integers(1, 3), 'm': st.integers(1, 2),
            'pauses': st.lists(st.integers(1, 60), min_size=1, max_size=2)}), threads, 400, 12000),
        Test('uris', st.fixed_dictionaries({
            'did': st.one_of(st.text('abcdefghij234567', min_size=24, max_size=24).map(lambda s: 'did:plc:' + s),
                             st.lists(word, min_size=1, max_size=3).map(lambda w: 'did:web:' + '.'.join(w)),
                             st.tuples(word, st.integers(1, 65535)).map(lambda t: f'did:web:{t[0]}%3A{t[1]}')),
            'coll': st.lists(word, min_size=3, max_size=4).map('.'.join),
            'rkey': st.text('abcXYZ019.-_:~', min_size=1, max_size=20).filter(lambda s: s not in ('.', '..'))}), uris, 1500, 60000),
    ])
