"""Firehose subscribers get every event once, in order."""
import dag_cbor
from hypothesis import strategies as st
from vlib.core import Check, Test, check, eq, Violation
from vlib.hose import Hose, NSID


def run(case, ctx):
    conf = case['conf']
    h = Hose(ctx, case['storage'], conf, case['schedule'], case['lines'], case['repos'])
    stats = dict(held=0, restarts=0, fails=0, late=0, future=0, outdated=0, dropped=0)

    def driver():
        started = False
        for op in case['ops']:
            h.sc.point()
            h.look()
            kind = op[0]
            if kind == 'event':
                h.event(op[1], op[2])
            elif kind == 'commit':
                h.commit(op[1], op[2])
            elif kind == 'reserve':
                h.reserve()
            elif kind in ('late', 'lose') and h.reserved:
                seq = h.reserved.pop(op[1] % len(h.reserved))
                if kind == 'late':
                    stats['late'] += 1
                    h.event(op[1], op[1], seq) if op[1] % 2 else h.commit(op[1], [[op[1], 1]], seq)
                else:
                    h.lose(seq)
            elif kind == 'start':
                h.settle(conf['preload'])
                stats['held'] += bool(h.reserved)
                if started:
                    stats['restarts'] += 1
                    h.restart(op[2] // 2)
                else:
                    h.start(op[2] // 2)
                    started = True
            elif kind == 'sub':
                last = h.seqs.last(NSID)
                c = op[1]
                cursor = None if c is None else max(0, c[1] if c[0] == 'abs' else last + c[1])
                h.subscribe(cursor, op[2], {n: s for n, s in op[3]})
            elif kind == 'fail' and started:
                h.failing = op[1]
                stats['fails'] += 1
            elif kind == 'sleep':
                h.sc.sleep(op[1])
            if case['notify'] == 'always' or kind == 'notify' or (case['notify'] == 'some' and op[-1] == 1):
                h.notify()
        if not started:
            h.settle(conf['preload'])
            h.start()
        h.sc.sleep(.01)
        while h.reserved:
            h.lose(h.reserved.pop())
        h.failing = None
        h.look()
        for _ in range(3):
            h.notify()
            h.sc.sleep(h.delay + 30)

    h.run(driver)
    alls = sorted(h.events)
    last = h.seqs.last(NSID)
    content = {}
    W = conf['rollback']
    seen_by_step = []
    for s in h.subs:
        what = f'subscriber with cursor {s.cursor}'
        frames = [(hd, p) for _, _, hd, p in s.items]
        if s.left and not frames:
            continue        # its process was replaced before it got anything
        hi = s.hi if s.hi is not None else last
        start_lo = start_hi = s.cursor
        if frames and frames[0][0].get('op') == -1:
            stats['future'] += 1
            check(s.cursor is not None and s.cursor > s.lo, '%s got %s although last is %s', what, frames[0], s.lo)
            eq(dag_cbor.decode(frames[0][1])['error'], 'FutureCursor', 'error')
            check(len(frames) == 1 and (s.ended or s.left), '%s got more after an error', what)
            continue
        if s.cursor is not None:
            check(s.cursor <= hi, '%s is in the future of %s, but got no FutureCursor', what, hi)
            if frames and frames[0][0].get('t') == '#info':
                stats['outdated'] += 1
                eq((frames[0][0], dag_cbor.decode(frames[0][1]).get('name')), ({'op': 1, 't': '#info'}, 'OutdatedCursor'), 'info')
                check(s.cursor < hi - W, '%s is not older than the window of %s before %s', what, W, hi)
                start_lo, start_hi = max(s.lo - W, 0), max(hi - W, 0)
                frames = frames[1:]
            else:
                check(not (s.cursor < max(s.lo - W, 0)) or not frames, '%s is older than the window, but got no notice', what)
        got = []
        for hd, p in frames:
            check(hd.get('op') == 1 and hd.get('t') != '#info', '%s got %s in mid-stream', what, hd)
            h.judge_frame(hd, p, content)
            seq = dag_cbor.decode(p)['seq']
            if got:
                check(seq > got[-1], '%s got %s after %s', what, seq, got[-1])
            got.append(seq)
        finished = s.error is not None
        check(not s.ended, '%s: the stream ended', what)
        # where it starts
        if s.cursor is None:
            first = got[0] if got else None
            due = h.order[s.connected:] if s.connected is not None else []
            live = not s.left and not finished
            if due and live:
                check(first is not None and first <= min(due), '%s got %s, but %s were written once it was connected', what, got, due)
            if first is not None:
                expect = [x for x in alls if x >= first]
            else:
                expect = []
            before = {x for o in h.subs for (t, step, hd, p) in o.items if step < s.born and hd.get('t') not in (None, '#info')
                      for x in [dag_cbor.decode(p)['seq']]}
            check(not before & set(got), '%s got %s, which were emitted before it connected', what, before & set(got))
        else:
            lo_first = min((x for x in alls if x >= start_lo), default=None)
            hi_first = min((x for x in alls if x >= start_hi), default=None)
            if got:
                check(lo_first <= got[0] and (hi_first is None or got[0] <= hi_first), '%s starts at %s, want %s', what, got[0],
                      lo_first if lo_first == hi_first else (lo_first, hi_first))
                expect = [x for x in alls if x >= got[0]]
            else:
                expect = [x for x in alls if x >= start_hi]
        if s.error is not None:
            # it was too slow
            stats['dropped'] += 1
            behind = [x for x in alls if x > (got[-1] if got else (start_lo or 0) - 1)]
            check(len(behind) >= W, '%s was dropped with %r, only %s events behind', what, s.error, len(behind))
        if s.left or finished:
            eq(got, expect[:len(got)], f'{what}: beginning of what it got')
        else:
            eq(got, expect, f'{what}: what it got')
    served = [s for s in h.subs if len(s.seqs) >= 2]
    ctx.nontrivial(len(served) >= 2 and len(alls) > 7)
    ctx.label(case['storage'], *(k for k, v in stats.items() if v))


cursor = st.one_of(st.none(), st.tuples(st.just('abs'), st.sampled_from([0, 0, 1, 2, 5])).map(list),
                   st.tuples(st.just('last'), st.integers(-12, 2)).map(list))
sub = st.tuples(st.just('sub'), cursor, st.one_of(st.none(), st.none(), st.none(), st.integers(1, 6)),
                st.lists(st.tuples(st.sampled_from([1, 1, 1, 2, 2, 3, 5, 8]), st.sampled_from([.5, 3, 20])).map(list), max_size=2), st.integers(0, 1))
write = st.tuples(st.integers(0, 12), st.one_of(st.integers(0, 3), st.none())).map(list)
flag = st.integers(0, 1)
ev = st.tuples(st.just('event'), st.integers(0, 1), st.integers(0, 4), flag)
co = st.tuples(st.just('commit'), st.integers(0, 1), st.lists(write, max_size=3, unique_by=lambda w: w[0]), flag)
op = st.one_of(ev, ev, ev, co, sub, sub, sub,
               st.tuples(st.just('reserve'), flag), st.tuples(st.sampled_from(['late', 'lose']), st.integers(0, 5), flag),
               st.tuples(st.just('notify')), st.tuples(st.just('sleep'), st.sampled_from([.01, .5, 4]), flag),
               st.tuples(st.sampled_from(['fail', 'start', 'event']), st.integers(0, 2), st.integers(0, 4), flag)).map(list)
pre = st.lists(st.one_of(ev, ev, co).map(list), max_size=12)
schedule = st.lists(st.tuples(st.one_of(st.integers(1, 3), st.integers(1, 9), st.integers(1, 80), st.integers(50, 500)), st.integers(0, 4)).map(list), max_size=20)
conf = st.fixed_dictionaries({'rollback': st.sampled_from([1, 2, 3, 5, 8, 50]), 'preload': st.sampled_from([0, 1, 2, 3, 5, 50]),
                              'batch': st.sampled_from([0, 0, .5]), 'query_batch': st.sampled_from([None, 2]), 'cycle': st.booleans()})

CHECK = Check('P13', 'at least 8 events and two subscribers that got at least two events each', [
    Test('schedules', st.builds(lambda pre, held, starters, first, ops, **kw: {**kw, 'ops': [*pre, *[['reserve', 0]] * held, ['start', 0, starters, 0], *first, *ops]}, pre=pre, held=st.sampled_from([0, 0, 0, 1, 2]), starters=st.sampled_from([0, 0, 2, 4]),
        first=st.lists(st.one_of(ev, sub).map(list), min_size=2, max_size=4), ops=st.lists(op, min_size=2, max_size=16), repos=st.sampled_from([1, 1, 2]),
        storage=st.sampled_from(['mem', 'mem', 'mem', 'ds']), conf=conf, schedule=schedule,
        lines=st.booleans(), notify=st.sampled_from(['always', 'some', 'never'])), run, 1600),
    ])
