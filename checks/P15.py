"""A missing sequence number delays but never blocks or reorders."""
import dag_cbor
from arroba import firehose
from hypothesis import strategies as st
from vlib import sched
from vlib.core import Check, Test, check, eq, Violation
from vlib.hose import Hose, NSID

EPS = 1e-6


def run(case, ctx):
    conf = case['conf']
    h = Hose(ctx, case['storage'], {**conf, 'rollback': 500, 'preload': 3}, case['schedule'], case['lines'])
    sc, delay, batch = h.sc, conf['delay'], conf['batch']
    h.slow = conf['slow'] * delay
    SLACK = .02 + h.slow * 2 * (len(case['ops']) * 3 + 8)
    allocs = []         # (step, time, newest number)
    idle_notices = []   # (time, step) of notifications the collector was waiting for
    lost = {}           # seq -> (time, step)
    written = {}        # seq -> (time, step) when it was surely stored
    failed = [False]
    stats = dict(held=0, gave_up=0, late=0, lost=0, window=0)

    orig = h.seqs.allocate
    def allocate(nsid):
        n = orig(nsid)
        allocs.append((sc.steps, sc.now, h.seqs.last(NSID)))
        return n
    h.seqs.allocate = allocate

    def notify():
        with sc.atomic():
            t = h.collector and h.collector.task
            if t and t.state == 'waiting' and t.deadline is not None and t.deadline > sc.now + batch + .01 and not h.reading:
                idle_notices.append((sc.now, sc.steps))
        firehose.send_events()

    def lose(seq):
        firehose.mark_seq_lost(seq)
        lost[seq] = (sc.now, sc.steps)

    def callback(data=None, lost_seq=None):
        # as documented
        if data:
            seq = data['seq'] if isinstance(data, dict) else data.commit.seq
            written.setdefault(seq, (sc.now, sc.steps))
            notify()
        elif lost_seq:
            lose(lost_seq)

    def write(fn):
        seq = fn()
        written.setdefault(seq, (sc.now, sc.steps))
        return seq

    witness = []
    window = conf['window']
    if case.get('unknown'):
        # the counter can't be read once the collector runs, so nothing is known to be far behind
        window = float('inf')
        last = h.seqs.last
        h.seqs.last = lambda nsid: None if started and sc.current() is h.collector.task else last(nsid)

    def driver():
        h.start()
        started.append(sc.now)
        witness.append(h.subscribe(None))
        while witness[0].connected is None:
            sc.sleep(.001)
            h.look()
        allocs.append((sc.steps, sc.now, h.seqs.last(NSID)))
        if case['wired']:
            for r in h.handles.values():
                r.callback = callback
        for op in case['ops']:
            kind = op[0]
            if kind == 'event':
                write(lambda: h.event(0, op[1]))
            elif kind == 'commit':
                write(lambda: h.commit(0, [[op[1], 1]]))
            elif kind == 'reject' and case['wired']:
                n = h.seqs.last(NSID)
                try:
                    h.storage.commit(h.handles[0], h.w.to_writes([('delete', 'app.none.x/y', None)]))
                except ValueError:
                    pass
                check(n + 1 in lost, 'the sequence number of a rejected commit was not reported lost')
            elif kind == 'reserve':
                for _ in range(op[1] % 3 + 1):
                    h.reserve()
            elif kind in ('late', 'lose', 'forget') and h.reserved:
                seq = h.reserved.pop(op[1] % len(h.reserved))
                if kind == 'late':
                    stats['late'] += 1
                    write(lambda: h.event(0, op[1], seq) if op[1] % 2 else h.commit(0, [[op[1], 2]], seq))
                elif kind == 'lose':
                    stats['lost'] += 1
                    lose(seq)
            elif kind == 'sleep':
                sc.sleep(op[1] if op[1] < .9 else (op[1] - 1) * delay + .11)
            elif kind == 'fail':
                h.failing = op[1] % 3
                failed[0] = True
            if op[-1] == 1:
                notify()
            sc.point()
        h.failing = None
        for _ in range(len(case['ops']) * 2 + 6):
            sc.sleep(delay + batch + 1)

    started = []
    base = h.seqs.last(NSID)
    h.run(driver)
    s = witness[0]
    check(s.error is None and not s.ended, 'the live subscriber was dropped: %r', s.error)
    got, content = [], {}
    for t, step, hd, p in s.items:
        h.judge_frame(hd, p, content)
        got.append((dag_cbor.decode(p)['seq'], t, step))
    seqs = [g[0] for g in got]
    check(all(a < b for a, b in zip([base] + seqs, seqs)), 'events came in the order %s', seqs)

    def newest(step):
        return max((n for st_, t, n in allocs if st_ <= step), default=base)

    prev, t_prev = base, started[0]
    for c, t, step in got:
        missing = [x for x in range(prev + 1, c)]
        open_ = [x for x in missing if not (x in lost and lost[x][1] <= step)]
        w = written[c][0]
        if open_:
            late = t - t_prev >= delay - EPS
            beyond = newest(step) - c > window
            check(late or beyond, '%s was delivered at +%.3f although %s, which may still arrive, were missing: last event +%.3f, newest number %s',
                  c, t - started[0], open_, t_prev - started[0], newest(step))
            stats['gave_up'] += late
            stats['window'] += beyond and not late
        # how late it may be
        times = [max(t_prev + delay, w)]
        if all(x in lost for x in missing):
            times.append(max([t_prev, w] + [lost[x][0] for x in missing]))
        over = min((at for st_, at, n in allocs if n - c > window), default=None)
        if over is not None:
            times.append(max(t_prev, w, over))
        due = min(times)
        if not failed[0]:
            check(t <= due + delay + batch + SLACK, '%s was delivered at +%.3f, but could have been at +%.3f', c, t - started[0], due - started[0])
            # (at the exact end of the delay either is fine)
            sure = [x for x in times[1:]] + [times[0] + EPS]
            for n, nstep in idle_notices:
                if min(sure) <= n and t > n + SLACK and (written[c][1] < nstep) and all(
                        lost[x][1] < nstep for x in missing if x in lost and min(sure) != sure[-1]):
                    # every reason must have been there before the notification
                    if min(sure) == n and step_order_unclear(c, n, nstep, allocs, t_prev):
                        continue
                    raise Violation(f'{c} was delivered at +{t - started[0]:.3f}, although the collector was told at '
                                    f'+{n - started[0]:.3f}, when it could be delivered')
        if t - w > SLACK:
            stats['held'] += 1
        prev, t_prev = c, t
        began = h.read_at[c]
        for x in missing:
            if x in written:
                check(written[x][1] >= began, '%s was delivered, but not %s, which was stored before the collector read', c, x)
    for seq, (w, _) in written.items():
        if seq > base and seq not in seqs:
            passed = [t for c, t, _ in got if c > seq]
            check(passed, 'event %s was never delivered', seq)
            check(h.slow or w >= passed[0] - EPS, 'event %s was skipped, although it was stored at +%.3f, before any higher one was delivered at +%.3f',
                  seq, w - started[0], passed[0] - started[0])
    ctx.nontrivial(len(got) >= 3 and (stats['held'] or stats['gave_up'] or stats['lost']))
    ctx.label(case['storage'], *(k for k, v in stats.items() if v), *(['failures'] if failed[0] else []))


def step_order_unclear(c, n, nstep, allocs, t_prev):
    """Whether the previous event, or the number that moved the window, came at the same instant as the notification."""
    return t_prev >= n or any(at == n and st_ >= nstep for st_, at, _ in allocs)


flag = st.integers(0, 1)
num = st.integers(0, 8)
op = st.one_of(
    st.tuples(st.just('event'), st.integers(0, 4), flag), st.tuples(st.just('event'), st.integers(0, 4), flag),
    st.tuples(st.just('commit'), num, flag), st.tuples(st.just('reserve'), num, flag), st.tuples(st.just('reserve'), num, flag),
    st.tuples(st.just('late'), num, flag), st.tuples(st.just('late'), num, flag), st.tuples(st.just('lose'), num, flag),
    st.tuples(st.sampled_from(['forget', 'reject']), num, flag),
    st.tuples(st.just('sleep'), st.sampled_from([.01, .05, .4, 1.3, 1.9, 2, 3]), flag),
    st.tuples(st.just('sleep'), st.sampled_from([.01, .05, .4, 1.3, 1.9, 2, 3]), flag)).map(list)
write = st.tuples(st.sampled_from(['event', 'commit']), num, flag).map(list)
pause = st.tuples(st.just('sleep'), st.sampled_from([.01, .4, 1.3, 1.5, 1.9]), flag).map(list)
fate = st.tuples(st.sampled_from(['lose', 'lose', 'late', 'forget']), num, flag).map(list)
# a gap, events after it, and what becomes of the gap
segment = st.tuples(st.tuples(st.just('reserve'), num, st.just(0)).map(list), st.lists(fate, max_size=2), st.lists(write, min_size=1, max_size=3),
                    st.lists(pause, max_size=2), st.lists(fate, max_size=3), st.lists(st.one_of(pause, write), max_size=2)).map(
    lambda t: [t[0]] + [o for part in t[1:] for o in part])
segments = st.lists(segment, min_size=1, max_size=4).map(lambda ss: [o for s in ss for o in s])
fail = st.tuples(st.just('fail'), st.integers(0, 3), flag).map(list)
schedule = st.lists(st.tuples(st.one_of(st.integers(1, 4), st.integers(1, 30)), st.integers(0, 2)).map(list), max_size=10)
conf = st.fixed_dictionaries({'delay': st.sampled_from([.5, 1, 5, 30, 120]), 'window': st.sampled_from([0, 1, 2, 3, 5, 300, 300]),
                              'batch': st.sampled_from([0, 0, 0, .3]), 'slow': st.sampled_from([0, 0, 0, .01, .3]), 'cycle': st.booleans()})

CHECK = Check('P15', 'at least 3 events delivered, and one of them was held back, or after a number that was given up or lost', [
    Test('gaps', st.fixed_dictionaries({
        'storage': st.sampled_from(['mem', 'mem', 'mem', 'ds']), 'conf': conf, 'wired': st.booleans(), 'unknown': st.sampled_from([False, False, False, True]),
        'lines': st.just(False), 'schedule': st.one_of(st.just([]), schedule), 'ops': st.one_of(
            st.lists(op, min_size=3, max_size=25), segments, segments, st.lists(st.one_of(op, op, op, fail), min_size=3, max_size=25))}), run, 1600),
    ])
