"""Runs generated cases, records what they covered, shrinks and saves failures.

A check (checks/<ID>.py) defines CHECK = Check(...) with one or more Tests. A Test has
a Hypothesis strategy whose values are plain JSON data (the case) and a function
fn(case, ctx) that runs the case against the real code and an oracle, and raises
Violation when they disagree. Everything random is in the case, so a case replays
without Hypothesis.
"""
import base64, faulthandler, gc, hashlib, json, logging, os, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class HarnessError(Exception):
    """The machinery itself is at fault: never reported as a violation."""


class Stuck(Violation):
    pass


class Test:
    def __init__(self, name, strategy, fn, quick, thorough=None, explicit=()):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, quick * 20 if thorough is None else thorough
        self.explicit = list(explicit)   # fixed cases, run by shard 0 first


class Check:
    def __init__(self, id, rule, tests, level='exploration', assumptions=(), setup=None):
        self.id, self.rule, self.tests, self.level = id, rule, tests, level
        self.assumptions = list(assumptions)
        self._setup = setup

    def setup(self):
        logging.disable(logging.CRITICAL)
        if self._setup:
            self._setup()

    def test(self, name):
        return next(t for t in self.tests if t.name == name)


def known_findings(pid):
    try:
        data = json.load(open(f'{VERIF}/known_findings.json'))
    except FileNotFoundError:
        return []
    return [f for f in data['findings'] if f['property'] == pid]


class Ctx:
    """Per shard and test: counters, and what the case being run reports."""
    def __init__(self, check):
        self.check = check
        self.evaluations = 0
        self.nontrivial_hashes = set()
        self.labels = {}
        self.samples = []
        self.excluded = {}
        self._known = {f['id'] for f in known_findings(check.id)}
        self.begin(None, None)

    def begin(self, test, case):
        self.test, self.case = test, case
        self._nontrivial = False
        self._case_labels = set()
        self._cleanups = []

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def label(self, *names):
        self._case_labels.update(names)

    def cleanup(self, fn):
        self._cleanups.append(fn)

    def finding(self, fid, message):
        """The oracle recognised a listed known finding. Unlisted: a violation."""
        if fid in self._known:
            self.excluded[fid] = self.excluded.get(fid, 0) + 1
        else:
            raise Violation(message)

    def end(self):
        while self._cleanups:
            self._cleanups.pop()()
        for l in self._case_labels:
            self.labels[f'{self.test.name}:{l}'] = self.labels.get(f'{self.test.name}:{l}', 0) + 1
        self.evaluations += 1
        if self._nontrivial:
            enc = json.dumps([self.test.name, self.case], sort_keys=True).encode()
            h = hashlib.sha1(enc).hexdigest()[:16]
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                if len(self.samples) < 40 and len(enc) < 4000:
                    self.samples.append({'test': self.test.name, 'case': self.case})


class Failure:
    def __init__(self, message, tb):
        self.message, self.tb = message, tb


CPU_LIMIT = 120   # seconds of CPU in one case: far above any real case


def _alarm(signum, frame):
    raise Stuck(f'case used over {CPU_LIMIT}s of CPU without finishing')


def _harness_fault(e):
    if isinstance(e, (HarnessError, ImportError, MemoryError, NotImplementedError)):
        tb = traceback.extract_tb(e.__traceback__)
        # this can also come from arroba, or from a library that arroba misuses: judge those as violations
        if isinstance(e, NotImplementedError) and tb and not tb[-1].filename.startswith(VERIF):
            return False
        return True
    if isinstance(e, AttributeError):
        import types
        obj = getattr(e, 'obj', None)
        tb = traceback.extract_tb(e.__traceback__)
        # an internal the harness uses is gone (renamed): not for us to judge
        if isinstance(obj, (types.ModuleType, type)) and tb and tb[-1].filename.startswith(VERIF):
            return True
    return False


def run_case(check, test, case, ctx):
    """Returns None or a Failure. Raises on harness faults."""
    ctx.begin(test, case)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        try:
            test.fn(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            ctx.end()
        return None
    except (KeyboardInterrupt, SystemExit, GeneratorExit):
        raise
    except BaseException as e:
        if _harness_fault(e):
            raise HarnessError(f'{e!r}\n{traceback.format_exc()}') from e
        msg = str(e) if isinstance(e, Violation) else f'unexpected {type(e).__name__}: {e}'
        return Failure(msg[:3000], traceback.format_exc())


class _Fail(Exception):
    pass


def worker(check, tier, shard, n, out):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    from hypothesis.errors import Flaky
    faulthandler.enable()
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', '120'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = Ctx(check)
    res = {'shard': shard, 'violation': None, 'errors': [], 'tests': {}, 'budget_exhausted': 0}

    try:
        check.setup()
        tests = check.tests
        only = os.environ.get('VERIF_ONLY')
        if only:
            tests = [t for t in tests if t.name in only.split(',')]
        for ti, test in enumerate(tests):
            total = test.quick if tier == 'quick' else test.thorough
            scale = float(os.environ.get('VERIF_SCALE') or 1)
            total = max(n, int(total * scale)) if total else 0
            count = total // n + (1 if shard < total % n else 0)
            # this test's share of the time budget: what is left, evenly
            deadline = time.time() + max(5.0, (t0 + budget - time.time()) / (len(tests) - ti))
            before = ctx.evaluations
            v = _drive(check, test, ctx, count, seed * 1000 + shard, deadline, shard == 0, res)
            res['tests'][test.name] = ctx.evaluations - before
            if v:
                res['violation'] = v
                break
    except HarnessError as e:
        res['errors'].append(str(e))
    except BaseException:
        res['errors'].append(traceback.format_exc())
    res.update(evaluations=ctx.evaluations, nontrivial=sorted(ctx.nontrivial_hashes),
               labels=ctx.labels, samples=ctx.samples, excluded=ctx.excluded)
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)
    return 0


def _drive(check, test, ctx, count, seed, deadline, explicit, res):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    state = {'best': None, 'fail': None, 'shrink_until': None, 'harness': None}

    def one(case):
        if state['harness']:
            return
        now = time.time()
        if state['best'] is None and now > deadline:
            res['budget_exhausted'] += 1
            return
        key = json.dumps(case, sort_keys=True)
        if state['shrink_until'] and now > state['shrink_until']:
            if key == state['best']:
                raise _Fail()
            return
        try:
            failure = run_case(check, test, case, ctx)
        except HarnessError as e:
            state['harness'] = e
            return
        if failure:
            if state['shrink_until'] is None:
                state['shrink_until'] = now + 45
            if state['best'] is None or len(key) <= len(state['best']):
                state['best'], state['fail'] = key, failure
            raise _Fail()

    if explicit:
        for case in test.explicit:
            try:
                one(case)
            except _Fail:
                break
    if not state['best'] and count:
        @hypothesis.seed(seed)
        @settings(max_examples=max(1, count), database=None, deadline=None,
                  print_blob=False, report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck))
        @hypothesis.given(test.strategy)
        def prop(case):
            one(case)
        try:
            prop()
        except _Fail:
            pass
        except BaseException as e:
            if state['best'] is None:
                raise
    if state['harness'] and not state['best']:
        raise state['harness']
    if state['best'] is None:
        return None
    # confirm on the plain case
    case = json.loads(state['best'])
    failure = confirm(check, test, case, ctx)
    if not failure:
        res['errors'].append(f'{test.name}: failure did not reproduce:\n'
                             f'{state["fail"].message}\n{state["fail"].tb}\n{state["best"][:3000]}')
        return None
    return {'test': test.name, 'case': case, 'message': failure.message, 'traceback': failure.tb}


def confirm(check, test, case, ctx):
    """Runs a failing case again, until it fails.

    Once is nearly always enough. What isn't in the case is randomness that the code
    under test draws itself, eg ECDSA nonces: those take a lot of runs.
    """
    until = time.time() + 60
    for attempt in range(5000):
        if failure := run_case(check, test, case, ctx):
            return failure
        if attempt >= 30 and time.time() > until:
            return None


# --- helpers used by checks

def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what):
    if got != want:
        raise Violation(f'{what}: got {_short(got)}, want {_short(want)}')


def _short(v):
    s = repr(v)
    return s if len(s) < 600 else s[:300] + ' … ' + s[-300:]


def raises(excs, fn, what):
    """fn must raise one of excs. Returns the exception."""
    try:
        got = fn()
    except excs as e:
        return e
    raise Violation(f'{what}: expected {excs}, got result {_short(got)}')
