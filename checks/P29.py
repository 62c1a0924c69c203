"""Configuration variables have the documented effect.

A process reads its configuration when it starts, so every case runs in a fresh process
that only sees the case's variables. It is forked before arroba is imported.
"""
import json, os, select, signal, sys, time
from hypothesis import strategies as st
from vlib import core
from vlib.core import Check, Test, check, eq, HarnessError, Stuck, Violation

# what README.md says
DEFAULTS = {'ROLLBACK_WINDOW': 50_000, 'PRELOAD_WINDOW': 4000, 'SUBSCRIBE_REPOS_BATCH_DELAY': 0, 'SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW': 300,
            'SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY': 120, 'BLOB_MAX_BYTES': 100_000_000, 'BLOB_REFETCH_DAYS': 7, 'BLOB_REFETCH_TYPES': 'image',
            'MEMCACHE_SEQUENCE_BATCH': 1000, 'MEMCACHE_SEQUENCE_BUFFER': 100}
OTHERS = ['SUPPORTED_COLLECTIONS', 'DISABLE_GETREPO', 'GETREPO_TOKEN', 'REPO_TOKEN', 'PLC_HOST', 'PDS_HOST', 'REPO_PASSWORD', 'BGS_HOST', 'RELAY_HOST', 'APPVIEW_HOST']
EPS = 1e-6


class Env:
    """The configuration of a case."""
    def __init__(self, env):
        self.env = env

    def num(self, name):
        v = self.env.get(name)
        return DEFAULTS[name] if v is None else float(v) if '.' in v or name in ('BLOB_REFETCH_DAYS', ) else int(v)


# --- probes, run in the new process

def hose(ctx, env, storage):
    from vlib.hose import Hose
    return Hose(ctx, storage, {'asis': True}, [], False)


def gap(env, case, ctx):
    """A number that never comes, with an event after it and `beyond` more numbers after that."""
    from vlib.hose import NSID
    window, delay, batch = (env.num('SUBSCRIBE_REPOS_' + n) for n in ('SKIPPED_SEQ_WINDOW', 'SKIPPED_SEQ_DELAY', 'BATCH_DELAY'))
    far = max(0, window + case['beyond'])
    h = hose(ctx, env, case['storage'])
    sc = h.sc
    got = []

    def poke():
        # it may not hear of it while it waits between reads
        until = sc.now + batch + .02
        while sc.now <= until:
            firehose.send_events()
            sc.sleep(.01)

    def driver():
        h.start()
        s = h.subscribe(None)
        while s.connected is None:
            sc.sleep(.001)
            h.look()
        h.event(0, 0)
        first = h.seqs.last(NSID)
        poke()
        eq(s.seqs, [first], f'events after one that can be delivered at once')
        since = s.items[-1][0]
        h.reserve()
        h.event(0, 1)
        c = h.seqs.last(NSID)
        h.seqs.next[NSID] += far
        poke()
        if far > window:
            eq(s.seqs, [first, c], f'events with a missing number {far} behind the newest, window {window}')
            got.append('beyond')
            return
        # it's waited for
        while sc.now < since + delay - .1:
            eq(s.seqs, [first], f'events {sc.now - since:.2f} after the last one, with a missing number {far} behind the newest, window {window}, delay {delay}')
            sc.sleep(max(min(delay / 3, since + delay - .1 - sc.now), .001))
            firehose.send_events()
            sc.sleep(.001)
        while sc.now <= since + delay + .01:
            sc.sleep(.02)
        poke()
        eq(s.seqs, [first, c], f'events {sc.now - since:.2f} after the last one, delay {delay}')
        got.append('waited')
    from arroba import firehose
    h.run(driver)
    ctx.label('gap ' + got[0])


def reads(env, case, ctx):
    """How often the collector reads new events, and that it's prompt otherwise."""
    from arroba import firehose
    batch, delay = env.num('SUBSCRIBE_REPOS_BATCH_DELAY'), env.num('SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY')
    h = hose(ctx, env, case['storage'])
    sc = h.sc
    times, orig = [], h.storage.read_events_by_seq

    def reading(*args, **kwargs):
        if h.collector and sc.current() is h.collector.task:
            times.append(sc.now)
        yield from orig(*args, **kwargs)
    h.storage.read_events_by_seq = reading

    def driver():
        h.start()
        s = h.subscribe(None)
        while s.connected is None:
            sc.sleep(.001)
            h.look()
        n = 0
        for pause in case['pauses']:
            sc.sleep(pause)
            h.event(0, n)
            n += 1
            idle = not times or sc.now > times[-1] + batch + .001
            firehose.send_events()
            sc.sleep(.001)
            if idle:
                eq(len(s.items), n, f'events delivered, when the collector was idle, batch delay {batch}')
        for _ in range(3):
            sc.sleep(batch + .01)
            firehose.send_events()
        sc.sleep(batch + .01)
        eq(len(s.items), n, f'events delivered in the end, batch delay {batch}')
    h.run(driver)
    for a, b in zip(times, times[1:]):
        check(b - a >= batch - EPS, 'new events were read %ss after the last read, batch delay %s', b - a, batch)
    ctx.label('reads, some delay' if batch else 'reads, no delay')


def window(env, case, ctx):
    """What is preloaded, and which cursors are outdated."""
    import dag_cbor
    from vlib.hose import NSID
    from arroba import firehose
    rollback, preload = env.num('ROLLBACK_WINDOW'), env.num('PRELOAD_WINDOW')
    h = hose(ctx, env, case['storage'])
    sc = h.sc
    base = h.seqs.last(NSID)
    # events at numbers around the two limits, seen from the newest
    gone = sorted({d for d in [preload + n for n in (-2, -1, 0, 1)] + [rollback + n for n in (-2, -1, 0, 1, 2)] + case['at'] if d >= 0}, reverse=True)
    newest = base + max(gone) + 1 + case['more']
    preloaded, orig = [], h.storage.read_events_by_seq

    def reading(*args, **kwargs):
        for e in orig(*args, **kwargs):
            if not firehose.started.is_set() and h.loading:
                preloaded.append(e['seq'] if isinstance(e, dict) else e.commit.seq)
            yield e
    h.storage.read_events_by_seq = reading
    outdated = []

    def driver():
        for d in gone:
            h.seqs.next[NSID] = newest - d - 1
            h.event(0, d)
        h.seqs.next[NSID] = newest
        h.loading = True
        h.start()
        h.loading = False
        want = [s for s in sorted(h.events) if s > newest - preload]
        near = {newest - preload + n for n in (0, 1)}
        eq(sorted(set(preloaded) - near), [s for s in want if s not in near], f'events loaded at the start, up to {newest}, preload window {preload}')
        subs = []
        for d in case['cursors']:
            cursor = newest - rollback + d
            if 0 <= cursor <= newest:
                subs.append((cursor, h.subscribe(cursor)))
        sc.sleep(1)
        for cursor, s in subs:
            check(s.error is None and not s.ended, 'the subscriber at %s was dropped: %r', cursor, s.error)
            info = bool(s.items) and s.items[0][2].get('t') == '#info'
            what = f'cursor {cursor}, newest {newest}, rollback window {rollback}'
            if cursor < newest - rollback:
                check(info and dag_cbor.decode(s.items[0][3]).get('name') == 'OutdatedCursor', '%s was not told that it is outdated', what)
            elif cursor > newest - rollback:
                check(not info, '%s was told that it is outdated', what)
            outdated.append(info)
            lo = max(cursor, newest - rollback)
            want = [e for e in sorted(h.events) if e >= lo]
            got = s.seqs
            eq([e for e in got if e not in (lo, lo + 1)], [e for e in want if e not in (lo, lo + 1)], f'events for {what}')
    h.loading = False
    h.run(driver)
    ctx.label('window' + (', outdated' if True in outdated else '') + (', current' if False in outdated else ''))


def blobs(env, case, ctx):
    from datetime import timedelta
    from checks import P25
    P25.MAX_BYTES, P25.AGE = env.num('BLOB_MAX_BYTES'), timedelta(days=env.num('BLOB_REFETCH_DAYS'))
    types = env.env.get('BLOB_REFETCH_TYPES') or DEFAULTS['BLOB_REFETCH_TYPES']
    if case['edge']:
        # content that is exactly at the limit, and one byte over, but doesn't say so
        case = {**case, 'ops': case['ops'] + [['get', 0, 0, None, None]]}
        orig = P25.content
        P25.content = lambda spec: (b'y' * min(P25.MAX_BYTES + spec[1], 2000), None, None, None) if spec[0] == 'edge' else orig(spec)
        ctx.cleanup(lambda: setattr(P25, 'content', orig))
    age = env.num('BLOB_REFETCH_DAYS')
    ops = [['wait', age * op[1], op[2]] if op[0] == 'wait' else op for op in case['ops']]
    P25.history({**case, 'ops': ops, 'types': types.split(','), 'asis': True}, ctx)
    ctx.label('blobs')


def seqs(env, case, ctx):
    from arroba import datastore_storage
    from vlib import fakeds, sched
    from vlib.memc import Memcache
    batch, buffer = env.num('MEMCACHE_SEQUENCE_BATCH'), env.num('MEMCACHE_SEQUENCE_BUFFER')
    nsid = 'com.atproto.sync.subscribeRepos'
    fakeds.fresh()
    client = fakeds.client()
    ctx.cleanup(fakeds.reset_context)
    mc = Memcache()
    s = sched.own_process(datastore_storage.MemcacheSequences)(memcache=mc, ndb_client=client)
    total = min(int(batch * case['times']) + 3, 3000)
    last, stored, batches = 0, None, 0
    for n in range(total):
        with client.context():
            seq = s.allocate(nsid)
        check(seq > last, 'allocated %s after %s', seq, last)
        last = seq
        with client.context(cache_policy=lambda key: False):
            now = datastore_storage.AtpSequence.get_by_id(nsid).next
        check(buffer - 1 <= now - seq <= batch + 1, 'the stored number is %s ahead of the last allocated one, batch %s, buffer %s', now - seq, batch, buffer)
        batches += now != stored
        stored = now
    check(batches <= total / max(1, batch - buffer) + 2, '%s numbers took %s batches of %s with a buffer of %s', total, batches, batch, buffer)
    ctx.label('seqs')


def supported(env):
    return [n.strip() for n in env.env.get('SUPPORTED_COLLECTIONS', '').split(',') if n.strip()]


def collections(env, case, ctx):
    from vlib import imports, web
    from vlib.world import World
    web.setup(ctx)
    names = supported(env)
    w = World(case['storage'], ctx, 'request')
    docs = imports.Docs(ctx)
    w.create(0)
    m = w.repos[0]
    used = [c for n, c in enumerate(COLLS) if case['used'] >> n & 1]
    for c in used:
        w.commit(0, [('create', f'{c}/old', {'n': 1})])
    docs.put(m.did, m.key, m.handle)
    r = web.get(w, 'com.atproto.repo.describeRepo', repo=m.did)
    check(r.status == 200, 'describeRepo: %s', r)
    eq(sorted(r.json['collections']), sorted(set(names or used)), f'collections in describeRepo, supported {names}, used {used}')
    for c in COLLS:
        ok = not names or c in names
        what = f'of {c}, supported {names}'
        r = web.get(w, 'com.atproto.repo.listRecords', repo=m.did, collection=c)
        check(r.status == 200, 'listRecords %s: %s', what, r)
        eq([x['uri'] for x in r.json['records']], [f'at://{m.did}/{c}/old'] if c in used and ok else [], f'listRecords {what}')
        r = web.get(w, 'com.atproto.repo.getRecord', repo=m.did, collection=c, rkey='old')
        eq(r.status == 200, ok and c in used, f'getRecord {what} is served: {r}')
        for method, rkey in ('createRecord', 'new'), ('putRecord', 'old'), ('deleteRecord', 'new'):
            rec = {'record': {'$type': c, 'n': 2}} if method != 'deleteRecord' else {}
            r = web.post(w, f'com.atproto.repo.{method}', {'repo': m.did, 'collection': c, 'rkey': rkey, **rec})
            eq(r.status == 200, ok, f'{method} {what} is served: {r}')
            if ok and method != 'deleteRecord':
                m.contents[f'{c}/{rkey}'] = rec['record']
            elif ok:
                m.contents.pop(f'{c}/{rkey}', None)
            eq(w.contents_of(w.load(0)), m.contents, f'contents after {method} {what}')
    ctx.label('collections, limited' if names else 'collections, all')


def access(env, case, ctx):
    """Tokens for writing and for exports."""
    from datetime import datetime, timedelta, timezone
    import webutil.util
    from vlib import web
    from vlib.world import World
    token, export, disabled = (env.env.get(n) for n in ('REPO_TOKEN', 'GETREPO_TOKEN', 'DISABLE_GETREPO'))
    w = World('ds', ctx, 'request')
    w.create(0)
    m = w.repos[0]
    coll = supported(env)[0] if supported(env) else COLLS[0]
    old = webutil.util.now
    ctx.cleanup(lambda: setattr(webutil.util, 'now', old))
    for n, (given, hours) in enumerate(case['tries']):
        bearer = {'none': None, 'repo': token, 'export': export, 'wrong': 'wrong', 'empty': ''}[given]
        headers = {} if bearer is None else {'Authorization': f'Bearer {bearer}'}
        r = web.post(w, 'com.atproto.repo.putRecord', {'repo': m.did, 'collection': coll, 'rkey': f'k{n}', 'record': {'n': n}}, headers=headers)
        what = f'with {headers}, REPO_TOKEN {token!r}'
        if token and bearer == token:
            check(r.status == 200, 'putRecord %s: %s', what, r)
        elif token:
            check(400 <= r.status < 500, 'putRecord %s: %s', what, r)
        else:
            eq(r.status, 501, f'putRecord {what}')
        webutil.util.now = lambda tz=timezone.utc, **kw: datetime.now(tz) + timedelta(hours=hours)
        r = web.get(w, 'com.atproto.sync.getRepo', did=m.did, headers=headers)
        webutil.util.now = old
        limited = disabled and hours > 12
        if not limited or (export and bearer == export):
            check(r.status == 200, 'getRepo of a repo %sh old with %s, DISABLE_GETREPO %r, GETREPO_TOKEN %r: %s', hours, headers, disabled, export, r)
        else:
            check(r.status != 200, 'getRepo of a repo %sh old was served with %s, DISABLE_GETREPO %r, GETREPO_TOKEN %r', hours, headers, disabled, export)
        ctx.label('export limited' if limited else 'export open')


def hosts(env, case, ctx):
    import requests
    from arroba import did, xrpc_server
    from vlib import web
    from vlib.imports import response
    from vlib.world import KEYS, World
    w = World('mem', ctx, 'request')
    plc, pds = env.env['PLC_HOST'], env.env['PDS_HOST']
    r = web.get(w, 'com.atproto.server.describeServer')
    check(r.status == 200, 'describeServer: %s', r)
    eq(r.json['did'], f'did:web:{pds}', 'DID in describeServer')
    urls = []

    def get(url, *args, **kwargs):
        urls.append(url)
        return response(url, 200, '{"id": "did:plc:xyz"}')

    def post(url, json=None, **kwargs):
        urls.append(url)
        eq(json['services']['atproto_pds']['endpoint'], f'https://{pds}', 'PDS in the operation')
        return response(url, 200, '{}')
    did.resolve_plc('did:plc:xyz', get_fn=get)
    made = did.create_plc('han.dull', signing_key=KEYS[0], rotation_key=KEYS[1], post_fn=post)
    eq(urls, [f'https://{plc}/did:plc:xyz', f'https://{plc}/{made.did}'], f'URLs requested with PLC_HOST {plc}')
    ctx.label('hosts')


PROBES = {f.__name__: f for f in (gap, reads, window, blobs, seqs, collections, access, hosts)}


# --- running one in a new process

def setup():
    """Imports what arroba needs, so that only arroba has to be imported for each case."""
    import importlib
    out = fork(None)
    for name in out.get('modules', []):
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    if any(ours(m) for m in sys.modules):
        raise HarnessError('arroba is imported already')


def ours(name):
    return name.split('.')[0] == 'arroba' or name in ('vlib.world', 'vlib.hose')


def modules():
    """Everything a case imports from elsewhere."""
    from checks import P25  # noqa
    from vlib import hose, imports, memc, web
    web.app()
    return [m for m in sys.modules if m.split('.')[0] not in ('arroba', 'vlib', 'checks', '__main__')
            and getattr(sys.modules[m], '__spec__', None) and getattr(sys.modules[m], '__file__', None)]


def child(case):
    for name in list(DEFAULTS) + OTHERS:
        os.environ.pop(name, None)
    os.environ.update(case['env'])
    for name, probe in case['probes']:
        ctx = core.Ctx(Check('P29', '', []))
        ctx.begin(None, case)
        try:
            PROBES[name](Env(case['env']), probe, ctx)
        finally:
            while ctx._cleanups:
                ctx._cleanups.pop()()
        yield ctx._case_labels


def fork(case):
    """The outcome of the case, from its own process."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        out, labels = {}, set()
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                if case is None:
                    out = {'modules': modules()}
                else:
                    for ls in child(case):
                        labels.update(ls)
                    out = {'labels': sorted(labels)}
            except Exception as e:
                import traceback
                tb = traceback.format_exc()
                if core._harness_fault(e):
                    out = {'harness': tb}
                else:
                    out = {'violation': str(e) if isinstance(e, Violation) else f'unexpected {type(e).__name__}: {e}\n{tb[-1500:]}'}
            with os.fdopen(w, 'w') as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    data, until = b'', time.time() + 200
    try:
        while True:
            if not select.select([r], [], [], max(0, until - time.time()))[0]:
                os.kill(pid, 9)
                raise Stuck('the process took over 200s')
            part = os.read(r, 1 << 16)
            if not part:
                break
            data += part
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not data:
        raise HarnessError('the process for the case died')
    return json.loads(data)


def run(case, ctx):
    out = fork(case)
    if 'harness' in out:
        raise HarnessError(out['harness'])
    check('violation' not in out, '%s', out.get('violation'))
    ctx.label(*out['labels'], *(k if k in case['env'] else f'default {k}' for k in DEFAULTS))
    ctx.nontrivial(out['labels'])


# --- generators

COLLS = ['app.x.y', 'net.some.post', 'app.x.yz', 'app.x.y.z']


def maybe(values):
    return st.one_of(st.none(), st.sampled_from(values), st.sampled_from(values))


def seq_conf(t):
    """Only what it accepts: batch > buffer > 1."""
    batch, buffer = t
    b = batch and max(batch, (buffer or 100) + 1)
    if buffer and not b and buffer >= 1000:
        buffer = 999
    return {'MEMCACHE_SEQUENCE_BATCH': b, 'MEMCACHE_SEQUENCE_BUFFER': buffer}


nums = st.fixed_dictionaries({
    'ROLLBACK_WINDOW': maybe([1, 2, 3, 7, 50, 1000, 100_000]), 'PRELOAD_WINDOW': maybe([1, 2, 3, 8, 60, 900, 5000]),
    'SUBSCRIBE_REPOS_BATCH_DELAY': maybe([0, .2, .5, 1, 2.5, 10]), 'SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW': maybe([0, 1, 2, 5, 40, 1000]),
    'SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY': maybe([.5, 1, 2.5, 30, 300]), 'BLOB_MAX_BYTES': maybe([1, 10, 70, 400, 1000, 123456]),
    'BLOB_REFETCH_DAYS': maybe([.25, .5, 1, 3.5, 14]), 'BLOB_REFETCH_TYPES': maybe(['image', 'video', 'image,video', 'text,foo,image', 'application'])})
words = st.fixed_dictionaries({
    'SUPPORTED_COLLECTIONS': st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(COLLS + ['app.not.used']), st.sampled_from(['', '', ' '])), max_size=3).map(
        lambda cs: ','.join(s + c + s for c, s in cs))),
    'DISABLE_GETREPO': maybe(['1', 'true', 'yes', '0', 'false']), 'GETREPO_TOKEN': maybe(['get-it', 'x', 'tok en']),
    'REPO_TOKEN': maybe(['the-token', 'x', '']), 'PLC_HOST': st.sampled_from(['plc.example', 'localhost:2582', 'p.x.co']),
    'PDS_HOST': st.sampled_from(['pds.example', 'localhost:8080', 'q.co'])})
env = st.tuples(nums, words, st.tuples(maybe([3, 4, 10, 50, 200, 2000]), maybe([2, 3, 9, 40, 300])).map(seq_conf)).map(
    lambda ds: {k: str(v) for d in ds for k, v in d.items() if v is not None})

backend = st.sampled_from(['mem', 'mem', 'ds'])


@st.composite
def probes(draw):
    out = []
    for name in draw(st.lists(st.sampled_from(list(PROBES) + ['gap', 'window', 'blobs', 'gap', 'window']), min_size=2, max_size=5)):
        out.append([name, draw(PARAMS[name])])
    return out


def dicts(**kw):
    return st.fixed_dictionaries(kw)


body = st.one_of(st.tuples(st.just('text'), st.sampled_from([0, 1, 5, 50, 133])), st.tuples(st.just('edge'), st.sampled_from([0, 0, 1, 1, -1]))).map(list)
mime = st.sampled_from(['image/png', 'video/x-msvideo', 'text/plain', 'foo/bar', None])
page = dicts(code=st.just(200), type=mime, length=st.sampled_from(['right', 'none', 'none', 'edge', 'big']), body=body, fault=st.none())
good = dicts(code=st.just(200), type=mime, length=st.sampled_from(['right', 'none']), body=st.tuples(st.just('text'), st.sampled_from([0, 1])).map(list), fault=st.none())
get = st.tuples(st.just('get'), st.integers(0, 3), st.integers(0, 2), st.none(), st.none()).map(list)
wait = st.tuples(st.just('wait'), st.sampled_from([0, .5, 1, 1, 1, 1.1]), st.sampled_from([0, 1, -1])).map(list)
cycle = st.tuples(st.tuples(st.just('page'), st.integers(0, 3), page).map(list), wait, get, st.one_of(get, st.tuples(st.just('serve'), st.integers(0, 3)).map(list))).map(list)
blob_ops = st.lists(cycle, min_size=1, max_size=5).map(lambda cs: [['get', i, i, None, None] for i in range(3)] + [o for c in cs for o in c])

PARAMS = {
    'gap': dicts(storage=backend, beyond=st.sampled_from([-1, 0, 0, 1, 1, 2])),
    'reads': dicts(storage=backend, pauses=st.lists(st.sampled_from([.01, .1, .3, 1.2, 3, 12]), min_size=2, max_size=8)),
    'window': dicts(storage=backend, at=st.lists(st.integers(0, 60), max_size=5), more=st.integers(0, 3),
                    cursors=st.lists(st.sampled_from([-2, -1, -1, 0, 1, 1, 2, 30]), min_size=1, max_size=4, unique=True)),
    'blobs': dicts(urls=st.just(['https://a.com/x', 'http://b.com/pic.png', 'https://b.com/v.avi', 'https://d.com/f.unknown-type']), first=good,
                   context=st.sampled_from(['request', 'nocache']), batch=st.none(), edge=st.just(True), ops=blob_ops),
    'seqs': dicts(times=st.sampled_from([.2, 1, 1.3, 2.5])),
    'collections': dicts(storage=backend, used=st.integers(0, 15)),
    'access': dicts(tries=st.lists(st.tuples(st.sampled_from(['none', 'repo', 'export', 'wrong', 'empty']), st.sampled_from([0, 11, 13, 100])).map(list), min_size=2, max_size=5)),
    'hosts': dicts(x=st.just(0)),
}

CHECK = Check('P29', 'at least one probe ran to its end in the new process', [
    Test("settings", st.fixed_dictionaries({"env": env, "probes": probes()}), run, 280)], setup=setup)
