"""Remote blobs describe the content last fetched and obey limits."""
import hashlib, mimetypes, struct, zlib
from datetime import datetime, timedelta, timezone
import requests
from google.api_core import exceptions as gexc
from hypothesis import strategies as st
from lexrpc.base import ValidationError
from multiformats import CID
from pymediainfo import MediaInfo
from urllib3.exceptions import ProtocolError
import webutil.util
from arroba import datastore_storage
from arroba.datastore_storage import AtpRemoteBlob, AtpRepo
from vlib import sched, web
from vlib.core import Check, Test, check, eq, HarnessError, Violation
from vlib.world import World, b32, DIDS

START = datetime(2024, 3, 1, 12, 0, 0, 250, tzinfo=timezone.utc)
MAX_BYTES = 400
MAX_MS = 180_000
AGE = timedelta(days=7)
HOSTS = ['https://a.com/x', 'http://b.com/pic.png', 'https://b.com/v.avi', 'https://c.com/d/e.jpg?q=a%20b&c', 'https://c.com/page.html', 'https://d.com/f.unknown-type', 'https://a.com/x/y']


# --- content

def _chunk(t, d):
    return t + struct.pack('<I', len(d)) + d + b'\0' * (len(d) % 2)


def avi(w, h, ms):
    """A video file as far as its headers go: 10 frames per second."""
    frames = ms // 100
    avih = struct.pack('<14I', 100_000, 0, 0, 0x10, frames, 0, 1, 0, w, h, 0, 0, 0, 0)
    strh = b'vidsDIB ' + struct.pack('<10I', 0, 0, 0, 1, 10, 0, frames, 0, 0xffffffff, 0) + struct.pack('<4H', 0, 0, w, h)
    strf = struct.pack('<IiiHHIIiiII', 40, w, h, 1, 24, 0, w * h * 3, 0, 0, 0, 0)
    body = b'AVI ' + _chunk(b'LIST', b'hdrl' + _chunk(b'avih', avih) + _chunk(b'LIST', b'strl' + _chunk(b'strh', strh) + _chunk(b'strf', strf)))
    body += _chunk(b'LIST', b'movi' + _chunk(b'00db', b'\0' * 12))
    return b'RIFF' + struct.pack('<I', len(body)) + body


def png(w, h):
    def c(t, d):
        return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
    rows = (b'\0' + b'\0' * w) * h
    return b'\x89PNG\r\n\x1a\n' + c(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, 0, 0, 0, 0)) + c(b'IDAT', zlib.compress(rows)) + c(b'IEND', b'')


def content(spec):
    """(bytes, width, height, duration in ms)"""
    kind, *a = spec
    if kind == 'text':
        return b'x%d' % a[0] * a[0], None, None, None
    elif kind == 'bytes':
        return b'z' * a[0], None, None, None
    elif kind == 'png':
        return png(*a), *a, None
    ms = a[2] * 100
    return avi(a[0], a[1], ms), *a[:2], ms or None


def cid_of_raw(data):
    return b32(CID('base32', 1, 'raw', bytes([0x12, 32]) + hashlib.sha256(data).digest()))


class Raw:
    """The body of a response; may break off."""
    def __init__(self, data, broken):
        self.data, self.broken = data, broken

    def stream(self, size, decode_content=None):
        n = len(self.data) // 2 if self.broken else len(self.data)
        if n:
            yield self.data[:n]
        if self.broken:
            raise ProtocolError('connection broken')


def unreadable(data, parser):
    """Whether the media parser fails on these bytes."""
    return parser is not None and hashlib.sha256(data).digest()[0] % 2 == 0


class Page:
    """What a URL serves."""
    def __init__(self, spec, parser=None):
        self.code, self.ctype, self.length, self.fault = spec['code'], spec['type'], spec['length'], spec['fault']
        self.data, self.width, self.height, self.duration = content(spec['body'])
        if unreadable(self.data, parser):
            self.width = self.height = self.duration = None

    def declared(self):
        return {'right': str(len(self.data)), 'none': None, 'junk': '12 bytes', 'small': '3', 'big': str(MAX_BYTES + 1),
                'edge': str(MAX_BYTES)}[self.length]

    def respond(self, url):
        if self.fault == 'connection':
            raise requests.ConnectionError('refused')
        elif self.fault == 'timeout':
            raise requests.Timeout('slow')
        r = requests.Response()
        r.status_code, r.url = self.code, url
        if self.ctype:
            r.headers['Content-Type'] = self.ctype
        if self.declared() is not None:
            r.headers['Content-Length'] = self.declared()
        r.raw = Raw(self.data, self.fault == 'body')
        return r

    def mime(self, url):
        return self.ctype or mimetypes.guess_type(url)[0] or 'application/octet-stream'

    def outcome(self):
        """ok, gone (for good), down (maybe for now), over (declared size), broken"""
        if self.fault in ('connection', 'timeout'):
            return 'down'
        elif self.code // 100 == 4:
            return 'gone'
        elif self.code >= 500:
            return 'down'
        elif (self.declared() or '').isdigit() and int(self.declared()) > MAX_BYTES:
            return 'over'
        return 'broken' if self.fault == 'body' else 'ok'

    def facts(self, url):
        return (cid_of_raw(self.data), len(self.data), self.mime(url), self.width, self.height, self.duration)


class Entity:
    """What should be known about a URL."""
    def __init__(self):
        self.facts = None       # of the content last fetched
        self.over = False       # the last fetch was refused because of its declared size
        self.mime = 'application/octet-stream'
        self.fetched = None
        self.status = None
        self.unsure = False     # a first fetch broke off, or one was too big: whether it counts as fetched is open
        self.repos, self.maybe = set(), set()

    def due(self, now, types):
        """Whether it has to be fetched: True, False or None, either."""
        if self.unsure:
            return None
        seen = self.facts or self.fetched
        if seen and self.mime.split('/')[0] not in types:
            return False
        return not (self.fetched and self.fetched >= now - AGE)


class Blobs:
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        web.setup(ctx)
        self.w = World('ds', ctx, case['context'])
        self.w.fake.batch = case.get('batch')
        for i in range(3):
            self.w.create(i)
        self.now = START
        self.types = tuple(case['types'])
        self.pages, self.entities, self.gets = {}, {}, []
        self.parser = case.get('parser')
        if self.parser:
            orig = MediaInfo.parse
            def parse(filename, *args, **kwargs):
                if hasattr(filename, 'read'):
                    data = filename.read()
                    filename.seek(0)
                    if unreadable(data, self.parser):
                        raise {'os': OSError, 'runtime': RuntimeError, 'value': ValueError}[self.parser]('injected')
                return orig(filename, *args, **kwargs)
            ctx.cleanup(lambda: setattr(MediaInfo, 'parse', orig))
            MediaInfo.parse = parse
        # P29 tests the configured values
        conf = () if case.get('asis') else ((datastore_storage, 'BLOB_MAX_BYTES', MAX_BYTES), (datastore_storage, 'BLOB_REFETCH_TYPES', self.types),
                                            (datastore_storage, 'BLOB_REFETCH_AGE', AGE))
        for mod, name, v in (*conf, (datastore_storage, 'VIDEO_MAX_DURATION', timedelta(milliseconds=MAX_MS)),
                             (webutil.util, 'now', lambda tz=timezone.utc, **kw: self.now), (webutil.util.session, 'get', self.get)):
            if not hasattr(mod, name):
                raise HarnessError(f'{mod} has no {name}')
            ctx.cleanup(lambda mod=mod, name=name, old=getattr(mod, name): setattr(mod, name, old))
            setattr(mod, name, v)

    def get(self, url, **kwargs):
        self.gets.append(url)
        check(url in self.pages, 'fetched %s, which nobody named', url)
        return self.pages[url].respond(url)

    def page(self, url, spec):
        self.pages[url] = Page(spec, self.parser)

    def fetched(self, url):
        """The model's side of one fetch."""
        e, p = self.entities[url], self.pages[url]
        out = p.outcome()
        e.fetched = self.now
        e.unsure = False
        if out == 'ok':
            e.facts, e.mime, e.over, e.status = p.facts(url), p.mime(url), False, None
        elif out == 'broken':
            e.unsure = True
        elif out == 'gone' or (out == 'down' and not e.facts):
            e.status = 'inactive'
            if e.over:
                e.status, e.unsure = None, True
        elif out == 'over':
            e.over, e.mime = True, p.mime(url)
        return out

    def judge(self, url):
        """What is stored about a URL; the model takes over what is open."""
        e = self.entities[url]
        with self.w.request():
            b = AtpRemoteBlob.get_by_id(url)
        check(b is not None, '%s is not stored', url)
        if e.unsure:
            check(b.status in (None, 'inactive')[:1 if e.facts else 2], 'status of %s is %s', url, b.status)
            e.status = b.status
            if b.status:
                e.unsure = False
        eq(b.status, e.status, f'status of {url}')
        if not e.unsure and not e.over and not e.status:
            eq((b.last_fetched, b.url or url), (e.fetched, url), f'time of the last fetch and URL of {url}')
        if b.cid is None:
            check(e.facts is None or e.over, '%s lost its CID', url)
            if e.over and not e.unsure:
                e.facts = None
        elif e.facts is None:
            raise Violation(f'{url} has CID {b.cid}, but nothing was fetched')
        else:
            eq((b.cid, b.size, b.mime_type, b.width, b.height, b.duration), e.facts,
               f'CID, size, type, width, height, duration of {url}')
            eq(b.as_object(), {'$type': 'blob', 'ref': CID.decode(e.facts[0]), 'mimeType': e.facts[2], 'size': e.facts[1]}, f'blob object of {url}')
        have = [k.id() for k in b.repos]
        check(len(set(have)) == len(have) and e.repos <= set(have) <= e.repos | e.maybe,
              'repos of %s: %s, want %s and maybe %s', url, have, e.repos, e.maybe)

    def limits(self, e, max_size, accept):
        """Whether a fetched blob is refused."""
        _, size, mime, _, _, ms = e.facts
        if accept and '*/*' not in accept and mime not in accept and mime.split('/')[0] + '/*' not in accept:
            return True
        return size > MAX_BYTES or bool(max_size and size > max_size) or bool(ms and ms > MAX_MS)

    def create(self, url, repo, max_size, accept):
        """get_or_create; returns a label"""
        e = self.entities.setdefault(url, Entity())
        before = len(self.gets)
        status, due = e.status, e.due(self.now, self.types)
        was_over = e.over
        got = error = None
        with self.w.request():
            try:
                got = AtpRemoteBlob.get_or_create(url=url, repo=AtpRepo(id=DIDS[repo]) if repo is not None else None, get_fn=self.get,
                                                  max_size=max_size, accept_types=accept, name='fld')
                seen = (got.cid, got.size, got.mime_type, got.width, got.height, got.duration), got.url, got.as_object()
            except (requests.RequestException, ValidationError) as ex:
                error = ex
        gets = self.gets[before:]
        check(all(g == url for g in gets) and len(gets) <= 1, 'fetched %s for %s', gets, url)
        if status:
            check(not gets, 'fetched %s, which is inactive', url)
        elif due is not None:
            eq(len(gets), int(due), f'number of fetches of {url}, fetched before at {e.fetched}, type {e.mime}, now {self.now}')
        out = self.fetched(url) if gets else None
        if repo is not None:
            (e.repos if got else e.maybe).add(DIDS[repo])
        self.judge(url)
        if status:
            check(isinstance(error, requests.RequestException), 'inactive %s was not refused: %r', url, error)
            return 'inactive'
        if out in ('gone', 'down', 'broken'):
            check(isinstance(error, requests.RequestException), '%s: failed fetch (%s) was not reported: %r', url, out, error)
            return out
        if e.facts is None or e.over:
            # it was too big
            if got is None or e.facts is None:
                check(error, '%s, which was never fetched, was returned', url)
                check(out != 'over' or isinstance(error, ValidationError), '%s, which is too big, gave %r', url, error)
                return 'over'
        bad = self.limits(e, max_size, accept)
        if bad:
            check(isinstance(error, ValidationError), '%s with %s was not refused for max_size %s, accept %s: %r',
                  url, e.facts, max_size, accept, error)
            return 'refused'
        check(got is not None, '%s with %s was refused for max_size %s, accept %s (too big before: %s): %r', url, e.facts, max_size, accept, was_over, error)
        eq(seen[0], e.facts, f'facts of the returned blob of {url}')
        eq(seen[1], url, 'url of the returned blob')
        check(seen[2] and b32(seen[2]['ref']) == e.facts[0], 'returned blob object %s', seen[2])
        return 'fetched' if gets else 'known'

    def serve(self, cid):
        """getBlob; returns a label"""
        cands = {u: e for u, e in self.entities.items() if e.facts and e.facts[0] == cid and not e.status}
        sure, maybe, due = set(), set(), {}
        for u, e in cands.items():
            due[u] = e.due(self.now, self.types)
            p = self.pages[u]
            if e.over or e.unsure:
                maybe.add(u)
            elif not due[u]:
                (maybe if self.limits(e, None, None) else sure).add(u)
            elif p.outcome() == 'ok':
                same = p.facts(u)[0] == cid
                (sure if same and len(p.data) <= MAX_BYTES and (p.duration or 0) <= MAX_MS else maybe).add(u)
            elif p.outcome() == 'over':
                pass
        before = len(self.gets)
        r = web.get(self.w, 'com.atproto.sync.getBlob', did=DIDS[0], cid=cid)
        gets = self.gets[before:]
        check(len(set(gets)) == len(gets), 'fetched %s', gets)
        for u in gets:
            check(u in cands and due[u] is not False, 'getBlob of %s fetched %s, due: %s', cid, u, due.get(u))
            self.fetched(u)
        for u in cands:
            self.judge(u)
        if r.status in (301, 302, 303, 307, 308):
            to = r.headers['Location']
            check(to in sure | maybe, 'getBlob of %s was served from %s, wanted one of %s', cid, to, sure | maybe)
            check(self.entities[to].status is None, 'inactive %s was served', to)
            check(due[to] is not True or to in gets, '%s was served without checking it', to)
            return 'served'
        check(400 <= r.status < 500, 'getBlob: %s', r)
        check(not sure, 'getBlob of %s, which %s has, gave %s', cid, sure, r)
        return 'not found' if not cands else 'unavailable'

    def list(self, repo, limit):
        did = DIDS[repo]
        got, cursor, pages = [], None, 0
        while True:
            r = web.get(self.w, 'com.atproto.sync.listBlobs', did=did, **({'limit': limit} if limit else {}), **({'cursor': cursor} if cursor else {}))
            check(r.status == 200, 'listBlobs: %s', r)
            cids, cursor = r.json['cids'], r.json.get('cursor')
            check(not limit or len(cids) <= limit, '%s CIDs for limit %s', len(cids), limit)
            got += cids
            pages += 1
            if not cursor:
                break
            check(pages <= len(self.entities) + 2, 'listBlobs does not end: %s', got)
        want = [e.facts[0] for e in self.entities.values() if e.facts and did in e.repos]
        may = want + [e.facts[0] for e in self.entities.values() if e.facts and did in e.maybe - e.repos]
        check(set(want) <= set(got) <= set(may), 'listBlobs of %s: %s, want %s and maybe %s', did, got, want, may)
        for c in set(got):
            check(got.count(c) <= may.count(c), '%s was listed %s times', c, got.count(c))
        return pages


def history(case, ctx):
    b = Blobs(ctx, case)
    urls = case['urls']
    for u in urls:
        b.page(u, case['first'])
    labels = set()
    n = 0
    for op in case['ops']:
        kind = op[0]
        if kind == 'page':
            b.page(urls[op[1] % len(urls)], op[2])
        elif kind == 'get':
            u, limit = urls[op[1] % len(urls)], op[3]
            if isinstance(limit, list):     # next to the size of what it serves, or of what was fetched
                e = b.entities.get(u)
                limit = (e.facts[1] if limit[0] == 'had' and e and e.facts else len(b.pages[u].data)) + limit[1]
                limit = max(limit, 1)
            labels.add(b.create(u, op[2], limit, op[4]))
            n += 1
        elif kind == 'wait':
            b.now += timedelta(days=op[1], microseconds=op[2])
        elif kind == 'serve':
            cids = sorted({e.facts[0] for e in b.entities.values() if e.facts}) + [cid_of_raw(b'nothing')]
            labels.add('serve ' + b.serve(cids[op[1] % len(cids)]))
        elif kind == 'list':
            b.list(op[1], op[2])
        elif kind == 'absent':
            r = web.get(b.w, 'com.atproto.sync.listBlobs', did='did:web:nobody.com')
            check(r.error == 'RepoNotFound', 'listBlobs of an unknown repo: %s', r)
    for u in b.entities:
        b.judge(u)
    for i in range(3):
        for limit in 1, 2:
            b.list(i, limit)
    ctx.label(*labels)
    ctx.nontrivial(n >= 3 and len(labels) >= 3)


def race(case, ctx):
    """Several requests name the same URL at once."""
    b = Blobs(ctx, {**case, 'context': 'request'})
    urls = case['urls']
    for u in urls:
        b.page(u, case['first'])
    for op in case['before']:
        if op[0] == 'wait':
            b.now += timedelta(days=op[1])
        else:
            b.create(urls[op[1] % len(urls)], *op[2:])
    prior = {u: (set(e.repos), e.facts) for u, e in b.entities.items()}
    served = {u: {b.pages[u].facts(u)} | ({prior[u][1]} if u in prior and prior[u][1] else set()) for u in urls}
    changes = list(case['changes'])
    sc = sched.Sched(case['schedule'])
    b.w.fake.on_rpc = lambda n, name, req: sc.point()
    ctx.cleanup(lambda: setattr(b.w.fake, 'on_rpc', None))
    orig = b.get

    def get(url, **kw):
        sc.point()
        if changes:
            spec = changes.pop(0)
            if spec:
                b.page(url, spec)
                served[url].add(b.pages[url].facts(url))
        r = orig(url, **kw)
        sc.point()
        return r

    results = []
    def task(u, repo):
        def run():
            try:
                with b.w.client.context():
                    got = AtpRemoteBlob.get_or_create(url=u, repo=AtpRepo(id=DIDS[repo]), get_fn=get)
                    results.append((u, repo, (got.cid, got.size, got.mime_type, got.width, got.height, got.duration)))
            except (requests.RequestException, ValidationError) as e:
                results.append((u, repo, e))
            except gexc.GoogleAPIError as e:
                results.append((u, repo, e))
                ctx.label('contention')
        return run
    tasks = [sc.spawn(task(urls[u % len(urls)], repo)) for u, repo in case['tasks']]
    try:
        sc.run()
    except sched.Deadlock as e:
        raise Violation(str(e))
    for t in tasks:
        if t.error:
            raise t.error
    b.w.fake.on_rpc = None
    ok = 0
    for u in urls:
        with b.w.request():
            blob = AtpRemoteBlob.get_by_id(u)
        mine = [(r, x) for v, r, x in results if v == u]
        if not mine:
            continue
        if blob is None:
            check(all(isinstance(x, gexc.GoogleAPIError) for r, x in mine), '%s is not stored', u)
            continue
        have = [k.id() for k in blob.repos]
        want = prior.get(u, (set(), None))[0] | {DIDS[r] for r, x in mine if isinstance(x, tuple)}
        ok += sum(isinstance(x, tuple) for r, x in mine)
        check(want <= set(have), '%s is shared by %s, but says %s', u, sorted(want), have)
        check(len(set(have)) == len(have), 'repos of %s: %s', u, have)
        for r, x in mine:
            if isinstance(x, tuple):
                check(x in served[u], '%s was returned for %s, which served %s', x, u, served[u])
        if blob.cid:
            facts = (blob.cid, blob.size, blob.mime_type, blob.width, blob.height, blob.duration)
            check(facts in served[u], '%s is stored for %s, which served %s', facts, u, served[u])
    ctx.nontrivial(ok >= 2 and sc.switches >= 3)
    ctx.label(f'{ok} ok')


def long_urls(case, ctx):
    """URLs longer than a key can be."""
    b = Blobs(ctx, {**case, 'context': 'request', 'types': ['image']})
    urls = []
    for n, (length, differ) in enumerate(case['urls']):
        u = 'https://long.com/' + 'y' * (length - 21) + '.gif'
        mark = case.get('mark')     # a query or fragment
        if mark:
            u = u[:19] + mark + u[20:]
        at = min(max(differ, 17), length - 1)
        u = u[:at] + 'abcdefgh'[n] + u[at + 1:]
        urls.append(u)
        b.page(u, {'code': 200, 'type': None, 'length': 'none', 'body': ['text', n + 1], 'fault': None})
    seen = set()
    for i, repo in case['gets']:
        u = urls[i % len(urls)]
        with b.w.request():
            got = AtpRemoteBlob.get_or_create(url=u, repo=AtpRepo(id=DIDS[repo]), get_fn=b.get)
            facts = (got.cid, got.size, got.mime_type, got.width, got.height, got.duration)
        if facts != b.pages[u].facts(u):
            same = [v for v in seen if v != u and v[:1500] == u[:1500]]
            check(same and len(u) > 1500, '%s of %s chars gave the content of another URL', u, len(u))
            ctx.finding('P25-long-urls', f'{u} gave the content of {same[0]}')
            continue
        seen.add(u)
        if not any(v != u and v[:1500] == u[:1500] for v in urls):
            r = web.get(b.w, 'com.atproto.sync.getBlob', did=DIDS[0], cid=facts[0])
            eq((r.status, r.headers.get('Location')), (301, u), 'getBlob of a long URL')
    ctx.nontrivial(len(seen) > 1 and any(len(u) > 1490 for u in seen))


body = st.one_of(
    st.tuples(st.just('text'), st.sampled_from([0, 1, 5, 50, 133, 134, 150])),
    st.tuples(st.just('bytes'), st.sampled_from([MAX_BYTES - 1, MAX_BYTES, MAX_BYTES + 1])),
    st.tuples(st.just('png'), st.integers(1, 30), st.integers(1, 30)),
    st.tuples(st.just('avi'), st.integers(1, 30), st.integers(1, 30), st.sampled_from([0, 5, 1799, 1800, 1801, 5000]))).map(list)
mime = st.sampled_from(['image/png', 'image/jpeg', 'video/x-msvideo', 'text/plain', 'foo/bar', None, None])
good = st.fixed_dictionaries({'code': st.just(200), 'type': mime, 'length': st.sampled_from(['right', 'none']), 'body': body, 'fault': st.none()})
def spec(code=200, length=('right', 'none'), fault=None):
    return st.fixed_dictionaries({'code': st.sampled_from(code) if isinstance(code, list) else st.just(code), 'type': mime,
                                  'length': st.sampled_from(length), 'body': body, 'fault': st.just(fault)})


page = st.one_of(good, good, good, spec([404, 410, 400, 429]), spec([500, 503]), spec(length=['big']), spec(fault='body'), spec(fault='connection'),
                 spec([200, 201], ['junk', 'small', 'edge']), spec([404, 500], ['big', 'right'], 'timeout'))
accept = st.sampled_from([None, None, [], ['*/*'], ['image/*'], ['image/png', 'video/*'], ['foo/bar'], ['image/pn']])
size = st.sampled_from([None, None, None, 1, 2, 10, 69, 70, 71, 250, 400, 1000, *(['has', d] for d in (-1, 0, 0, 1)), *(['had', d] for d in (-1, 0, 0, 1))])
get_op = st.tuples(st.just('get'), st.integers(0, 4), st.one_of(st.none(), st.integers(0, 2), st.integers(0, 2)), size, accept).map(list)
plain = st.tuples(st.just('get'), st.integers(0, 4), st.integers(0, 2), st.none(), st.none()).map(list)
page_op = st.tuples(st.just('page'), st.integers(0, 4), page).map(list)
wait = st.tuples(st.just('wait'), st.sampled_from([0, 1, 3, 7, 7, 7, 8, 30]), st.sampled_from([0, 0, 1, -1])).map(list)
ops = st.lists(st.one_of(plain, get_op, plain, page_op, page_op, wait, wait, st.tuples(st.just('serve'), st.integers(0, 5)).map(list),
                         st.tuples(st.just('serve'), st.integers(0, 5)).map(list),
                         st.tuples(st.just('list'), st.integers(0, 2), st.sampled_from([None, 1, 2, 3])).map(list), st.just(['absent'])), min_size=3, max_size=25)
# pages that change while they are due to be fetched again
cycle = st.tuples(page_op, wait, st.one_of(plain, get_op, st.tuples(st.just('serve'), st.integers(0, 5)).map(list)), st.one_of(plain, get_op)).map(list)
cycles = st.lists(cycle, min_size=1, max_size=6).map(lambda cs: [['get', i, i % 3, None, None] for i in range(4)] + [o for c in cs for o in c])
# several URLs with the same content, of which some fail later
serve = st.tuples(st.just('serve'), st.integers(0, 1)).map(list)
mirror_op = st.one_of(page_op, st.tuples(st.just('page'), st.integers(0, 2), page.map(lambda p: {**p, 'type': 'image/png'})).map(list))
mirrors = st.lists(st.tuples(mirror_op, st.one_of(mirror_op, st.just(['wait', 0, 0])), st.sampled_from([['wait', 8, 0], ['wait', 8, 0], ['wait', 1, 0]]), serve, serve).map(list),
                   min_size=1, max_size=5).map(lambda cs: [['get', i, i % 3, None, None] for i in range(3)] + [o for c in cs for o in c])
types = st.sampled_from([['image'], ['image'], ['image', 'video', 'text', 'foo', 'application'], ['video', 'image'], ['']])
urls = st.lists(st.sampled_from(HOSTS), min_size=1, max_size=5, unique=True)
schedule = st.lists(st.tuples(st.integers(1, 12), st.integers(0, 2)).map(list), max_size=20)

CHECK = Check('P25', 'history: at least three lookups with three different outcomes; race: at least two lookups succeeded, with three switches between them; long_urls: two URLs, one of them of nearly 1500 characters or more', [
    Test('history', st.fixed_dictionaries({'urls': urls, 'first': page, 'types': types, 'context': st.sampled_from(['request', 'request', 'nocache']),
                                           'parser': st.sampled_from([None, None, None, 'os', 'runtime', 'value']),
                                           'batch': st.sampled_from([None, 1, 2]), 'ops': st.one_of(ops, cycles)}), history, 900),
    Test('mirrors', st.fixed_dictionaries({'urls': st.lists(st.sampled_from(HOSTS), min_size=2, max_size=3, unique=True), 'first': good.map(lambda p: {**p, 'type': 'image/png'}),
                                           'types': types, 'context': st.sampled_from(['request', 'nocache']), 'batch': st.sampled_from([None, 1]),
                                           'ops': mirrors}), history, 600),
    Test('long_urls', st.fixed_dictionaries({'mark': st.sampled_from([None, '?', '/', '#']), 'urls': st.lists(st.tuples(st.sampled_from([1400, 1499, 1500, 1501, 1502, 1600, 3000]),
                                                                        st.sampled_from([20, 1000, 1399, 1498, 1499, 1500, 1501, 2900])).map(list), min_size=1, max_size=4),
                                             'gets': st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2)).map(list), min_size=2, max_size=8)}), long_urls, 120),
    Test('race', st.fixed_dictionaries({'urls': st.lists(st.sampled_from(HOSTS), min_size=1, max_size=2, unique=True), 'first': good, 'types': types,
                                        'before': st.lists(st.one_of(plain, st.tuples(st.just('wait'), st.sampled_from([3, 8])).map(list)), max_size=3),
                                        'changes': st.lists(st.one_of(st.none(), good), max_size=3), 'schedule': schedule,
                                        'tasks': st.lists(st.tuples(st.integers(0, 1), st.integers(0, 2)).map(list), min_size=2, max_size=3)}), race, 500),
    ])
