"""The record API reads back what was written."""
import base64, copy, json, time
from hypothesis import strategies as st
import dag_cbor
from multiformats import CID
from vlib import world, web, gen, values, imports
from vlib.core import Check, Test, eq, check, Violation, HarnessError
from vlib.mstref import cid_of
from vlib.world import World, b32, DIDS, KEYS
from vlib.worldutil import stored, patch_clock
from arroba import xrpc_repo

COLLS = ['app.x.y', 'app.x.yz', 'app.x.y.z', 'com.example.thing', 'app.x.Y']
RKEYS = ['self', 'a', 'b', 'aa', 'a.b', 'a-b', 'a:b', 'a~b', '_', 'A', '3jzfcijpj2z2a', '...', 'a' * 200, '~', '-', '0']
BAD_RKEYS = ['', '.', '..', 'a/b', 'a b', 'é', 'a' * 600, 'a#b', 'a?b', 'a\n', 'x' * 250]
# records that known lexicons refuse
INVALID = [{'$type': 'app.bsky.feed.post'}, {'$type': 'app.bsky.feed.post', 'text': 3, 'createdAt': '2024-01-01T00:00:00Z'},
           {'$type': 'app.bsky.feed.post', 'text': 'x', 'createdAt': 'yesterday'},
           {'$type': 'app.bsky.actor.profile', 'displayName': 'x' * 2000},
           {'$type': 'app.bsky.feed.like', 'subject': {'uri': 'at://x'}, 'createdAt': '2024-01-01T00:00:00Z'}]
VALID = [{'$type': 'app.bsky.feed.post', 'text': 'hello ☺', 'createdAt': '2024-01-01T00:00:00.000Z'},
         {'$type': 'app.bsky.actor.profile', 'displayName': 'Ms. Alice'}]


def to_json(v):
    """The JSON form of a value: bytes as $bytes, links as $link."""
    if isinstance(v, bytes):
        return {'$bytes': base64.b64encode(v).decode().rstrip('=')}
    if isinstance(v, CID):
        return {'$link': v.encode('base32')}
    if isinstance(v, dict):
        return {k: to_json(x) for k, x in v.items()}
    if isinstance(v, list):
        return [to_json(x) for x in v]
    return v


def from_json(v):
    if isinstance(v, dict):
        if set(v) == {'$bytes'}:
            b = v['$bytes']
            return base64.b64decode(b + '=' * (-len(b) % 4))
        if set(v) == {'$link'}:
            return CID.decode(v['$link'])
        return {k: from_json(x) for k, x in v.items()}
    if isinstance(v, list):
        return [from_json(x) for x in v]
    return v


def same(got, want, what):
    """Equal as DAG-CBOR, so 1 isn't True."""
    check(isinstance(got, dict), '%s is %r', what, got)
    check(dag_cbor.encode(from_json(got)) == dag_cbor.encode(want), '%s: got %s want %s', what, got, to_json(want))


class Api:
    def __init__(self, case, ctx):
        web.setup(ctx)
        self.ctx, self.w = ctx, World(case['storage'], ctx, 'request')
        if self.w.fake:
            self.w.fake.lookup_max = case.get('deferred') or None
        self.docs = imports.Docs(ctx)
        for i in range(case.get('repos', 2)):
            self.w.create(i)
            self.docs.put(DIDS[i], KEYS[i], self.w.repos[i].handle)
        if case.get('clock') is not None:
            # the wall clock stands still or goes back
            now = [1_900_000_000_000_000_000]
            def time_ns():
                now[0] -= case['clock']
                return now[0]
            patch_clock(ctx, time_ns)
        self.supported = case.get('supported')
        if self.supported and hasattr(xrpc_repo, 'SUPPORTED_COLLECTIONS'):
            old = xrpc_repo.SUPPORTED_COLLECTIONS
            xrpc_repo.SUPPORTED_COLLECTIONS = frozenset(self.supported)
            ctx.cleanup(lambda: setattr(xrpc_repo, 'SUPPORTED_COLLECTIONS', old))
        else:
            self.supported = None

    def name(self, i, by):
        m = self.w.repos[i]
        return m.handle if by else m.did

    def blocked(self, coll):
        return bool(self.supported) and coll not in self.supported

    def unchanged(self, what, fn):
        """Runs fn, which has to be refused without any effect."""
        snap = stored(self.w)
        r = fn()
        check(r.error is not None, '%s succeeded: %s', what, r)
        check(400 <= r.status < 500 or r.status == 501, '%s: %s', what, r)
        check(stored(self.w) == snap, '%s was refused with %s but changed stored state', what, r)
        self.ctx.label('refused')
        return r

    def write(self, method, i, by, coll, rkey, rec, extra=None):
        m = self.w.repos[i]
        body = {'repo': self.name(i, by), 'collection': coll, 'record': to_json(rec), **(extra or {})}
        if rkey is not None:
            body['rkey'] = rkey
        call = lambda: web.post(self.w, f'com.atproto.repo.{method}', body)
        what = f'{method} {coll}/{rkey} of {body["record"]}'
        if (self.blocked(coll) or rec in INVALID or rkey in BAD_RKEYS or any((extra or {}).values())
                or rkey and len(coll) + 1 + len(rkey) > 256):
            return self.unchanged(what, call)
        path = f'{coll}/{rkey}'
        if method == 'createRecord' and path in m.contents:
            # either refused, or the record is replaced
            snap = stored(self.w)
            r = call()
            if r.error:
                check(stored(self.w) == snap, '%s was refused but changed stored state', what)
                return
        else:
            r = call()
        eq(r.error, None, f'{what}: {r}')
        c = cid_of(dag_cbor.encode(rec))
        uri = r.json['uri']
        check(uri.startswith(f'at://{m.did}/{coll}/'), '%s: uri %s', what, uri)
        key = uri.removeprefix(f'at://{m.did}/{coll}/')
        if rkey is None:
            check(key and '/' not in key and f'{coll}/{key}' not in m.contents, '%s: made up a key that exists: %s', what, uri)
        else:
            eq(key, rkey, f'{what}: uri')
        eq(r.json['cid'], b32(c), f'{what}: cid')
        m.contents[f'{coll}/{key}'] = rec

    def get(self, i, by, coll, rkey):
        m = self.w.repos[i]
        r = web.get(self.w, 'com.atproto.repo.getRecord', repo=self.name(i, by), collection=coll, rkey=rkey)
        what = f'getRecord {m.did} {coll}/{rkey}'
        path = f'{coll}/{rkey}'
        if self.blocked(coll) or rkey in BAD_RKEYS and path not in m.contents:
            check(r.error, '%s succeeded: %s', what, r)
            check(400 <= r.status < 500, '%s: %s', what, r)
        elif path in m.contents:
            eq(r.error, None, f'{what}: {r}')
            eq(set(r.json) - {'uri', 'value', 'cid'}, set(), f'{what}: fields')
            self.item(m, r.json, path, what)
        else:
            eq(r.error, 'RecordNotFound', f'{what}: {r}')
            check(400 <= r.status < 500, '%s: %s', what, r)

    def item(self, m, got, path, what):
        eq(got['uri'], f'at://{m.did}/{path}', f'{what}: uri')
        same(got['value'], m.contents[path], f'{what}: value of {path}')
        eq(got['cid'], b32(cid_of(dag_cbor.encode(m.contents[path]))), f'{what}: cid of {path}')

    def delete(self, i, by, coll, rkey, extra=None):
        m = self.w.repos[i]
        path = f'{coll}/{rkey}'
        call = lambda: web.post(self.w, 'com.atproto.repo.deleteRecord',
                                {'repo': self.name(i, by), 'collection': coll, 'rkey': rkey, **(extra or {})})
        what = f'deleteRecord {m.did} {path}'
        if self.blocked(coll) or any((extra or {}).values()):
            return self.unchanged(what, call)
        snap, seq = stored(self.w), self.w.last_seq()
        r = call()
        if rkey in BAD_RKEYS:
            check(r.status < 500, '%s: %s', what, r)
        else:
            eq(r.error, None, f'{what}: {r}')
        if path in m.contents:
            del m.contents[path]
        else:
            check(stored(self.w) == snap and self.w.last_seq() == seq, '%s is not there, but stored state changed', what)

    def paths(self, i, coll):
        return sorted(p for p in self.w.repos[i].contents if p.startswith(coll + '/'))

    def list(self, i, by, coll, limit):
        m = self.w.repos[i]
        want = self.paths(i, coll)
        if self.blocked(coll):
            want = []
        what = f'listRecords {m.did} {coll} limit {limit}'
        got, cursor, pages = [], None, 0
        while True:
            params = {'repo': self.name(i, by), 'collection': coll}
            if limit: params['limit'] = limit
            if cursor is not None: params['cursor'] = cursor
            r = web.get(self.w, 'com.atproto.repo.listRecords', **params)
            eq(r.error, None, f'{what} cursor {cursor}: {r}')
            items = r.json['records']
            check(len(items) <= (limit or 50), '%s returned %s records', what, len(items))
            got += items
            pages += 1
            check(len(got) <= len(want) and pages <= len(want) + 2,
                  '%s: %s pages with %s records for a collection of %s: %s', what, pages, len(got), len(want), [x['uri'] for x in got])
            cursor = r.json.get('cursor')
            if cursor is None:
                break
        eq([x['uri'] for x in got], [f'at://{m.did}/{p}' for p in want], what)
        for x, p in zip(got, want):
            self.item(m, x, p, what)
        if pages > 2: self.ctx.label('over two pages')
        return pages, len(want)

    def odd(self, i, by, coll, n):
        """Parameters that may be unsupported, but not ignored."""
        m = self.w.repos[i]
        want = [f'at://{m.did}/{p}' for p in self.paths(i, coll)]
        if n == 0:
            r = web.get(self.w, 'com.atproto.repo.listRecords', repo=self.name(i, by), collection=coll, limit=100, reverse='true')
            if self.blocked(coll):
                want = []
            check(r.status < 500, 'listRecords %s in reverse: %s', coll, r)
            if not r.error:
                eq([x['uri'] for x in r.json['records']], want[::-1], f'listRecords {coll} in reverse')
        elif want:
            rkey = want[0].split('/')[-1]
            r = web.get(self.w, 'com.atproto.repo.getRecord', repo=self.name(i, by), collection=coll, rkey=rkey, cid=b32(values.cid(7)))
            check(r.error and r.status < 500, 'getRecord of another version of %s: %s', want[0], r)

    def describe(self, i, by):
        m = self.w.repos[i]
        r = web.get(self.w, 'com.atproto.repo.describeRepo', repo=self.name(i, by))
        eq(r.error, None, f'describeRepo {m.did}: {r}')
        d = r.json
        eq((d['did'], d['handle']), (m.did, m.handle), 'describeRepo: did, handle')
        want = {p.split('/')[0] for p in m.contents}
        eq(sorted(d['collections']), sorted(self.supported or want), f'describeRepo {m.did}: collections')
        eq(d['didDoc'], self.docs.docs[m.did], f'describeRepo {m.did}: DID document')

    def all(self):
        for i in self.w.repos:
            m = self.w.repos[i]
            r = self.w.load(i)
            eq({p: dag_cbor.encode(x) for p, x in self.w.contents_of(r).items()},
               {p: dag_cbor.encode(x) for p, x in m.contents.items()}, f'contents of {m.did}')


def pick(a, i, n, coll, rkey):
    """An existing path if n is given and there is one, else the one generated."""
    have = sorted(a.w.repos[i].contents)
    return have[n % len(have)].split('/') if n is not None and have else (coll, rkey)


def history(case, ctx):
    a = Api(case, ctx)
    edits, repos = 0, set()
    for i, n in enumerate(case['seed']):
        if i in a.w.repos and n:
            a.w.commit(i, [('create', f'{COLLS[k % 4]}/{RKEYS[k % 7]}', {'n': k}) for k in range(28) if n >> k & 1])
    for op in case['ops']:
        kind, i, by = op[0], op[1] % len(a.w.repos), op[2]
        if kind == 'create':
            a.write('createRecord', i, by, op[3], op[4], values.decode(op[5]))
        elif kind == 'put':
            coll, rkey = pick(a, i, op[6], op[3], op[4])
            a.write('putRecord', i, by, coll, rkey, values.decode(op[5]))
            edits += op[6] is not None
        elif kind == 'swap':
            method, coll, rkey = pick(a, i, op[5], 0, 0) and op[6], *pick(a, i, op[5], op[3], op[4])
            extra = {op[7]: b32(values.cid(1))}
            if method == 'deleteRecord':
                extra = extra and {'swapCommit' if op[7] == 'swapCommit' else 'swapRecord': b32(values.cid(1))}
                a.delete(i, by, coll, rkey, extra)
            else:
                if method == 'createRecord':
                    extra = {'swapCommit': b32(values.cid(1))}
                a.write(method, i, by, coll, rkey, {'x': 1}, extra)
        elif kind == 'delete':
            coll, rkey = pick(a, i, op[5], op[3], op[4])
            edits += f'{coll}/{rkey}' in a.w.repos[i].contents
            a.delete(i, by, coll, rkey)
        elif kind == 'get':
            a.get(i, by, *pick(a, i, op[5], op[3], op[4]))
        elif kind == 'list':
            a.list(i, by, op[3], op[4])
        elif kind == 'odd':
            a.odd(i, by, op[3], op[4])
        elif kind == 'describe':
            a.describe(i, by)
        else:
            raise HarnessError(kind)
        if a.w.repos[i].contents: repos.add(i)
    a.all()
    for i in a.w.repos:
        for p in sorted(a.w.repos[i].contents)[:6]:
            a.get(i, 0, *p.split('/'))
            # the other repos don't have it unless they do
            a.get((i + 1) % len(a.w.repos), 1, *p.split('/'))
        a.describe(i, 1)
        for coll in COLLS[:3]:
            a.list(i, 0, coll, case['limit'])
    ctx.label(case['storage'])
    if a.supported: ctx.label('collections limited')
    if len(repos) > 1: ctx.label('several repos')
    ctx.nontrivial(edits >= 1 and sum(len(m.contents) for m in a.w.repos.values()) >= 2)


def paging(case, ctx):
    a = Api(case, ctx)
    w = a.w
    writes, n = [], 0
    for coll, rkey in case['paths'] + [[COLLS[k % 3], RKEYS[k // 3]] for k in range(45) if case['mask'] >> k & 1]:
        p = f'{coll}/{rkey}'
        if len(p) <= 256 and p not in w.repos[0].contents and all(p != x[1] for x in writes):
            writes.append(('create', p, {'n': n, 'at': p}))
            n += 1
    if not writes:
        return
    w.commit(0, writes)
    best = 0
    for coll in case['colls']:
        for limit in case['limits']:
            pages, count = a.list(0, 0, coll, limit)
            best = max(best, pages)
    # a cursor from before a change still continues in order
    if case['drop'] is not None:
        coll, limit = case['colls'][0], case['limits'][0] or 50
        r = web.get(w, 'com.atproto.repo.listRecords', repo=DIDS[0], collection=coll, limit=limit)
        eq(r.error, None, 'listRecords')
        cursor = r.json.get('cursor')
        if cursor is not None:
            seen = [x['uri'].removeprefix(f'at://{DIDS[0]}/') for x in r.json['records']]
            ps = a.paths(0, coll)
            victim = ps[case['drop'] % len(ps)]
            w.commit(0, [('delete', victim, None)])
            while cursor is not None:
                r = web.get(w, 'com.atproto.repo.listRecords', repo=DIDS[0], collection=coll, limit=limit, cursor=cursor)
                eq(r.error, None, f'listRecords cursor {cursor} after deleting {victim}: {r}')
                seen += [x['uri'].removeprefix(f'at://{DIDS[0]}/') for x in r.json['records']]
                check(len(seen) <= len(ps) + 1, 'paging does not end after deleting %s', victim)
                cursor = r.json.get('cursor')
            eq([p for p in seen if p != victim], [p for p in ps if p != victim], f'pages around the deletion of {victim}')
            ctx.label('deletion between pages')
    ctx.label(case['storage'])
    ctx.nontrivial(best >= 3 and len({p[1].split('/')[0] for p in writes}) >= 2)


def field(x):
    """Names that the JSON form can hold."""
    return x not in ('$link', '$bytes', '/')


jname = values.name.filter(field)
jvalue = st.recursive(values.scalar, lambda c: st.one_of(
    st.lists(c, max_size=4), st.dictionaries(jname.filter(lambda n: n != '$type'), c, max_size=4).map(lambda d: {'/d': d})), max_leaves=8)
rec = st.one_of(
    st.dictionaries(jname.filter(lambda n: n != '$type'), jvalue, min_size=1, max_size=5).map(lambda d: {'/d': d}),
    st.builds(lambda t, d: {'/d': {'$type': t, **d}}, st.sampled_from(COLLS),
              st.dictionaries(jname.filter(lambda n: n != '$type'), jvalue, max_size=4)),
    st.integers(0, 3).map(lambda n: {'n': n}), st.sampled_from(VALID + INVALID))
coll = st.sampled_from(COLLS[:3] * 2 + COLLS)
rkey = st.one_of(st.sampled_from(RKEYS), st.text('ab.-_~:09Z', min_size=1, max_size=6).filter(lambda s: s not in ('.', '..')))
rk = st.one_of(rkey, rkey, rkey, rkey, rkey, st.sampled_from(BAD_RKEYS))
idx = st.integers(0, 40)
have = st.one_of(st.none(), idx)
R, BY = st.integers(0, 2), st.integers(0, 1)
op = st.one_of(
    st.tuples(st.just('create'), R, BY, coll, st.one_of(st.none(), rk), rec),
    st.tuples(st.just('create'), R, BY, coll, st.one_of(st.none(), rkey), rec),
    st.tuples(st.just('put'), R, BY, coll, rk, rec, have), st.tuples(st.just('put'), R, BY, coll, rkey, rec, have),
    st.tuples(st.just('swap'), R, BY, coll, rkey, idx, st.sampled_from(['createRecord', 'putRecord', 'deleteRecord']),
              st.sampled_from(['swapCommit', 'swapRecord'])),
    st.tuples(st.just('delete'), R, BY, coll, rk, have), st.tuples(st.just('delete'), R, BY, coll, rkey, idx),
    st.tuples(st.just('get'), R, BY, coll, rk, have), st.tuples(st.just('list'), R, BY, coll, st.sampled_from([None, 1, 2, 3, 5, 100])),
    st.tuples(st.just('odd'), R, BY, coll, st.integers(0, 1)),
    st.tuples(st.just('describe'), R, BY)).map(list)

CHECK = Check('P18', 'an overwrite or deletion of an existing record and two records left at the end; or a collection listed in three '
              'pages or more, next to records in another collection', [
    Test('history', st.fixed_dictionaries({'storage': world.backend, 'repos': st.integers(1, 3), 'clock': st.sampled_from([None, None, 0, 5000]), 'seed': st.lists(st.integers(0, 2**28 - 1), min_size=1, max_size=3), 'ops': st.lists(op, min_size=3, max_size=14),
        'limit': st.sampled_from([1, 2, 3, None]), 'deferred': st.sampled_from([0, 0, 1]),
        'supported': st.one_of(st.none(), st.none(), st.lists(st.sampled_from(COLLS[:4]), min_size=1, max_size=3, unique=True))}), history, 550),
    Test('paging', st.fixed_dictionaries({'storage': world.backend, 'repos': st.just(1), 'deferred': st.sampled_from([0, 1, 3]),
        'paths': st.lists(st.tuples(st.sampled_from(COLLS[:4]), rkey).map(list), min_size=1, max_size=10), 'mask': st.integers(0, 2**45 - 1),
        'colls': st.lists(st.sampled_from(COLLS[:4]), min_size=1, max_size=2), 'limits': st.lists(st.sampled_from([1, 2, 3, 4, 7, None]), min_size=1, max_size=2),
        'drop': st.one_of(st.none(), idx)}), paging, 250),
])
