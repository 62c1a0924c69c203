"""Privileged API calls require the token."""
import os
from datetime import datetime, timedelta, timezone
from hypothesis import strategies as st
import dag_cbor
import webutil.util
from vlib import world, web, imports, carutil
from vlib.core import Check, Test, eq, check, HarnessError
from vlib.mstref import cid_of
from vlib.world import World, b32, DIDS, KEYS
from vlib.worldutil import stored
from arroba import server, util, xrpc_sync

COLL = 'app.x.y'


def setting(ctx, name, value):
    """An environment variable; web.setup restores it."""
    if value is None:
        os.environ.pop(name, None)
    else:
        os.environ[name] = value


def alter(right, how, n):
    """Something like the right token but another token."""
    if how == 'drop':
        n %= len(right)
        return right[:n] + right[n + 1:]
    if how == 'prefix':
        return right[:n % len(right)]
    if how == 'suffix':
        return right[1 + n % len(right):]
    if how == 'append':
        return right + 'x0.=-_~'[n % 7]
    if how == 'prepend':
        return 'x0.=-_~'[n % 7] + right
    if how == 'swapcase':
        return right.swapcase()
    if how == 'change':
        n %= len(right)
        return right[:n] + ('x' if right[n] != 'x' else 'y') + right[n + 1:]
    if how == 'twice':
        return right + right
    if how == 'reverse':
        return right[::-1]
    if how == 'comma':
        return right + ',' + right
    if how == 'password':
        return 'passw0rd'
    if how == 'other':
        return ['None', 'null', 'undefined', 'token', 'true', '0', '*', '%s', '{token}', '.*'][n % 10]
    if how == 'empty':
        return ''
    if how == 'space':
        return [right + ' ', ' ' + right, right + '\n', right + '\t', '\u00a0' + right][n % 5]
    raise HarnessError(how)


HOWS = ['drop', 'prefix', 'suffix', 'append', 'prepend', 'swapcase', 'change', 'twice', 'reverse', 'comma', 'password', 'other', 'empty']


def header(right, spec):
    """(headers, whether it is the right one). None if by chance neither right nor clearly wrong."""
    kind, how, n = spec
    if kind == 'none':
        return {}, False
    if kind == 'right':
        return {'Authorization': f'Bearer {right}'}, True
    if kind == 'altered':
        t = alter(right, how, n)
        return {'Authorization': f'Bearer {t}'}, t == right
    if kind == 'raw':
        return {'Authorization': ['', 'Bearer', 'Bearer ', 'Bearer  ', 'Basic ' + right, 'Digest ' + right, 'BearerX ' + right,
                                  'Bearer: ' + right, 'Bearer,' + right, 'x Bearer ' + right, f'Bearer "{right}"', 'Token ' + right][n % 12]}, False
    if kind == 'elsewhere':
        return {['X-Authorization', 'Cookie', 'Proxy-Authorization', 'Token', 'X-Api-Key'][n % 5]: f'Bearer {right}'}, False
    raise HarnessError(kind)


def call(w, docs, method, headers, n):
    """(response, what to check if it was served)"""
    m = w.repos[0]
    post = lambda name, body: web.post(w, f'com.atproto.{name}', body, headers=headers)
    if method in ('createRecord', 'putRecord'):
        rec = {'n': n}
        r = post(f'repo.{method}', {'repo': m.did, 'collection': COLL, 'rkey': 'new', 'record': rec})
        def served():
            m.contents[f'{COLL}/new'] = rec
            return {'uri': f'at://{m.did}/{COLL}/new', 'cid': b32(cid_of(dag_cbor.encode(rec)))}
        return r, served
    if method == 'putExisting':
        rec = {'n': 100 + n}
        r = post('repo.putRecord', {'repo': m.handle, 'collection': COLL, 'rkey': 'old', 'record': rec})
        def served():
            m.contents[f'{COLL}/old'] = rec
        return r, served
    if method in ('deleteRecord', 'deleteMissing'):
        key = 'old' if method == 'deleteRecord' else 'none'
        r = post('repo.deleteRecord', {'repo': m.did, 'collection': COLL, 'rkey': key})
        return r, lambda: m.contents.pop(f'{COLL}/{key}', None) and None
    if method == 'importRepo':
        did, handle, key = 'did:web:imported.com', 'imp.com', KEYS[3]
        contents = {f'{COLL}/self': {'n': n}}
        head, blocks = imports.archive(did, key, contents)
        docs.put(did, key, handle)
        r = web.post(w, 'com.atproto.repo.importRepo', data=imports.car_bytes(head, blocks), headers=headers)
        def served():
            with w.request():
                repo = w.storage.load_repo(did)
            check(repo is not None, 'importRepo succeeded but the repo is not there')
            eq(w.contents_of(repo), contents, 'contents of the imported repo')
        return r, served
    if method == 'getSession':
        return web.get(w, 'com.atproto.server.getSession', headers=headers), lambda: {'did': m.did, 'handle': m.handle}
    if method == 'refreshSession':
        return web.post(w, 'com.atproto.server.refreshSession', None, headers=headers) , lambda: {'did': m.did, 'handle': m.handle}
    if method == 'applyWrites':
        return post('repo.applyWrites', {'repo': m.did, 'writes': [
            {'$type': 'com.atproto.repo.applyWrites#create', 'collection': COLL, 'rkey': 'aw', 'value': {'n': n}}]}), None
    if method == 'uploadBlob':
        return web.post(w, 'com.atproto.repo.uploadBlob', data=b'blob', type='image/png', headers=headers), None
    raise HarnessError(method)


METHODS = ['createRecord', 'putRecord', 'putExisting', 'deleteRecord', 'deleteMissing', 'importRepo', 'getSession', 'refreshSession',
           'applyWrites', 'uploadBlob']


def start(case, ctx):
    web.setup(ctx)
    w = World(case['storage'], ctx, 'request')
    for i in range(2):
        w.create(i)
        w.commit(i, [('create', f'{COLL}/old', {'n': 1})])
    # like app.py, for the session methods
    had = getattr(server, 'repo', None)
    server.repo = w.load(0)
    ctx.cleanup(lambda: setattr(server, 'repo', had) if had else delattr(server, 'repo'))
    return w


def calls(case, ctx):
    w = start(case, ctx)
    docs = imports.Docs(ctx)
    token = case['token']
    served_any = refused_any = False
    for config, spec, method, n in case['calls']:
        setting(ctx, 'REPO_TOKEN', {'set': token, 'unset': None, 'empty': ''}[config])
        headers, right = header(token, spec)
        right = right and config == 'set'
        what = f'{method} with {headers}, token {config}'
        with w.request():
            if method == 'importRepo' and w.storage.load_repo('did:web:imported.com'):
                continue
        snap, seq = stored(w), w.last_seq()
        r, served = call(w, docs, method, headers, n)
        if right:
            if served is None:
                continue        # not implemented
            eq(r.error, None, f'{what}: {r}')
            want = served()
            for k, v in (want or {}).items():
                eq(r.json.get(k), v, f'{what}: {k}')
            served_any = True
            ctx.label('served ' + method)
        else:
            check(r.error is not None, '%s was served: %s', what, r)
            check(400 <= r.status < 500 or r.status == 501, '%s: %s', what, r)
            check(stored(w) == snap, '%s was refused but changed stored state', what)
            eq(w.last_seq(), seq, f'sequence after {what} was refused')
            if len(token) > 8 and token not in str(headers):
                check(token.encode() not in r.body, '%s: the answer has the token', what)
            refused_any = True
            ctx.label('refused ' + method, f'token {config}', spec[0])
        w.handles[0] = w.load(0)
        for i in (0, 1):
            eq(w.contents_of(w.load(i)), w.repos[i].contents, f'contents of {DIDS[i]} after {what}')
    ctx.nontrivial(refused_any)


def session(case, ctx):
    w = start(case, ctx)
    token, password = case['token'], case['password']
    for config, who, how, n in case['tries']:
        setting(ctx, 'REPO_TOKEN', token)
        setting(ctx, 'REPO_PASSWORD', {'set': password, 'unset': None, 'empty': ''}[config])
        given = password if how == 'right' else token if how == 'token' else alter(password, how, n)
        m = w.repos[who % 2]
        known = who < 4
        ident = [m.did, m.did, m.handle, m.handle, 'did:web:nobody.com', 'nobody.com', 'did:plc:bbbbbbbbbbbbbbbbbbbbbbbb'][who]
        snap = stored(w)
        r = web.post(w, 'com.atproto.server.createSession', {'identifier': ident, 'password': given}, headers={})
        what = f'createSession as {ident!r} with password {given!r}, which is {config}'
        if config == 'set' and given == password and known:
            eq(r.error, None, f'{what}: {r}')
            eq(r.json, {'did': m.did, 'handle': m.handle, 'accessJwt': r.json['accessJwt'], 'refreshJwt': r.json['refreshJwt']}, what)
            for t in r.json['accessJwt'], r.json['refreshJwt']:
                s = web.get(w, 'com.atproto.server.getSession', headers={'Authorization': f'Bearer {t}'})
                eq(s.error, None, f'getSession with the token from {what}: {s}')
            ctx.label('granted')
        else:
            check(r.error is not None, '%s was granted: %s', what, r)
            check(400 <= r.status < 500 or r.status == 501, '%s: %s', what, r)
            check(token.encode() not in r.body, '%s was refused, but the answer has the token', what)
            ctx.nontrivial(known)
            ctx.label('refused')
        check(stored(w) == snap, '%s changed stored state', what)


AGES = [0, 60, 3600, 11 * 3600, 12 * 3600 - 120, 12 * 3600 + 120, 13 * 3600, 86400, 400 * 86400]


def export(case, ctx):
    w = start({'storage': 'ds'}, ctx)
    if not hasattr(util, 'DISABLE_GETREPO') or not hasattr(util, 'GETREPO_TOKEN'):
        return
    olds = util.DISABLE_GETREPO, util.GETREPO_TOKEN, webutil.util.now
    def undo():
        util.DISABLE_GETREPO, util.GETREPO_TOKEN, webutil.util.now = olds
    ctx.cleanup(undo)
    right = case['token']
    setting(ctx, 'REPO_TOKEN', 'the-repo-token')
    for age, disabled, config, spec, internal, who, method in case['tries']:
        util.DISABLE_GETREPO = disabled
        util.GETREPO_TOKEN = {'set': right, 'unset': None, 'empty': ''}[config]
        webutil.util.now = lambda tz=timezone.utc, **kw: datetime.now(tz) + timedelta(seconds=age)
        headers, ok = header(right, spec) if spec != 'repo token' else ({'Authorization': 'Bearer the-repo-token'}, False)
        if spec != 'repo token' and headers.get('Authorization', '').strip() == right:
            continue
        ok = ok and config == 'set'
        m = w.repos[who]
        if method == 'in process':
            # another part of the same server, not an API client
            with w.request():
                try:
                    body = xrpc_sync.get_repo({}, did=m.did, internal=True)
                    body = body if isinstance(body, bytes) else b''.join(body)
                except Exception as e:
                    check(False, 'in-process export of a repo %ss old, export %sabled: %r', age, 'dis' if disabled else 'en', e)
            carutil.closure(dict(carutil.parse(body, method)[1]), carutil.parse(body, method)[0][0], method)
            ctx.label(method)
            continue
        params = {'did': m.did, **({'internal': internal} if internal else {})}
        r = web.get(w, f'com.atproto.sync.{method}', headers=headers, **params)
        what = f'{method} of a repo {age}s old, export {"dis" if disabled else "en"}abled, export token {config}, {headers} {params}'
        old = age > 12 * 3600
        if disabled and old and not ok:
            check(r.error is not None, '%s was served', what)
            check(400 <= r.status < 600, '%s: %s', what, r.status)
            ctx.label('refused')
            ctx.nontrivial(True)
        else:
            eq(r.error, None, f'{what}: {r}')
            roots, got = carutil.parse(r.body, what)
            eq([b32(c) for c in roots], [b32(m.commits[-1]['cid'])], f'{what}: root')
            eq(carutil.closure(dict(got), roots[0], what)[1], m.entries, what)
            ctx.label('old, with the token' if disabled and old else 'young' if disabled else 'not limited')


tok = st.one_of(st.sampled_from(['towkin', 'a-long-secret', 'a', 'Bearer', 'x y', 'abc.def-ghi_~=']), st.text('abcXYZ019.-_~+/=', min_size=1, max_size=12))
spec = st.tuples(st.sampled_from(['none', 'right', 'right', 'altered', 'altered', 'altered', 'raw', 'elsewhere']), st.sampled_from(HOWS), st.integers(0, 30)).map(list)
config = st.sampled_from(['set'] * 5 + ['unset', 'empty'])

CHECK = Check('P19', 'at least one call or login that has to be refused, or an old export that has to be', [
    Test('calls', st.fixed_dictionaries({'storage': world.backend, 'token': tok,
        'calls': st.lists(st.tuples(config, spec, st.sampled_from(METHODS), st.integers(0, 3)).map(list), min_size=1, max_size=8)}), calls, 500),
    Test('session', st.fixed_dictionaries({'storage': world.backend, 'token': st.just('the-very-secret-token'), 'password': tok.filter(lambda t: 'token' not in t),
        'tries': st.lists(st.tuples(config, st.integers(0, 6), st.sampled_from(['right', 'right', 'token', 'space', 'space'] + HOWS), st.integers(0, 30)).map(list), min_size=1, max_size=6)}), session, 300),
    Test('export', st.fixed_dictionaries({'token': tok,
        'tries': st.lists(st.tuples(st.sampled_from(AGES), st.booleans() | st.just(True), st.sampled_from(['set', 'set', 'unset', 'empty']),
            spec | st.just('repo token'), st.sampled_from([None, None, 'true', '1']), st.integers(0, 1), st.sampled_from(['getRepo', 'getRepo', 'getCheckout', 'getCheckout', 'in process'])).map(list),
            min_size=1, max_size=8)}), export, 250),
])
