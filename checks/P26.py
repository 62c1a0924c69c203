"""Repos are found and listed consistently, with keys protected."""
import base64, re
from cryptography.hazmat.primitives import serialization
from hypothesis import strategies as st
from lexrpc.base import XrpcError
from vlib.core import Check, Test, check, eq, Violation
from vlib import imports, web, world
from vlib.world import KEYS, Repo, RepoModel, World, b32, record, rev_of
from arroba import server


def did_of(n, tail):
    """Arbitrary DIDs, many of them prefixes of each other and out of length order."""
    return ('did:web:' if n else 'did:plc:') + tail


def scalar(key):
    return key.private_numbers().private_value if key else None


def leaks(fake, keys):
    """Pieces of private keys in what the backend stores."""
    needles = set()
    for k in keys:
        for fmt in serialization.PrivateFormat.PKCS8, serialization.PrivateFormat.TraditionalOpenSSL:
            der = k.private_bytes(serialization.Encoding.DER, fmt, serialization.NoEncryption())
            pem = k.private_bytes(serialization.Encoding.PEM, fmt, serialization.NoEncryption())
            needles |= {der, pem, *[l for l in pem.splitlines() if len(l) > 30]}
        raw = scalar(k).to_bytes(32, 'big')
        # KEYS have small scalars: a run of zeros and a byte is no key, so look for their encodings
        needles |= {raw, raw.hex().encode(), base64.b64encode(raw), base64.urlsafe_b64encode(raw), raw[::-1]}
    out = []
    for path, (version, data) in fake.data.items():
        out += [(path, n[:20]) for n in needles if n in data]
        if b'PRIVATE KEY' in data:
            out.append((path, 'PEM header'))
    return out


def key(n):
    from cryptography.hazmat.primitives.asymmetric import ec
    return ec.derive_private_key(0x1234567890abcdef1234567890abcdef1234567890abcdef1234567890abcdef + n * 7919, ec.SECP256K1())


def history(case, ctx):
    web.setup(ctx)
    w = World(case['storage'], ctx, case['context'] if case['storage'] == 'ds' else 'none')
    if w.fake:
        w.fake.batch = case['batch']
        if w.context == 'none':
            w.context = 'request'
    docs = imports.Docs(ctx)
    used = {}           # handle -> repo index
    keys = {}
    imported = changed = 0

    def free(h, i):
        return h is None or used.get(h, i) == i

    for op in case['ops']:
        did = did_of(*case['dids'][op[1] % len(case['dids'])])
        i = op[1] % len(case['dids'])
        if op[0] == 'create':
            h = HANDLES[op[2]]
            if i in w.repos or not free(h, i) or any(m.did == did for m in w.repos.values()):
                continue
            sk, rk = key(i), key(i + 50) if op[3] else None
            m = RepoModel(did, sk, h)
            before = w.last_seq()
            with w.request():
                r = Repo.create(w.storage, did, signing_key=sk, rotation_key=rk, handle=h)
            w.repos[i], w.handles[i], w.others[i] = m, r, []
            w.committed(i, r.head, [], before + 1)
            keys[i] = (sk, rk)
            if h: used[h] = i
        elif op[0] == 'import':
            h = HANDLES[op[2]]
            if i in w.repos or not free(h, i) or any(m.did == did for m in w.repos.values()) or not did.startswith('did:plc:'):
                continue
            contents = {p: record(n) for p, n in op[3]}
            imports.do_import(w, docs, i, contents, did, h)
            r = w.handles[i]
            check(r.signing_key is not None and r.rotation_key is not None, 'imported repo lacks keys')
            known = [scalar(k) for ks in keys.values() for k in ks if k]
            check(len({scalar(r.signing_key), scalar(r.rotation_key), *known}) == 2 + len(set(known)), 'keys of the imported repo are in use elsewhere')
            keys[i] = (r.signing_key, r.rotation_key)
            if h: used[h] = i
            imported += 1
        elif i not in w.repos:
            continue
        elif op[0] == 'commit':
            if w.repos[i].status is None:
                w.commit(i, w.resolve(i, op[2]), w.load(i, callback=False))
        elif op[0] == 'status':
            if w.repos[i].status != 'tombstoned':
                w.set_status(i, op[2], w.load(i, callback=False))
                w.handles[i] = w.load(i)
        elif op[0] == 'handle':
            h = HANDLES[op[2]]
            if free(h, i):
                with w.request():
                    r = w.storage.load_repo(did)
                    r.handle = h
                    w.storage.store_repo(r)
                used = {k: v for k, v in used.items() if v != i}
                if h: used[h] = i
                w.repos[i].handle = h
                changed += 1
        elif op[0] == 'recreate':     # create_repo of an existing repo updates it
            with w.request():
                w.storage.create_repo(w.storage.load_repo(did))

    by_did = {m.did: i for i, m in w.repos.items()}

    def judge(r, i, what):
        m = w.repos[i]
        w.judge_repo(i, r, what)
        eq(r.handle, m.handle, f'{what}: handle')
        eq((scalar(r.signing_key), scalar(r.rotation_key)), tuple(map(scalar, keys[i])), f'{what}: keys')
        eq(r.head.decoded, {**r.head.decoded, 'did': m.did, 'data': m.commits[-1]['data']}, f'{what}: head')

    def look(name, want, what):
        with w.request():
            got = w.storage.load_repo(name) if not name.startswith('at://') else None
        if not name.startswith('at://'):
            if want is None:
                check(got is None, '%s: found %s', what, got and got.did)
            else:
                judge(got, want, what)
        err = None
        with w.request():
            try:
                got = server.load_repo(name)
            except XrpcError as e:
                err = e.name
        if want is None:
            eq(err, 'RepoNotFound', f'server lookup, {what}')
        elif w.repos[want].status:
            eq(err, 'RepoDeactivated', f'server lookup of inactive, {what}')
        else:
            eq(err, None, f'server lookup, {what}')
            judge(got, want, what)

    for i, m in w.repos.items():
        names = [m.did] + ([m.handle] if m.handle else [])
        for n in names:
            look(n, i, f'lookup of {n}')
            for uri in f'at://{n}/app.x.y/abc', f'at://{n}', f'at://{n}/app.x.y':
                look(uri, i, f'lookup of {uri}')
    missing = 0
    for m in list(w.repos.values())[:3]:
        for n in (m.did[:-1], m.did + 'a', m.did.split(':', 2)[2], m.did.upper(), f'at://{m.did}a/app.x.y/abc', f'at:{m.did}', f'at:/{m.did}', m.handle and m.handle + 'm',
                  m.handle and m.handle[:-1], m.handle and '@' + m.handle, m.handle and 'x.' + m.handle, b32(m.commits[-1]['cid'])):
            if n and n not in by_did and n not in used and n.removeprefix('at://').partition('/')[0] not in by_did:
                look(n, None, f'lookup of {n}')
                missing += 1
    for h in HANDLES:
        if h and h not in used and h not in by_did:
            look(h, None, f'lookup of unused handle {h}')

    # listing
    order = sorted(by_did)
    want = []
    for did in order:
        m = w.repos[by_did[did]]
        status = {None: None, 'deactivated': 'deactivated', 'tombstoned': 'deactivated'}[m.status]
        with w.request():
            rev = w.storage.read(m.commits[-1]['cid']).decoded['rev']
        want.append((did, b32(m.commits[-1]['cid']), rev, m.status is None, status))
        if m.commits[-1]['seq']:
            eq(rev, rev_of(m.commits[-1]['seq']), 'rev')
    for limit in case['limits']:
        got, cursor, pages = [], None, 0
        while True:
            r = web.get(w, 'com.atproto.sync.listRepos', limit=limit, **({'cursor': cursor} if cursor else {}))
            eq(r.status, 200, f'listRepos: {r}')
            page = r.json['repos']
            check(len(page) <= limit, 'page of %s repos for limit %s', len(page), limit)
            got += [(x['did'], x['head'], x['rev'], x['active'], x.get('status')) for x in page]
            cursor = r.json.get('cursor')
            pages += 1
            check(pages <= len(order) + 2, 'listRepos never ends: %s', got)
            if not cursor:
                break
        eq(got, want, f'listRepos with limit {limit}')
        for after in [None] + order[:2] + ['did:web:', 'did:plc:zzz']:
            exp = [d for d in order if not after or d > after][:limit]
            with w.request():
                rs = w.storage.load_repos(after=after, limit=limit)
                mini = w.storage.load_repos(after=after, limit=limit, minimal=True)
            eq([r.did for r in rs], exp, f'load_repos after {after} limit {limit}')
            for r, d in zip(rs, exp):
                judge(r, by_did[d], f'load_repos: {d}')
            eq([(r.head.cid, r.status) for r in mini], [(w.repos[by_did[d]].commits[-1]['cid'], w.repos[by_did[d]].status) for d in exp], 'minimal load_repos')
    if w.fake:
        found = leaks(w.fake, [k for ks in keys.values() for k in ks if k])
        check(not found, 'private key material stored in the clear: %s', found)
    ctx.nontrivial(len(w.repos) >= 2 and (changed or imported or any(m.status for m in w.repos.values())))
    ctx.label(case['storage'], f'{min(len(w.repos), 5)} repos')
    if imported: ctx.label('imported')
    if changed: ctx.label('handle changed')


HANDLES = ['alice.com', 'b.alice.com', 'alice.co', 'bob-1.x.org', 'a.com', 'Mixed.Case.com', None, None]
tail = st.one_of(st.text('ab2', min_size=1, max_size=5),
                 st.builds(lambda a, b: a + b, st.sampled_from(['alice.com', 'alice', 'a-b.c', 'x_y', 'h%3A80', 'a:b']), st.text('ab.z', max_size=2)).filter(lambda s: s[-1] not in ':%'))
i = st.integers(0, 6)
OP = st.one_of(
    st.tuples(st.just('create'), i, st.integers(0, 7), st.integers(0, 1)),
    st.tuples(st.just('create'), i, st.integers(0, 7), st.integers(0, 1)),
    st.tuples(st.just('create'), i, st.integers(0, 7), st.just(1)),
    st.tuples(st.just('import'), i, st.integers(0, 7), st.lists(st.tuples(st.sampled_from(world.paths()), st.integers(0, 4)).map(list), max_size=4)),
    st.tuples(st.just('commit'), i, world.writes(3)),
    st.tuples(st.just('status'), i, st.sampled_from(['deactivate', 'tombstone', 'activate'])),
    st.tuples(st.just('handle'), i, st.integers(0, 7)),
    st.tuples(st.just('recreate'), i),
).map(list)

CHECK = Check('P26', 'at least two repos, one of them imported, inactive or with its handle changed', [
    Test('history', st.fixed_dictionaries({
        'storage': world.backend, 'context': st.sampled_from(['request', 'nocache']), 'batch': st.sampled_from([1, 2, 300]),
        'dids': st.lists(st.tuples(st.integers(0, 1), tail).map(list), min_size=3, max_size=7, unique_by=tuple),
        'ops': st.lists(OP, min_size=4, max_size=14), 'limits': st.lists(st.integers(1, 8), min_size=1, max_size=2)}), history, 500),
])
