"""Repo exports are complete and import back faithfully."""
import random
import dag_cbor
from hypothesis import strategies as st
from arroba import server
from vlib.core import Check, Test, check, eq, Violation
from vlib import gen, carutil, gen, imports, web, world
from vlib.log import Log
from vlib.mstref import Ref, cid_of
from vlib.world import DIDS, KEYS, K1N, RepoModel, World, b32, record, rev_of, verify
from vlib.worldutil import stored

EXPORT = ['com.atproto.sync.getRepo', 'com.atproto.sync.getRepo', 'com.atproto.sync.getCheckout']


def reachable(m):
    """{CID: bytes} of everything reachable from the model's head, except the commit itself."""
    out = dict(Ref(m.entries).blocks)
    for r in m.contents.values():
        enc = dag_cbor.encode(r)
        out[cid_of(enc)] = enc
    return out


def export(w, i, nsid=EXPORT[0], **params):
    r = web.get(w, nsid, did=w.repos[i].did, **params)
    eq(r.error, None, f'{nsid} of repo {i}: {r}')
    return r.body


def judge_export(w, i, data, what, since=None, seen=None):
    m = w.repos[i]
    head = m.commits[-1]['cid']
    roots, blocks = carutil.parse(data, what)
    eq([b32(r) for r in roots], [b32(head)], f'{what}: root')
    got = dict(blocks)
    want = reachable(m)
    extra = set(got) - set(want) - {head}
    check(not extra, '%s: has blocks outside the repo: %s', what, [b32(c) for c in extra])
    check(head in got, '%s: lacks the head commit', what)
    if since is None:
        missing = set(want) - set(got)
        check(not missing, '%s: lacks %s', what, [b32(c) for c in missing])
        commit, entries, _ = carutil.closure(got, head, what)
        eq(entries, m.entries, f'{what}: entries')
    else:
        need = {c for c in want if seen[c][0] >= since}
        missing = need - set(got)
        check(not missing, '%s: lacks %s, first written since', what, [b32(c) for c in missing])
        commit = dag_cbor.decode(got[head])
    eq((commit['did'], commit['version'], commit['data']), (m.did, 3, m.commits[-1]['data']), f'{what}: head')
    # an imported repo's head is still the one its old server signed
    key = m.key if m.commits[-1]['seq'] else KEYS[i]
    check(verify(commit, key.public_key()), '%s: signature does not verify', what)
    return len(got)


def run(w, log, ops):
    """A history over three repos, including imports at the very start."""
    for op in ops:
        i = op[1] % 3
        if op[0] == 'import':
            if i not in w.repos:
                log.imported(i, {p: record(n) for p, n in op[2]})
                log.status(i, 'activate')
                w.handles[i] = w.load(i)
            continue
        if i not in w.repos:
            log.create(i)
        if op[0] == 'commit':
            log.commit(i, op[2])
        elif op[0] == 'status':
            log.status(i, 'deactivate')
            log.status(i, 'activate')


def exports(case, ctx):
    web.setup(ctx)
    w = World(case['storage'], ctx, 'request')
    docs = imports.Docs(ctx)
    log = Log(w, ctx, docs)
    if w.fake:
        w.fake.lookup_max = case['deferred'] or None
    run(w, log, case['imports'])
    half = len(case['ops']) // 2
    for part in case['ops'][:half], case['ops'][half:]:
        run(w, log, part)
        for i in w.repos:
            judge_export(w, i, export(w, i, EXPORT[len(case['ops']) % 3]), f'export of repo {i}')
    partial = 0
    for i, m in w.repos.items():
        seqs = {c['seq'] for c in m.commits if c['seq']} | {s % (w.last_seq() + 2) for s in case['since']}
        for s in sorted(seqs):
            n = judge_export(w, i, export(w, i, since=rev_of(s)), f'export of repo {i} since {s}', since=s, seen=log.seen)
            partial += 1 < n < len(reachable(m)) + 1
    if len(w.repos):
        r = web.get(w, EXPORT[0], did='did:web:nobody.com')
        eq(r.error, 'RepoNotFound', 'export of an unknown repo')
    ctx.nontrivial(any(len(reachable(m)) > 3 for m in w.repos.values()))
    ctx.label(case['storage'])
    if partial: ctx.label('partial export')
    if log.stats['shared']: ctx.label('shared records')
    if log.stats['imports']: ctx.label('imported')


def since(case, ctx):
    """A repo with several layers, edited in scattered places, exported since many of its revisions."""
    web.setup(ctx)
    w = World(case['storage'], ctx, 'request')
    log = Log(w, ctx)
    log.create(0)
    by = gen.pool_by_layer()
    pool = sorted(k for l in sorted(by) for k in by[l][case['start']:case['start'] + (120 if l < 2 else 60)])
    keys = pool[::case['stride']]
    for n in range(0, len(keys), 60):
        log.commit(0, [['put', k, j % 5] for j, k in enumerate(keys[n:n + 60])])
    for edit in case['edits']:
        log.commit(0, [['put', pool[n % len(pool)], 9 + n % 50] if n % 4 else ['del', n] for n in edit])
    m = w.repos[0]
    full = len(reachable(m)) + 1
    judge_export(w, 0, export(w, 0), 'export')
    last, partial = w.last_seq(), 0
    for s in sorted({last, last - 1} | {last - n % len(m.commits) for n in case['since']}):
        n = judge_export(w, 0, export(w, 0, since=rev_of(s)), f'export since {s}', since=s, seen=log.seen)
        partial += 4 < n < full
    ctx.nontrivial(partial >= 2 and full > 60)
    ctx.label(case['storage'])


def roundtrip(case, ctx):
    """Export from one server, import into another, activate, keep writing, export again."""
    web.setup(ctx)
    a = World(case['from'], ctx, 'request')
    log = Log(a, ctx)
    log.create(1)
    log.create(0)
    for op in case['ops']:
        log.commit(op[1] % 2, op[2])
    m = a.repos[0]
    data = export(a, 0)
    if case['shuffle'] is not None:
        roots, blocks = carutil.parse(data)
        random.Random(case['shuffle']).shuffle(blocks)
        data = imports.car_bytes(roots[0], dict(blocks))

    b = World(case['to'], ctx, 'request')
    docs = imports.Docs(ctx)
    handle = [None, 'moved.com', 'h0.com'][case['handle']]
    docs.put(m.did, KEYS[0], handle)
    if case['other']:      # the new server has other repos, with some of the same records
        b.create(1)
        b.commit(1, b.resolve(1, case['other']))
    seq = b.last_seq()
    r = web.post(b, 'com.atproto.repo.importRepo', data=data)
    eq(r.error, None, f'import of an exported repo: {r}')
    eq(b.last_seq(), seq, 'sequence after an import')
    n = RepoModel(m.did, None, handle)
    n.contents, n.status, n.commits = dict(m.contents), 'deactivated', [dict(m.commits[-1], seq=0, prev=m.commits[-1]['prev'])]
    b.repos[0], b.others[0] = n, []
    repo = b.load(0)
    b.handles[0] = repo
    b.judge_repo(0, repo, 'imported repo')
    eq(repo.handle, handle, 'handle of the imported repo')
    n.key = repo.signing_key
    with b.request():
        try:
            b.storage.commit(repo, [])
        except world.InactiveRepo:
            pass
        else:
            raise Violation('the imported repo is writable before it is activated')
    eq(web.get(b, EXPORT[0], did=m.did).error, 'RepoDeactivated', 'export of an imported repo')
    # a second import of the same repo is refused
    snap = stored(b)
    r = web.post(b, 'com.atproto.repo.importRepo', data=data)
    check(r.error, 'a second import was accepted')
    check(stored(b) == snap, 'a refused second import changed stored state')
    b.set_status(0, 'activate')
    b.handles[0] = b.load(0)
    b.judge_repo(0, b.handles[0], 'activated repo')
    for ws in case['after']:
        b.commit(0, b.resolve(0, ws))
        b.judge_repo(0, b.handles[0], 'imported repo after a commit')
        b.judge_repo(0, b.load(0), 'imported repo after a commit and a fresh load')
    if case['after']:
        judge_export(b, 0, export(b, 0), 'export of an imported repo')
    if case['other']:
        b.judge_repo(1, b.load(1), 'another repo')
    ctx.nontrivial(len(m.contents) > 1)
    ctx.label(f'{case["from"]} to {case["to"]}')


def resign(commit, key, **changes):
    from arroba import util
    c = {**{k: v for k, v in commit.items() if k != 'sig'}, **changes}
    return util.sign(c, key)


def tampered(kind, n, head, blocks, contents, key, did):
    """(roots, [(CID, bytes)]) of the archive with one thing wrong, or None if that makes no difference."""
    commit = dag_cbor.decode(blocks[head])
    rest = {c: b for c, b in blocks.items() if c != head}
    rnd = random.Random(n)
    def with_head(c):
        enc = dag_cbor.encode(c)
        return [cid_of(enc)], [(cid_of(enc), enc)] + list(rest.items())
    if kind == 'signature':
        sig = bytearray(commit['sig'])
        sig[n % 64] ^= 1 << (n // 64 % 8)
        return with_head({**commit, 'sig': bytes(sig)})
    if kind == 'high-s':
        s = K1N - int.from_bytes(commit['sig'][32:], 'big')
        return with_head({**commit, 'sig': commit['sig'][:32] + s.to_bytes(32, 'big')}) if False else None
    if kind == 'no signature':
        return with_head({k: v for k, v in commit.items() if k != 'sig'})
    if kind == 'signature length':
        return with_head({**commit, 'sig': commit['sig'][:-1 - n % 64] if n % 2 else b''})
    if kind == 'other key':
        return with_head(resign(commit, KEYS[4]))
    if kind == 'did':
        return with_head({**commit, 'did': DIDS[(n % 4) + 1] if DIDS[(n % 4) + 1] != did else DIDS[5]})
    if kind == 'did resigned':      # the other DID's document has another key, or there is none
        return with_head(resign(commit, key, did=DIDS[4] if n % 2 else DIDS[5]))
    if kind == 'data':
        other = Ref({**{p: cid_of(dag_cbor.encode(r)) for p, r in contents.items()}, 'app.x.y/evil': cid_of(b'\xa0')})
        rest.update(other.blocks)
        return with_head({**commit, 'data': other.root})
    if kind == 'rev':
        return with_head({**commit, 'rev': rev_of(n)})
    if kind == 'prev':
        return with_head({**commit, 'prev': cid_of(b'\xa0')})
    if kind == 'root':
        others = sorted(rest, key=b32)
        return [others[n % len(others)]], list(blocks.items())
    if kind == 'absent root':
        return [cid_of(dag_cbor.encode({'absent': n}))], list(blocks.items())
    if kind == 'no head':
        return [head], list(rest.items())
    if kind == 'bytes':
        cs = sorted(blocks, key=b32)
        c = cs[n % len(cs)]
        b = bytearray(blocks[c])
        b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
        return [head], [(k, bytes(b) if k == c else v) for k, v in blocks.items()]
    if kind == 'swapped':
        cs = sorted(blocks, key=b32)
        if len(cs) < 2:
            return None
        x, y = rnd.sample(cs, 2)
        return [head], [(k, blocks[y] if k == x else blocks[x] if k == y else v) for k, v in blocks.items()]
    if kind == 'shadow':      # the right block first, then other bytes under the same CID
        cs = sorted(blocks, key=b32)
        c = cs[n % len(cs)]
        return [head], list(blocks.items()) + [(c, dag_cbor.encode({'evil': n}))]
    raise AssertionError(kind)


KINDS = ['signature', 'no signature', 'signature length', 'other key', 'did', 'did resigned', 'data', 'rev', 'prev', 'root',
         'absent root', 'no head', 'bytes', 'swapped', 'shadow', 'exists', 'exists deactivated', 'truncated', 'no document', 'empty roots', 'junk', 'no key']


def tamper(case, ctx):
    web.setup(ctx)
    w = World(case['storage'], ctx, 'request')
    docs = imports.Docs(ctx)
    i, kind, n = case['repo'], case['kind'], case['n']
    did, key = DIDS[i], KEYS[i]
    contents = {p: record(k) for p, k in case['contents']}
    w.create(5)
    head, blocks = imports.archive(did, key, contents)
    docs.put(did, key, 'x.com')
    docs.put(DIDS[4], KEYS[7], 'y.com')
    if kind.startswith('exists'):
        w.create(i)
        if kind == 'exists deactivated':
            w.set_status(i, 'deactivate')
        data = imports.car_bytes(head, blocks)
    elif kind == 'truncated':
        data = imports.car_bytes(head, blocks)
        # a cut between two blocks is not visible in the format; cut inside one
        cut = len(data) - 1 - n % (len(list(blocks.values())[-1]) - 1)
        data = data[:cut]
    elif kind == 'no document':
        docs.docs.pop(did)
        docs.clear()
        data = imports.car_bytes(head, blocks)
    elif kind == 'no key':       # the document names no key to verify the head's signature with
        doc = docs.docs[did]
        method = doc['verificationMethod'][0]
        if n % 4 == 0: doc['verificationMethod'] = []
        elif n % 4 == 1: method['id'] = f'{did}#other'
        elif n % 4 == 2: del method['publicKeyMultibase']
        else: del doc['verificationMethod']
        docs.clear()
        data = imports.car_bytes(head, blocks)
    elif kind == 'empty roots':
        from carbox import car
        data = car.write_car([], [car.Block(c, b) for c, b in blocks.items()])
    elif kind == 'junk':
        data = bytes(random.Random(n).randrange(256) for _ in range(n % 60 + 1))
    else:
        made = tampered(kind, n, head, blocks, contents, key, did)
        if made is None:
            return
        from carbox import car
        data = car.write_car(made[0], [car.Block(c, b) for c, b in made[1]])
    snap = stored(w)
    seq = w.last_seq()
    with w.request():
        repos = [(r.did, r.head.cid, r.status) for r in w.storage.load_repos()]
    try:
        r = web.post(w, 'com.atproto.repo.importRepo', data=data)
        err = r.error
    except Exception as e:       # not answered as an error, but not accepted either
        err = f'{type(e).__name__}: {e}'
    check(err, 'an archive with %s altered was imported', kind)
    with w.request():
        eq([(r.did, r.head.cid, r.status) for r in w.storage.load_repos()], repos, f'repos after a refused import ({kind})')
        if not kind.startswith('exists'):
            eq(w.storage.load_repo(did), None, f'repo left behind by a refused import ({kind})')
    check(stored(w) == snap, 'stored state changed by a refused import (%s)', kind)
    eq(w.last_seq(), seq, 'sequence after a refused import')
    if not kind.startswith('exists'):
        # the untouched archive is fine
        docs.put(did, key, 'x.com')
        r = web.post(w, 'com.atproto.repo.importRepo', data=imports.car_bytes(head, blocks))
        eq(r.error, None, f'import of the untouched archive: {r}')
    ctx.nontrivial(True)
    ctx.label(kind, case['storage'])


path_n = st.tuples(st.sampled_from(world.paths()), st.integers(0, 4)).map(list)
IMPORT = st.tuples(st.just('import'), st.integers(0, 2), st.lists(path_n, max_size=8)).map(list)
OP = st.one_of(st.tuples(st.just('commit'), st.integers(0, 2), world.writes(5)), st.tuples(st.just('commit'), st.just(0), world.writes(8)),
               st.tuples(st.just('status'), st.integers(0, 2))).map(list)

CHECK = Check('P16', 'export of a repo with more than 3 blocks; two partial exports of a tree with over 60 blocks; round trip of more than one record; or an altered archive', [
    Test('export', st.fixed_dictionaries({'storage': world.backend, 'imports': st.lists(IMPORT, max_size=2), 'ops': st.lists(OP, min_size=2, max_size=12),
        'since': st.lists(st.integers(0, 40), max_size=3), 'deferred': st.sampled_from([0, 0, 1, 3])}), exports, 300),
    Test('since', st.fixed_dictionaries({'storage': world.backend, 'start': st.integers(0, 40), 'stride': st.integers(1, 5),
        'edits': st.lists(st.lists(st.integers(0, 10**4), min_size=1, max_size=8), min_size=2, max_size=8),
        'since': st.lists(st.integers(0, 30), min_size=1, max_size=4)}), since, 60),
    Test('roundtrip', st.fixed_dictionaries({'from': world.backend, 'to': world.backend, 'ops': st.lists(st.tuples(st.just('commit'), st.integers(0, 2), world.writes(6)).map(list), min_size=1, max_size=5),
        'shuffle': st.one_of(st.none(), st.integers(0, 1000)), 'handle': st.integers(0, 2), 'other': st.one_of(st.just([]), world.writes(4)),
        'after': st.lists(world.writes(4), max_size=3)}), roundtrip, 250),
    Test('tamper', st.fixed_dictionaries({'storage': world.backend, 'repo': st.integers(0, 3), 'kind': st.sampled_from(KINDS), 'n': st.integers(0, 10**4),
        'contents': st.lists(path_n, max_size=6)}), tamper, 400),
])
