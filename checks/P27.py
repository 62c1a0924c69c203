"""Events on the wire are decodable and well-formed for any record."""
from hypothesis import strategies as st
import dag_cbor
from arroba import firehose, server
from arroba.storage import CommitData
from vlib import world, web, imports, gen, values, carutil
from vlib.core import Check, Test, check, eq, Violation, HarnessError
from vlib.mstref import Ref, cid_of
from vlib.log import Log
from vlib.world import World, DIDS, KEYS, b32, rev_of
from vlib.worldutil import stored
from checks.P11 import judge_log, PREFIX
from checks.P18 import same, to_json

FIELDS = ['version', 'did', 'rev', 'prev', 'data', 'sig']
TYPES = ['commit', 'identity', 'account', 'sync', 'tombstone', 'info', 'handle', 'migrate', '', 'repoOp', 'nope']


def build(spec, w, i):
    """A record from its description, some taken from what is stored now."""
    kind = spec[0]
    m = w.repos[i]
    if kind == 'any':
        return values.decode(spec[1])
    if kind == 'commit':     # looks like a commit, with some fields right
        right = {'version': 3, 'did': m.did, 'rev': rev_of(w.last_seq() + 1), 'prev': m.commits[-1]['cid'],
                 'data': m.commits[-1]['data'], 'sig': bytes(64)}
        out = {}
        for k, (use, v) in zip(FIELDS, spec[1]):
            if use != 'none':
                out[k] = right[k] if use == 'right' else values.decode(v)
        return out or {'x': 1}
    if kind == 'copy':       # the bytes of a commit of some repo
        all = [c['cid'] for j in sorted(w.repos) for c in w.repos[j].commits]
        with w.request():
            return dag_cbor.decode(w.storage.read(all[spec[1] % len(all)]).encoded)
    if kind == 'node':       # the bytes of a tree node of some repo
        all = sorted({c: b for j in w.repos for c, b in Ref(w.repos[j].entries).blocks.items()}.items(), key=lambda x: b32(x[0]))
        return dag_cbor.decode(all[spec[1] % len(all)][1])
    if kind == 'eventcopy':  # the bytes of an event in the log
        with w.request():
            all = [e for e in w.storage.read_events_by_seq(0) if isinstance(e, dict)]
        return dict(all[spec[1] % len(all)]) if all else {'x': 1}
    if kind == 'event':
        out = {'$type': PREFIX + TYPES[spec[1] % len(TYPES)]}
        if spec[2]: out['seq'] = w.last_seq() + spec[2] - 3
        if spec[3]: out['did'] = m.did if spec[3] == 1 else DIDS[5]
        out.update(values.decode(spec[4]))
        return out
    if kind == 'type':
        return {'$type': values.decode(spec[1]), **values.decode(spec[2])}
    if kind == 'deep':
        v = {'a': 1}
        for k in range(spec[1]):
            v = {'a': v} if (spec[2] >> (k % 8)) & 1 else [v]
        return {'x': v}
    if kind == 'wide':
        return {f'k{n}': n for n in range(spec[1])}
    raise HarnessError(kind)


def poison(rec):
    t = rec.get('$type')
    return (set(rec) == set(FIELDS) or '$type' in rec and (not isinstance(t, str) or t.startswith('com.atproto.'))
            or set(rec) == {'e', 'l'})


def ambiguous(v):
    """Has a map whose JSON form means something else."""
    if isinstance(v, dict):
        return bool({'/', '$link', '$bytes'} & set(v)) or any(map(ambiguous, v.values()))
    return isinstance(v, list) and any(map(ambiguous, v))


def lexicon(rec):
    """'ok', 'invalid' if the record API takes no such record, or 'json' if it takes it but the JSON
    form of the record does not match the lexicon that its $type names."""
    check_ = lambda r: server.server.validate('com.atproto.repo.createRecord', 'input',
                                              {'repo': DIDS[0], 'collection': 'app.x.y', 'record': r})
    try:
        check_(rec)
    except Exception:
        return 'invalid'
    try:
        check_(to_json(rec))
    except Exception:
        return 'json'
    return 'ok'


def wire(w, m_by_did, entry, ev, what):
    """An event as it goes over the websocket, decoded again."""
    seq, kind, d = entry
    what = f'{what}: event {seq}'
    header, payload = ev
    header, payload = dag_cbor.decode(dag_cbor.encode(header)), dag_cbor.decode(dag_cbor.encode(payload))
    eq(header, {'op': 1, 't': '#' + kind}, f'{what}: header')
    eq(payload['seq'], seq, f'{what}: seq')
    check('$type' not in payload, '%s: payload has $type', what)
    check(isinstance(payload['time'], str), '%s: time %s', what, payload['time'])
    if kind != 'commit':
        eq(payload['did'], d['did'], f'{what}: did')
        return
    eq(payload['repo'], d['did'], f'{what}: repo')
    eq(b32(payload['commit']), b32(d['cid']), f'{what}: commit')
    eq(payload['rev'], rev_of(seq), f'{what}: rev')
    roots, got = carutil.parse(payload['blocks'], what)
    eq([b32(c) for c in roots], [b32(d['cid'])], f'{what}: root of the archive')
    blocks = dict(got)
    eq(len(blocks), len(got), f'{what}: repeated blocks')
    check(d['cid'] in blocks, '%s: the archive lacks the commit', what)
    check(d['data'] in blocks, '%s: the archive lacks the tree root', what)
    eq([(o['action'], o['path'], o['cid'] and b32(o['cid'])) for o in payload['ops']],
       [(a, p, c and b32(c)) for a, p, c, _ in d['ops']], f'{what}: ops')
    for o in payload['ops']:
        if o['cid']:
            check(o['cid'] in blocks, '%s: the archive lacks the record %s', what, o['path'])
    commit = dag_cbor.decode(blocks[d['cid']])
    check(world.verify(commit, m_by_did[d['did']].key.public_key()), '%s: signature of the commit', what)


def judge(w, log, start, what):
    events = judge_log(w, start, None, log.blocks_at, what)
    want = [x for x in w.log if x[0] >= start]
    by = {m.did: m for m in w.repos.values()}
    for e, entry in zip(events, want):
        with w.request():
            ev = firehose.process_event(e)
        wire(w, by, entry, ev, what)


def served(w, i, what, ctx):
    """Everything the APIs serve about one repo."""
    m = w.repos[i]
    r = w.load(i)
    w.judge_repo(i, r, what, deep=False)
    enc = lambda d: {p: dag_cbor.encode(x) for p, x in d.items()}
    eq(enc(w.contents_of(r)), enc(m.contents), f'{what}: contents of {m.did}')
    s = web.get(w, 'com.atproto.sync.getRepoStatus', did=m.did)
    eq((s.error, s.json.get('active')), (None, m.status is None), f'{what}: status of {m.did}')
    if m.status:
        return
    c = web.get(w, 'com.atproto.sync.getLatestCommit', did=m.did)
    eq((c.error, c.json.get('cid')), (None, b32(m.commits[-1]['cid'])), f'{what}: latest commit of {m.did}')
    e = web.get(w, 'com.atproto.sync.getRepo', did=m.did)
    eq(e.error, None, f'{what}: export of {m.did}: {e}')
    roots, got = carutil.parse(e.body, what)
    eq([b32(x) for x in roots], [b32(m.commits[-1]['cid'])], f'{what}: export root of {m.did}')
    _, entries, _ = carutil.closure(dict(got), roots[0], what)
    eq(entries, m.entries, f'{what}: export of {m.did}')
    for coll in sorted({p.split('/')[0] for p in m.contents}):
        ps = sorted(p for p in m.contents if p.startswith(coll + '/'))
        # the API only takes NSIDs
        kinds = {p: lexicon(m.contents[p]) for p in ps}
        if 'invalid' in kinds.values():
            ctx.label('record with an invalid $type')
            continue
        l = web.get(w, 'com.atproto.repo.listRecords', repo=m.did, collection=coll, limit=100)
        if l.error and coll.count('.') < 2:
            continue
        if l.error and 'json' in kinds.values():
            bad = next(m.contents[p] for p in ps if kinds[p] == 'json')
            ctx.finding('P27-json-output', f'listRecords {coll} of {m.did} fails because of the record {bad}: {l}')
            continue
        eq(l.error, None, f'{what}: listRecords {coll} of {m.did}: {l}')
        eq([x['uri'] for x in l.json['records']], [f'at://{m.did}/{p}' for p in ps], f'{what}: listRecords {coll} of {m.did}')
        for x, p in zip(l.json['records'], ps):
            eq(x['cid'], b32(m.entries[p]), f'{what}: cid of {p}')
            if not ambiguous(m.contents[p]):
                same(x['value'], m.contents[p], f'{what}: value of {p}')
            g = web.get(w, 'com.atproto.repo.getRecord', repo=m.did, collection=coll, rkey=p.split('/')[1])
            eq((g.error, g.json.get('cid')), (None, x['cid']), f'{what}: getRecord {p}: {g}')
            if not ambiguous(m.contents[p]):
                same(g.json['value'], m.contents[p], f'{what}: getRecord {p}')
            sr = web.get(w, 'com.atproto.sync.getRecord', did=m.did, collection=coll, rkey=p.split('/')[1])
            eq(sr.error, None, f'{what}: sync.getRecord {p}: {sr}')
            check(m.entries[p] in dict(carutil.parse(sr.body, what)[1]), '%s: sync.getRecord %s lacks the record', what, p)
    if m.entries:
        want = sorted(m.entries.values(), key=b32)[:3]
        b = web.get(w, 'com.atproto.sync.getBlocks', did=m.did, cids=[b32(x) for x in want])
        eq(b.error, None, f'{what}: getBlocks: {b}')


def history(case, ctx):
    web.setup(ctx)
    w = World(case['storage'], ctx, 'request')
    docs = imports.Docs(ctx)
    if w.fake:
        w.fake.batch = case['batch']
    log = Log(w, ctx, docs)
    log.create(0)
    accepted = 0
    mid = case['mid']
    for n, op in enumerate(case['ops']):
        kind, i = op[0], op[1] % 3
        if i not in w.repos:
            if kind == 'import' and i:
                contents = {}
                for p, spec in op[2]:
                    contents[p] = build(spec, w, 0)
                log.imported(i, contents)
                accepted += any(map(poison, contents.values()))
            else:
                log.create(i)
            continue
        m = w.repos[i]
        if kind == 'import' or m.status == 'tombstoned':
            continue
        if kind == 'status':
            if (op[2] == 'activate') == (m.status is None):
                continue
            log.status(i, op[2])
            continue
        if kind != 'commit':
            raise HarnessError(kind)
        if m.status:
            log.status(i, 'activate')
        writes, have, recs = [], set(m.contents), []
        for p, spec in op[2]:
            if spec is None:
                if p in have:
                    writes.append(['delete', p, None])
                    have.discard(p)
                continue
            rec = build(spec, w, i)
            recs.append(rec)
            writes.append(['update' if p in have else 'create', p, rec])
            have.add(p)
        snap, last = stored(w), len(w.log)
        try:
            log.commit(i, writes)
        except Exception as e:
            odd = [r for r in recs if not isinstance(r.get('$type', ''), str)]
            if not odd:
                raise
            # not a valid record: refused, but then without effect
            check(stored(w) == snap, 'a commit of %s was refused with %r but changed what is stored', odd, e)
            w.take()
            ctx.label('refused')
            continue
        n_poison = sum(map(poison, recs))
        accepted += n_poison
        if n_poison: ctx.label('imitations')
        if n_poison and len(recs) > 1: ctx.label('imitation next to other records')
        if mid and n % mid == 0:
            judge(w, log, max(w.last_seq() - 1, 0), 'log after the commit')
    for i in w.repos:
        served(w, i, 'at the end', ctx)
    last = w.last_seq()
    judge(w, log, 0, 'log')
    if last:
        s = case['start'] % last
        judge(w, log, s, f'log from {s}')
    for i in sorted(w.repos):
        judge_log(w, 0, w.repos[i].did, log.blocks_at, f'log of {w.repos[i].did}')
    # and they can all still be written to
    for i in sorted(w.repos):
        m = w.repos[i]
        if m.status == 'deactivated':
            log.status(i, 'activate')
        if not m.status:
            log.commit(i, [['put', 'app.x.y/last', 1]])
    judge(w, log, max(last, 0), 'log at the end')
    ctx.label(case['storage'])
    ctx.nontrivial(accepted >= 1)


val = values.value
small = st.dictionaries(values.name.filter(lambda n: n != '$type'), val, max_size=3).map(lambda d: {'/d': d})
field = st.tuples(st.sampled_from(['right', 'right', 'right', 'other']), val).map(list)
spec = st.one_of(
    st.tuples(st.just('any'), values.record(no=('$type',), min_size=1)),
    st.tuples(st.just('commit'), st.lists(field, min_size=6, max_size=6)),
    st.tuples(st.just('commit'), st.lists(st.tuples(st.sampled_from(['right', 'other', 'none']), val).map(list), min_size=6, max_size=6)),
    st.tuples(st.just('copy'), st.integers(0, 20)),
    st.tuples(st.just('node'), st.integers(0, 20)),
    st.tuples(st.just('eventcopy'), st.integers(0, 20)),
    st.tuples(st.just('event'), st.integers(0, 10), st.integers(0, 6), st.integers(0, 2), small),
    st.tuples(st.just('type'), st.one_of(values.scalar, st.sampled_from(['', 'app.x.y', 'com.atproto.sync.subscribeRepos', 'com.atproto.sync.subscribeRepos#commit',
        'com.atproto.sync.subscribeRepos#identity', '#commit', 'app.bsky', 'x y z', '.', 'a#b#c'])), small),
    st.tuples(st.just('deep'), st.integers(1, 300), st.integers(0, 255)),
    st.tuples(st.just('wide'), st.integers(1, 400)),
    st.tuples(st.just('any'), st.integers(0, 3).map(lambda n: {'n': n}))).map(list)
path = st.sampled_from(['app.x.y/a', 'app.x.y/b', 'app.x.yz/c', 'com.atproto.sync.subscribeRepos/self'] + [p for p in world.paths() if p.count('.') >= 2][:3])
write = st.tuples(path, st.one_of(spec, spec, spec, st.none())).map(list)
I = st.integers(0, 2)
op = st.one_of(st.tuples(st.just('commit'), I, st.lists(write, min_size=1, max_size=4)), st.tuples(st.just('commit'), st.just(0), st.lists(write, min_size=1, max_size=3)),
               st.tuples(st.just('status'), I, st.sampled_from(['deactivate', 'activate', 'tombstone'])),
               st.tuples(st.just('import'), I, st.lists(st.tuples(path, spec).map(list), max_size=4))).map(list)

CHECK = Check('P27', 'at least one accepted record that imitates a commit, a stream event or a tree node, or has an odd $type', [
    Test('history', st.fixed_dictionaries({'storage': world.backend, 'batch': st.sampled_from([1, 2, 300]), 'mid': st.integers(0, 2),
        'ops': st.lists(op, min_size=1, max_size=8), 'start': st.integers(0, 30)}), history, 450),
])
