"""Record proofs and block fetches are self-contained and correct."""
import dag_cbor
from hypothesis import strategies as st
from vlib.core import Check, Test, check, eq, Violation
from vlib import carutil, gen, imports, web, world
from vlib.log import Log
from vlib.mstref import Ref, cid_of
from vlib.world import DIDS, KEYS, World, b32, record, verify
from checks.P16 import reachable, run

ABSENT = [cid_of(dag_cbor.encode({'absent': n})) for n in range(3)]
MALFORMED = ['xyz', 'bafyrei', 'b', '1', 'z', 'bafyreie5737gdxlw5i64vzichcalba3z2v5n6icifvx5xytvske7mr3hp1', '!!', 'Qm',
             'bafyreie5737gdxlw5i64vzichcalba3z2v5n6icifvx5xytvske7mr3hpmbafyreie5737gdxlw5i64vzichcalba3z2v5n6icifvx5xytvske7mr3hpm',
             'QmYwAPJzv5CZsnA625s3Xf2nemtYgPpHdWEz79ojWKPbdG7', 'f0155', 'm', 'bafyreie5737gdxlw5i64vzichcalba3z2v5n6icifvx5xytvske7mr3hpm=']


def prove(data, head, did, key, path, what):
    """Verifies membership of path from the archive alone. Returns (record bytes, nodes on the path)."""
    roots, blocks = carutil.parse(data, what)
    eq([b32(r) for r in roots], [b32(head)], f'{what}: root')
    have = dict(blocks)
    check(head in have, '%s: lacks the head commit', what)
    commit = dag_cbor.decode(have[head])
    eq(commit['did'], did, f'{what}: DID')
    check(verify(commit, key.public_key()), '%s: signature does not verify', what)
    cid, depth = commit['data'], 0
    while True:
        check(cid in have, '%s: lacks the tree node %s at depth %s on the path to the record', what, b32(cid), depth)
        node = dag_cbor.decode(have[cid])
        depth += 1
        sub, key_ = node['l'], b''
        for e in node['e']:
            key_ = key_[:e['p']] + e['k']
            if key_.decode() == path:
                v = e['v']
                check(v in have, '%s: lacks the record %s', what, b32(v))
                return have[v], depth
            if key_.decode() > path:
                break
            sub = e['t']
        check(sub is not None, '%s: the archive proves that the record is absent', what)
        cid = sub


def proofs(case, ctx):
    web.setup(ctx)
    w = World(case['storage'], ctx, 'request')
    log = Log(w, ctx, imports.Docs(ctx))
    run(w, log, case['imports'] + case['ops'])
    deep = absent = 0
    for i, m in w.repos.items():
        head = m.commits[-1]['cid']
        key = m.key if m.commits[-1]['seq'] else KEYS[i]
        names = sorted(set(m.contents) | {p for c in m.commits for p in c['contents']}) + [p for p in case['absent']]
        for p in names:
            coll, _, rkey = p.partition('/')
            r = web.get(w, 'com.atproto.sync.getRecord', did=m.did, collection=coll, rkey=rkey)
            if p in m.contents:
                eq(r.error, None, f'sync.getRecord of {p}: {r}')
                enc, depth = prove(r.body, head, m.did, key, p, f'proof of {p}')
                eq(enc, dag_cbor.encode(m.contents[p]), f'record in the proof of {p}')
                deep += depth > 1
            else:
                eq(r.error, 'RecordNotFound', f'sync.getRecord of {p}, which is missing')
                absent += 1
        r = web.get(w, 'com.atproto.sync.getHead', did=m.did)
        eq(r.json, {'root': b32(head)}, 'getHead')
        r = web.get(w, 'com.atproto.sync.getLatestCommit', did=m.did)
        with w.request():
            rev = w.storage.read(head).decoded['rev']
        eq(r.json, {'cid': b32(head), 'rev': rev}, 'getLatestCommit')
        if m.commits[-1]['seq']:
            eq(rev, world.rev_of(m.commits[-1]['seq']), 'rev')
    for nsid, params in (('getRecord', {'collection': 'app.x.y', 'rkey': '0'}), ('getHead', {}), ('getLatestCommit', {}), ('getBlocks', {'cids': b32(ABSENT[0])})):
        r = web.get(w, f'com.atproto.sync.{nsid}', did='did:web:nobody.com', **params)
        eq(r.error, 'RepoNotFound', f'{nsid} of an unknown repo')
    ctx.nontrivial(deep and absent)
    ctx.label(case['storage'])
    if deep: ctx.label('proof over several nodes')


def blocks(case, ctx):
    web.setup(ctx)
    w = World(case['storage'], ctx, 'request')
    if w.fake:
        w.fake.lookup_max = case['deferred'] or None
    log = Log(w, ctx)
    run(w, log, case['ops'])
    log.create(0) if 0 not in w.repos else None
    m = w.repos[0]
    known = {**reachable(m)}
    with w.request():
        for c in m.commits:
            known[c['cid']] = w.storage.read(c['cid']).encoded
    order = sorted(known, key=b32)
    for want in case['fetch']:
        names, bad, missing = [], False, []
        for kind, n in want:
            if kind == 'present':
                names.append(b32(order[n % len(order)]))
            elif kind == 'absent':
                c = ABSENT[n % 3]
                names.append(b32(c))
                missing.append(b32(c))
            elif kind == 'base58':
                names.append(order[n % len(order)].encode('base58btc'))
            else:
                names.append(MALFORMED[n % len(MALFORMED)])
                bad = True
        r = web.get(w, 'com.atproto.sync.getBlocks', did=m.did, cids=names)
        if bad or missing:
            check(r.error, 'getBlocks of %s succeeded', names)
            check(400 <= r.status < 500, 'getBlocks of %s: %s', names, r)
            if not bad:
                eq(r.error, 'BlockNotFound', f'getBlocks of {names}')
                check(any(c in r.json.get('message', '') for c in missing), 'the error does not name a missing block: %s', r)
        else:
            eq(r.error, None, f'getBlocks of {names}: {r}')
            roots, got = carutil.parse(r.body, 'getBlocks')
            eq([b32(c) for c, _ in got], [b32(world.CID.decode(n)) for n in names], 'blocks in order')
            for c, b in got:
                eq(b, known[c], f'bytes of {b32(c)}')
    ctx.nontrivial(any(len(x) > 1 for x in case['fetch']) and len(known) > 3)


IMPORT = st.tuples(st.just('import'), st.integers(0, 2), st.lists(st.tuples(st.sampled_from(world.paths()), st.integers(0, 4)).map(list), max_size=8)).map(list)
valid = st.one_of(st.sampled_from(world.paths()), gen.layered_key())
W = st.one_of(st.tuples(st.just('put'), valid, st.integers(0, 6)), st.tuples(st.just('put'), valid, st.integers(0, 6)),
              st.tuples(st.just('del'), st.integers(0, 20)), st.tuples(st.just('change'), st.integers(0, 20), st.integers(0, 6))).map(list)
OP = st.one_of(st.tuples(st.just('commit'), st.integers(0, 1), st.lists(W, max_size=12)), st.tuples(st.just('commit'), st.just(0), st.lists(W, min_size=1, max_size=6))).map(list)
FETCH = st.tuples(st.sampled_from(['present'] * 6 + ['base58', 'absent', 'malformed']), st.integers(0, 30)).map(list)

CHECK = Check('P17', 'a proof over more than one tree node and an absent record; or a fetch of several blocks', [
    Test('proofs', st.fixed_dictionaries({'storage': world.backend, 'imports': st.lists(IMPORT, max_size=1), 'ops': st.lists(OP, min_size=1, max_size=6),
        'absent': st.lists(valid, min_size=1, max_size=4)}), proofs, 400),
    Test('blocks', st.fixed_dictionaries({'storage': world.backend, 'ops': st.lists(OP, min_size=1, max_size=3), 'deferred': st.sampled_from([0, 1, 2]),
        'fetch': st.lists(st.lists(FETCH, min_size=1, max_size=6), min_size=1, max_size=4)}), blocks, 250),
])
