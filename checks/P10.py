"""Blocks are content-addressed and written once."""
import dag_cbor
from hypothesis import strategies as st
from vlib.core import Check, Test, check, eq, Violation
from vlib import values, world
from vlib.world import World, Block, Action, DIDS, b32, cid_of
from arroba.storage import CommitOp

ABSENT = [cid_of(dag_cbor.encode({'absent': n})) for n in range(3)]
OPS = [CommitOp(Action.CREATE, 'app.x.y/a', values.cid(1), None), CommitOp(Action.UPDATE, 'app.x.y/b', values.cid(2), values.cid(3)),
       CommitOp(Action.DELETE, 'app.x.y/c', None, values.cid(4))]


def ops_of(n):
    return OPS[:n] or None


def history(case, ctx):
    w = World(case['storage'], ctx, case['context'])
    s = w.storage
    if w.fake and case['deferred']:
        w.fake.lookup_max = 2
    objs = [values.decode(o) for o in case['objs']]
    enc = [dag_cbor.encode(o) for o in objs]
    cids = [cid_of(e) for e in enc]
    model = {}       # cid -> (bytes, seq, did, ops)
    seq = 0
    dups = misses = 0

    def judge(b, c, what):
        data, q, did, ops = model[c]
        eq(b.encoded, data, f'{what}: bytes')
        eq(b32(b.cid), b32(c), f'{what}: CID')
        eq(b32(cid_of(b.encoded)), b32(c), f'{what}: hash of the bytes')
        eq(dag_cbor.encode(b.decoded), data, f'{what}: decoded')
        eq(b.seq, q, f'{what}: seq')
        eq(b.repo, did, f'{what}: repo')
        eq(list(b.ops or []), list(ops or []), f'{what}: ops')

    for step, op in enumerate(case['ops']):
        what = f'step {step} {op}'
        if op[0] == 'write':
            _, k, who, given = op
            k %= len(objs)
            did = DIDS[who]
            with w.request():
                if given:
                    seq = max(seq, w.last_seq()) + given
                    while w.storage.sequences.allocate(world.NSID) < seq:
                        pass
                    b = s.write(did, values.decode(case['objs'][k]), seq=seq)
                else:
                    b = s.write(did, values.decode(case['objs'][k]))
                    seq = w.last_seq()
            dups += cids[k] in model
            model.setdefault(cids[k], (enc[k], seq, did, None))
            eq((b32(b.cid), b.encoded), (b32(cids[k]), enc[k]), f'{what}: block returned by write')
        elif op[0] == 'batch':
            blocks, first = [], {}
            for k, who, q, form, nops in op[1]:
                k %= len(objs)
                # one batch has one origin: repeats in it are alike
                who, q, nops = first.setdefault(cids[k], (who, q, nops))
                kw = {'encoded': enc[k]} if form == 0 else {'decoded': values.decode(case['objs'][k])}
                if form == 2:
                    kw['cid'] = cids[k]
                blocks.append(Block(**kw, seq=q, repo=DIDS[who], ops=ops_of(nops)))
                dups += cids[k] in model
                model.setdefault(cids[k], (enc[k], q, DIDS[who], ops_of(nops)))
            with w.request():
                while w.last_seq() < max([b.seq for b in blocks], default=0):
                    s.sequences.allocate(world.NSID)
                s.write_blocks(blocks if op[2] else {id(b): b for b in blocks}.values())
        elif op[0] in ('many', 'raw', 'read'):
            want = [cids[k % len(cids)] if k < 10 else ABSENT[k % 3] for k in op[1]]
            misses += any(c not in model for c in want) and any(c in model for c in want)
            with w.request():
                if op[0] == 'many':
                    got = s.read_many(want if op[2] else (c for c in want))
                    eq({b32(c) for c in got}, {b32(c) for c in want}, f'{what}: keys of read_many')
                elif op[0] == 'raw':
                    raw = s.read_many_raw([bytes(c) for c in want])
                    check(set(raw) <= {bytes(c) for c in want}, '%s: read_many_raw returns CIDs not asked for', what)
                    for c in want:
                        g = raw.get(bytes(c))
                        eq(g and (bytes(g[0]), g[1]), model.get(c) and model[c][:2], f'{what}: read_many_raw of {b32(c)}')
                    continue
                else:
                    got = {c: s.read(c) for c in want}
                    for c in want:
                        eq(s.has(c), c in model, f'{what}: has({b32(c)})')
            for c in want:
                if c in model:
                    check(got[c] is not None, '%s: %s is stored but reported absent', what, b32(c))
                    judge(got[c], c, what)
                else:
                    check(got[c] is None, '%s: %s is not stored but reported as %s', what, b32(c), got[c])
    # everything, in every way
    for c in model:
        with w.request():
            judge(s.read(c), c, 'at the end')
    with w.request():
        for b in (blocks := list(s.read_blocks_by_seq())):
            judge(b, b.cid, 'read_blocks_by_seq')
    eq(sorted(b32(b.cid) for b in blocks), sorted(map(b32, model)), 'blocks read by sequence')
    if dups: ctx.label('duplicates')
    if misses: ctx.label('some absent, some present')
    ctx.label(case['storage'])
    ctx.nontrivial(dups and len(model) >= 2)


def bulk(case, ctx):
    """Batch reads of more CIDs than the backend answers in one request."""
    w = World(case['storage'], ctx, 'request')
    s = w.storage
    n = case['n']
    cids = [values.cid(('bulk', i).__repr__()) for i in range(n)]
    stored = {}
    for i in {*range(case['from'], n, case['step']), 0, n - 1, *(x for x in (998, 999, 1000, 1001, 1999, 2000) if x < n)}:
        obj = {'linked': ('bulk', i).__repr__()}
        stored[cids[i]] = dag_cbor.encode(obj)
    with w.request():
        s.sequences.allocate(world.NSID)
        s.write_blocks([Block(encoded=e, seq=1, repo=DIDS[0]) for e in stored.values()])
    if w.fake:
        w.fake.lookup_max = case['deferred']
    with w.request():
        if case['raw']:
            got = {c: bytes(v[0]) for c, v in s.read_many_raw([bytes(c) for c in cids]).items() if v}
            want = {bytes(c): e for c, e in stored.items()}
        else:
            got = {c: b.encoded for c, b in s.read_many(cids).items() if b}
            want = stored
    eq(len(got), len(want), 'number of blocks found')
    check(got == want, 'batch read of %s CIDs returns other blocks than the stored ones', n)
    ctx.label(case['storage'], 'raw' if case['raw'] else 'blocks', 'over 1000' if n > 1000 else 'up to 1000')
    ctx.nontrivial(n > 1000 and len(stored) > 2)


k = st.integers(0, 5)
op = st.one_of(
    st.tuples(st.just('write'), k, st.integers(0, 2), st.integers(0, 2)),
    st.tuples(st.just('batch'), st.lists(st.tuples(k, st.integers(0, 2), st.integers(0, 9), st.integers(0, 2), st.integers(0, 3)).map(list), max_size=5), st.booleans()),
    st.tuples(st.just('batch'), st.lists(st.tuples(k, st.integers(0, 2), st.integers(0, 9), st.integers(0, 2), st.integers(0, 3)).map(list), max_size=5), st.booleans()),
    st.tuples(st.sampled_from(['many', 'raw', 'read']), st.lists(st.integers(0, 13), max_size=6), st.booleans())).map(list)

CHECK = Check(
    'P10',
    rule='histories of up to 14 single and batch writes (duplicates within and across batches, repos and sequence numbers; blocks given decoded, encoded or with CID; with commit operations) and '
         'single, batch, generator and raw reads of present and absent CIDs, over 1-6 generated DAG-CBOR objects, on both storages; backend lookups that defer keys; batch reads of 1000 to 2300 CIDs. '
         'Non-trivial: at least two blocks and one duplicate write.',
    assumptions=['the Datastore service is an in-process fake under the real ndb client',
                 'write() of an existing block is given a sequence number at least as high as the existing one, as allocation does'],
    tests=[Test('history', st.fixed_dictionaries({
        'storage': world.backend, 'context': world.ndb_context, 'deferred': st.booleans(),
        'objs': st.lists(values.record(min_size=1), min_size=1, max_size=6),
        'ops': st.lists(op, min_size=2, max_size=14)}), history, 1000, 80000),
        Test('bulk', st.fixed_dictionaries({'storage': st.sampled_from(['ds', 'ds', 'mem']), 'n': st.one_of(st.sampled_from([999, 1000, 1001, 2000, 2001]), st.integers(1001, 2300)), 'raw': st.sampled_from([True, True, False]),
            'from': st.integers(0, 30), 'step': st.sampled_from([3, 7, 40, 150]), 'deferred': st.sampled_from([None, 300, 900, 999])}), bulk, 40, 400, explicit=[{'storage': 'ds', 'n': 1001, 'raw': True, 'from': 0, 'step': 40, 'deferred': None}])])
