"""Commit events let a stateless consumer verify the change."""
import bisect, datetime, random
import dag_cbor
from hypothesis import strategies as st
from vlib.core import Check, Test, Violation, HarnessError, check, eq
from vlib import carutil, gen, imports, mstref, partial, web, world
from vlib.log import Log
from vlib.mstref import Ref, cid_of
from vlib.world import DIDS, KEYS, World, b32, record, rev_of, verify
from arroba import firehose
from arroba.mst import MST
from arroba.storage import CommitData


def judge(payload, entry, prev_data, key, what):
    """A commit event's payload, from the payload alone and against the model's log entry."""
    seq, _, d = entry
    eq((payload['repo'], payload['seq'], payload['rev']), (d['did'], seq, rev_of(seq)), f'{what}: repo, seq, rev')
    eq(b32(payload['commit']), b32(d['cid']), f'{what}: commit')
    want = []
    for action, path, cid, prev in d['ops']:
        want.append({'action': action, 'path': path, 'cid': cid, **({} if action == 'create' else {'prev': prev})})
    eq(payload['ops'], want, f'{what}: ops')
    eq(payload.get('prevData'), prev_data, f'{what}: prevData')
    t = datetime.datetime.fromisoformat(payload['time'])
    check(t.tzinfo is not None, '%s: time %s has no timezone', what, payload['time'])

    roots, blocks = carutil.parse(payload['blocks'], what)
    eq([b32(r) for r in roots], [b32(payload['commit'])], f'{what}: root of the archive')
    have = dict(blocks)
    check(payload['commit'] in have, '%s: the archive lacks the commit', what)
    commit = dag_cbor.decode(have[payload['commit']])
    eq((commit['did'], commit['version'], commit['rev'], commit['data'], commit['prev']),
       (d['did'], 3, payload['rev'], d['data'], d['prev']), f'{what}: signed commit')
    check(verify(commit, key), '%s: signature does not verify', what)
    for op in payload['ops']:
        if op['cid'] is not None:
            check(op['cid'] in have, '%s: the archive lacks the record of %s', what, op['path'])
    check(commit['data'] in have, '%s: the archive lacks the tree root', what)
    if payload['ops'] or prev_data is not None:
        before = partial.undo(have, commit['data'], payload['ops'])
        eq(b32(before), b32(prev_data), f'{what}: tree root after undoing the operations')
    return have


def plain(ev):
    header, payload = ev
    return header, {k: dict(carutil.parse(v)[1]) if k == 'blocks' else v for k, v in payload.items()}


def history(case, ctx):
    web.setup(ctx)
    w = World(case['storage'], ctx, 'request')
    log = Log(w, ctx, imports.Docs(ctx))
    shapes = set()
    prevs = {}       # seq -> data root before
    for op in case['ops']:
        i = op[1] % 2
        if op[0] == 'import':
            if i not in w.repos:
                log.imported(i, {p: record(n) for p, n in op[2]})
                log.status(i, 'activate')
                w.handles[i] = w.load(i)
            continue
        if i not in w.repos:
            log.create(i)
        before = w.repos[i].commits[-1]
        log.commit(i, op[2])
        a, b = (max([mstref.zeros(p) for p in c['contents']], default=-1) for c in (before, w.repos[i].commits[-1]))
        shapes.add('shrinks' if b < a else 'grows' if b > a else 'same height')
        if b < 0 <= a: shapes.add('becomes empty')
        if len(w.repos[i].commits[-1]['ops']) > 1: shapes.add('several ops')
    by_cid = {c['cid']: c['data'] for m in w.repos.values() for c in m.commits}
    keys = {m.did: m.key.public_key() for m in w.repos.values()}

    from_storage = []
    with w.request():
        for e in w.storage.read_events_by_seq():
            # as the subscriber and the live collector do it
            from_storage.append(firehose.process_event(e))
    # as the preload does it
    with w.request():
        events = list(w.storage.read_events_by_seq(start=case['start'] % (w.last_seq() + 1)))
        prev = [e.commit.decoded['prev'] if isinstance(e, CommitData) else None for e in events]
        read = w.storage.read_many([p for p in prev if p])
        preloaded = [firehose.process_event(e, prev_commit=read.get(p)) for e, p in zip(events, prev)]
    eq([p['seq'] for _, p in from_storage], [x[0] for x in w.log], 'events')
    undone = 0
    for (header, payload), entry in zip(from_storage, w.log):
        what = f'event {entry[0]}'
        eq(header, {'op': 1, 't': '#' + entry[1]}, f'{what}: header')
        if entry[1] != 'commit':
            eq((payload['seq'], payload['did']), (entry[0], entry[2]['did']), what)
            continue
        judge(payload, entry, by_cid.get(entry[2]['prev']), keys[entry[2]['did']], what)
        undone += bool(payload['ops'])
    for pre, sto in zip(preloaded, from_storage[len(from_storage) - len(preloaded):]):
        eq(plain(pre), plain(sto), 'preloaded event and the same one read from storage')
    ctx.nontrivial(undone and len(shapes) > 0)
    ctx.label(case['storage'], *shapes)


# the algorithm alone, over bigger trees

def proofs(case, ctx):
    """One commit on a larger tree, its covering proof from the tree itself."""
    w = World('mem', ctx, 'none')
    w.create(0)
    ks = case['keys']
    base = [['put', k, n % 5] for n, k in enumerate(ks)]
    for n in range(0, len(base), 150):
        w.commit(0, w.resolve(0, base[n:n + 150]))
    prev = w.repos[0].commits[-1]
    w.commit(0, w.resolve(0, case['writes']))
    events = list(w.storage.read_events_by_seq(start=w.last_seq()))
    header, payload = firehose.process_event(events[-1])
    have = judge(payload, w.log[-1], prev['data'], w.repos[0].key.public_key(), 'commit')
    # without a dict to add to, the result is the proof and the commit stays as it is
    again = list(w.storage.read_events_by_seq(start=w.last_seq()))[-1]
    before = dict(again.blocks)
    got = MST.load(storage=w.storage, cid=again.commit.decoded['data']).add_covering_proofs(again)
    check(again.blocks == before, "add_covering_proofs changed the commit's blocks")
    if payload['ops']:
        root = partial.undo({c: b.encoded for c, b in got.items()}, again.commit.decoded['data'], payload['ops'])
        eq(b32(root), b32(prev['data']), 'tree root after undoing the operations in the proof alone')
    ctx.nontrivial(payload['ops'] and len(ks) > 2)
    ctx.label('needs only part of the tree' if len(have) < len(Ref(w.repos[0].entries).blocks) else 'whole tree')


def large(case, ctx):
    """Commits with up to the most operations that one may have, on a tree with hundreds of keys."""
    rnd = random.Random(case['seed'])
    fam = [f'app.x.y/{case["seed"]}-{n}' for n in range(case['keys'] + 200)]
    rnd.shuffle(fam)
    have = sorted(fam[:case['keys']])
    missing = fam[case['keys']:]
    if case['near']:     # all in one part of the tree
        at = rnd.randrange(len(have))
        doomed = (have[at:] + have[:at])[:case['dels']]
    else:
        doomed = rnd.sample(have, min(case['dels'], len(have)))
    writes = [['del', k] for k in doomed] + [['put', k, 9] for k in rnd.sample(sorted(set(have) - set(doomed)), min(case['puts'], len(have) - len(doomed)))]
    writes += [['put', k, 1] for k in missing[:case['adds']]]
    rnd.shuffle(writes)
    w = World('mem', ctx, 'none')
    w.create(0)
    for n in range(0, len(have), 190):
        w.commit(0, w.resolve(0, [['put', k, j % 5] for j, k in enumerate(have[n:n + 190])]))
    prev = w.repos[0].commits[-1]
    ops = []
    live = sorted(have)
    for op in writes[:200]:
        if op[0] == 'del':
            ops.append(['del', live.index(op[1])])
            live.remove(op[1])
        else:
            ops.append(op)
            if op[1] not in live:
                bisect.insort(live, op[1])
    w.commit(0, w.resolve(0, ops))
    events = list(w.storage.read_events_by_seq(start=w.last_seq()))
    header, payload = firehose.process_event(events[-1])
    judge(payload, w.log[-1], prev['data'], w.repos[0].key.public_key(), 'commit')
    n = len(payload['ops'])
    ctx.nontrivial(n > 20)
    ctx.label('over 150 ops' if n > 150 else 'over 50 ops' if n > 50 else 'fewer ops')


def selfcheck():
    """The partial tree agrees with the reference on whole trees."""
    rnd = random.Random(1)
    pool = gen.pool()
    for _ in range(60):
        ks = rnd.sample(pool, rnd.randrange(0, 30))
        entries = {k: cid_of(dag_cbor.encode({'v': k})) for k in ks}
        ref = Ref(entries)
        t = partial.Partial(ref.blocks, ref.root)
        for _ in range(6):
            if entries and rnd.random() < .6:
                k = rnd.choice(sorted(entries))
                del entries[k]
                t.remove(k)
            else:
                k = rnd.choice(pool)
                if k in entries:
                    continue
                entries[k] = cid_of(dag_cbor.encode({'w': k}))
                t.insert(k, entries[k])
            if t.cid() != Ref(entries).root:
                raise HarnessError('partial tree disagrees with the reference')


valid = st.one_of(st.sampled_from(world.paths()), gen.layered_key(), gen.layered_key())
W = st.one_of(st.tuples(st.just('put'), valid, st.integers(0, 6)), st.tuples(st.just('put'), valid, st.integers(0, 6)),
              st.tuples(st.just('del'), st.integers(0, 60)), st.tuples(st.just('del'), st.integers(0, 60)), st.tuples(st.just('change'), st.integers(0, 60), st.integers(0, 6))).map(list)
OP = st.one_of(st.tuples(st.just('commit'), st.integers(0, 1), st.lists(W, max_size=8)), st.tuples(st.just('commit'), st.just(0), st.lists(W, min_size=1, max_size=1)),
               st.tuples(st.just('commit'), st.just(0), st.lists(W, min_size=1, max_size=12))).map(list)
IMPORT = st.tuples(st.just('import'), st.integers(0, 1), st.lists(st.tuples(valid, st.integers(0, 4)).map(list), max_size=10)).map(list)

CHECK = Check('P14', 'a commit event with operations that were undone', [
    Test('history', st.fixed_dictionaries({'storage': world.backend, 'start': st.integers(0, 30),
        'ops': st.builds(lambda a, b: a + b, st.lists(IMPORT, max_size=1), st.lists(OP, min_size=1, max_size=8))}), history, 350),
    Test('proofs', st.fixed_dictionaries({'keys': st.one_of(gen.keysets(0, 60), st.lists(gen.layered_key(), min_size=20, max_size=70, unique=True), st.lists(gen.key(), min_size=20, max_size=70, unique=True)), 'writes': st.one_of(st.lists(W, min_size=1, max_size=1), st.lists(W, min_size=1, max_size=10))}), proofs, 1200),
    Test('large', st.fixed_dictionaries({'keys': st.integers(1, 500), 'seed': st.integers(0, 10**6), 'near': st.booleans(),
        'dels': st.one_of(st.just(0), st.integers(0, 20), st.integers(50, 200)), 'puts': st.one_of(st.just(0), st.integers(0, 60)),
        'adds': st.one_of(st.just(0), st.integers(0, 20), st.integers(50, 200))}), large, 150),
], setup=selfcheck)
