"""In-memory and Datastore storage behave identically."""
import copy, threading
import dag_cbor
from carbox import read_car
from hypothesis import strategies as st
from arroba import server

from arroba.storage import Action, Block, CommitData
from vlib import gen, imports, values, web, world
from vlib.core import Check, Test, check, eq, Violation
from vlib.mstref import cid_of
from vlib.world import DIDS, KEYS, NSID, Repo, World, Write, b32, record

ABSENT = cid_of(dag_cbor.encode({'absent': 1}))
PREFIX = 'com.atproto.sync.subscribeRepos#'


class Side:
    """One storage, and names for its commits that don't depend on signatures."""
    def __init__(self, kind, ctx, case):
        self.w = World(kind, ctx, case['context'])
        self.s = self.w.storage
        if self.w.fake:
            self.w.fake.batch = case['batch']
        self.commits = {}     # CID -> name
        self.repos = {}       # index -> [handles]
        self.calls = []
        self.extra = []       # CIDs of blocks written directly

    def callback(self, data=None, lost_seq=None):
        self.calls.append(('lost', lost_seq) if data is None else self.event(data))

    def name(self, cid):
        """A comparable name of a CID; commits' and events' depend on signatures and times."""
        return self.commits.get(cid) or (b32(cid) if cid else None)

    def block(self, b):
        """What is visible of a block."""
        if b is None:
            return None
        d = b.decoded
        enc = b.encoded
        cid = self.name(b.cid)
        if isinstance(d.get('$type'), str) and d['$type'].startswith(PREFIX) and 'time' in d:
            d = self.plain(d)
            enc, cid = dag_cbor.encode(d), 'event'
        elif b.cid in self.commits:
            enc = sorted((k, self.name(v) if k in ('prev', 'data') else v) for k, v in d.items() if k != 'sig')
        ops = [(o.action, o.path, o.cid, o.prev_cid) for o in b.ops or []]
        return (cid, enc, b.seq, b.repo, ops)

    def event(self, e):
        if isinstance(e, CommitData):
            self.commits.setdefault(e.commit.cid, f'commit {e.commit.decoded["did"]} {e.commit.decoded["rev"]}')
            return ('commit', self.block(e.commit), self.name(e.prev), sorted(b32(c) if c not in self.commits else self.commits[c] for c in e.blocks))
        return tuple(sorted(self.plain(e).items(), key=repr))

    def plain(self, e):
        """An event without its time, and its archive as names of blocks."""
        e = {**e, 'time': None}
        if isinstance(e.get('blocks'), bytes):
            roots, blocks = read_car(e['blocks'])
            e['blocks'] = [self.name(r) for r in roots] + [self.name(b.cid) for b in blocks]
        return e

    def repo(self, r):
        """What is visible of a freshly loaded repo."""
        if r is None:
            return None
        self.commits.setdefault(r.head.cid, f'commit {r.did} {r.head.decoded["rev"]}')
        with self.w.request():
            contents = r.get_contents()
            root = r.mst.get_pointer()
        return (r.did, r.handle, r.status, self.block(r.head), b32(root), contents,
                r.head.decoded['rev'], self.name(r.head.decoded['prev']))

    def load(self, did):
        with self.w.request():
            return self.s.load_repo(did)

    def state(self):
        """Everything visible."""
        with self.w.request():
            last = self.s.sequences.last(NSID)
            blocks = {}
            order = []
            for b in self.s.read_blocks_by_seq():
                order.append(b.seq)
                blocks.setdefault(b.seq, []).append(self.block(b))
            check(order == sorted(order), '%s: blocks out of order: %s', self.w.kind, order)
            repos = self.s.load_repos()
            listed = [(r.did, r.status, self.name(r.head.cid), r.handle) for r in repos]
        return {'last': last, 'blocks': {k: sorted(v, key=repr) for k, v in blocks.items()}, 'repos': listed,
                'loaded': [self.repo(self.load(DIDS[i])) for i in self.repos]}

    def run(self, op):
        """Runs an operation. Returns something comparable."""
        server.storage = self.s
        kind, i = op[0], op[1] % 3
        did = DIDS[i]
        with self.w.request():
            if kind == 'create':
                if i in self.repos:
                    return
                r = Repo.create(self.s, did, signing_key=KEYS[i], rotation_key=KEYS[i + 6],
                                handle=f'h{i}.com' if op[2] else None, callback=self.callback if op[3] else None)
                self.repos[i] = [r]
                return self.repo(r)
            if kind == 'import':
                return
            if kind == 'log':
                last = self.s.sequences.last(NSID) or 0
                who = DIDS[op[3]] if op[3] < 3 else None
                start = op[2] % (last + 3)
                evs = [self.event(e) for e in self.s.read_events_by_seq(start=start, repo=who)]
                evs2 = [self.event(e) for e in self.s.read_events_by_seq(start=start, repo=who)]
                eq(evs, evs2, f'{self.w.kind}: reading the log again')
                return evs
            if kind == 'find':
                names = [DIDS[i], f'h{i}.com', 'nobody.com', 'did:web:nobody.com', DIDS[i] + 'x', f'h{i}.co']
                return self.repo(self.s.load_repo(names[op[2] % len(names)]))
            if kind == 'list':
                after = [None, DIDS[i], 'did:plc:m', 'did:', 'e'][op[2] % 5]
                return [(r.status, self.name(r.head.cid), *(() if op[3] % 2 else (r.did, r.handle)))
                        for r in self.s.load_repos(after=after, limit=1 + op[3] % 4, minimal=bool(op[3] % 2))]
            if kind == 'alloc':
                return self.s.sequences.allocate(f'stream.{op[2]}'), self.s.sequences.last(f'stream.{op[3]}')
            if kind == 'write':
                obj = {'written': op[2]}
                self.extra.append(cid_of(dag_cbor.encode(obj)))
                return self.block(self.s.write(did, obj, seq=op[3] or None))
            if kind == 'blocks':
                seq = 1 + op[3] % self.s.sequences.last(NSID)
                bs = [Block(decoded={'written': n}, seq=seq, repo=did) for n in op[2]]
                self.extra += [b.cid for b in bs]
                return self.s.write_blocks(bs)
            if kind == 'read':
                known = sorted(self.extra, key=b32) + [ABSENT] + [cid_of(dag_cbor.encode(record(n))) for n in range(3)]
                want = [known[k % len(known)] for k in op[2]]
                raw = self.s.read_many_raw([bytes(c) for c in want])
                return ([self.block(self.s.read(c)) for c in want], [self.s.has(c) for c in want],
                        {b32(c): self.block(b) for c, b in self.s.read_many(want).items()},
                        {bytes(c): (bytes(v[0]), v[1]) for c, v in raw.items()})
            if i not in self.repos:
                return
            hs = self.repos[i]
            h = hs[op[2] % len(hs)]
            if kind == 'load':
                r = self.s.load_repo(did)
                r.callback = hs[0].callback     # in memory it's the same object
                hs.append(r)
                return self.repo(r)
            if kind == 'commit':
                r = h if h.head.cid == self.s.load_repo(did).head.cid else self.s.load_repo(did)
                have = {f'{c}/{k}': v for c, rs in r.get_contents().items() for k, v in rs.items()} if not r.status else {}
                return self.commit(h, have, op[3])
            if kind == 'raw':      # writes as they come, valid or not
                return self.commit(h, {}, op[3], resolve=False)
            if kind == 'status':
                # deactivating a tombstoned repo, and handles that missed a change, are not specified
                cur = self.s.load_repo(did).status
                if cur == 'tombstoned' and op[3] != 'activate':
                    return
                getattr(self.s, f'{op[3]}_repo')(h)
                for x in hs:
                    x.status = self.s.load_repo(did).status
                return self.repo(self.s.load_repo(did))
        raise AssertionError(kind)

    def commit(self, r, have, ws, resolve=True):
        have = set(have)
        writes = []
        for w in ws:
            if resolve:
                if w[0] == 'put':
                    a, p, rec = ('UPDATE' if w[1] in have else 'CREATE'), w[1], record(w[2])
                    have.add(p)
                else:
                    if not have:
                        continue
                    p = sorted(have)[w[1] % len(have)]
                    a, rec = ('DELETE', None) if w[0] == 'del' else ('UPDATE', record(w[2]))
                    if w[0] == 'del':
                        have.discard(p)
            else:
                p = w[1] if w[0] == 'put' else world.paths()[w[1] % len(world.paths())]
                a = {'put': 'CREATE', 'del': 'DELETE', 'change': 'UPDATE'}[w[0]]
                rec = None if a == 'DELETE' else record(w[2])
            coll, _, rkey = p.partition('/')
            writes.append(Write(action=Action[a], collection=coll, rkey=rkey, record=copy.deepcopy(rec)))
        data = self.s.commit(r, writes)
        return self.event(data), self.repo(self.s.load_repo(r.did))


def attempt(side, op):
    try:
        return ('ok', side.run(op))
    except Violation:
        raise
    except Exception as e:
        return ('error', type(e).__name__, str(e) if isinstance(e, (ValueError, world.InactiveRepo)) else None)


def history(case, ctx):
    sides = [Side('mem', ctx, case), Side('ds', ctx, case)]
    errors = commits = 0
    for n, op in enumerate([['create', 0, 1, 1]] + case['ops']):
        a, b = [attempt(s, op) for s in sides]
        eq(b, a, f'step {n} {op}: Datastore (got) vs in-memory (want)')
        errors += a[0] == 'error'
        commits += op[0] in ('commit', 'raw') and a[0] == 'ok'
        eq(sides[1].calls, sides[0].calls, f'step {n} {op}: callbacks, Datastore (got) vs in-memory (want)')
        if n % 4 == 3:
            a, b = [s.state() for s in sides]
            for k in a:
                eq(b[k], a[k], f'after step {n} {op}: {k}, Datastore (got) vs in-memory (want)')
        ctx.label(*([op[0]] if a and a[0] == 'ok' else [f'{op[0]} error']) if isinstance(a, tuple) else [])
    a, b = [s.state() for s in sides]
    for k in a:
        eq(b[k], a[k], f'at the end: {k}, Datastore (got) vs in-memory (want)')
    ctx.nontrivial(commits >= 2 and (errors or len(sides[0].repos) > 1))
    if errors: ctx.label('some error')


def walk(case, ctx):
    """Reading the log in any number of query batches, with the reader's ndb context changing
    or ending half way, returns the same blocks as one pass."""
    w = World('ds', ctx, 'request')
    for i in range(2):
        w.create(i)
    for n, ws in enumerate(case['commits']):
        w.commit(n % 2, w.resolve(n % 2, ws))
    last = w.last_seq()
    start = case['start'] % (last + 2)
    repo = DIDS[case['repo']] if case['repo'] < 2 else None
    want = {b.cid: b.seq for b in one_pass(w, start, repo)}
    w.fake.batch = case['batch']
    for fn in 'read_blocks_by_seq', 'read_events_by_seq':
        got = []
        cuts = list(case['cuts'])
        it = getattr(w.storage, fn)(start=start, **({'repo': repo} if repo else {}))
        done = False
        while not done:
            n, how = cuts.pop(0) if cuts else [10**6, 0]
            def some():
                for _ in range(n):
                    try:
                        got.append(next(it))
                    except StopIteration:
                        return True
                return False
            if how == 0:
                with w.client.context():
                    done = some()
            elif how == 1:
                done = in_thread(some)      # no context of its own
            else:
                with w.client.context(cache_policy=lambda key: False):
                    done = some()
        if fn == 'read_blocks_by_seq':
            seqs = [b.seq for b in got]
            check(seqs == sorted(seqs), 'blocks out of order: %s', seqs)
            eq(sorted(b32(b.cid) for b in got), sorted(map(b32, want)), f'blocks from {start} read in batches of {case["batch"]} and pieces {case["cuts"]}')
        else:
            seqs = [e['seq'] if isinstance(e, dict) else e.commit.seq for e in got]
            eq(seqs, [x[0] for x in w.log if x[0] >= start and (not repo or x[2]['did'] == repo)], f'events read in batches of {case["batch"]} and pieces {case["cuts"]}')
        from vlib import fakeds
        fakeds.reset_context()
    ctx.nontrivial(len(want) > 5 and (case['batch'] < 10 or case['cuts']))
    ctx.label('cut' if case['cuts'] else 'batches')


def in_thread(fn):
    out = []
    def run():
        try:
            out.append(fn())
        except BaseException as e:
            out.append(e)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if isinstance(out[0], BaseException):
        raise out[0]
    return out[0]


def one_pass(w, start, repo):
    import vlib.fakeds as f
    from arroba.datastore_storage import AtpBlock
    out = []
    for raw_path in w.fake.snapshot():
        if raw_path[0][0] == 'AtpBlock':
            with w.client.context():
                b = AtpBlock.get_by_id(raw_path[0][1]).to_block()
            if b.seq >= start and (not repo or b.repo == repo):
                out.append(b)
    return out


i3 = st.integers(0, 2)
OP = st.one_of(
    st.tuples(st.just('commit'), i3, st.integers(0, 3), world.writes(4)),
    st.tuples(st.just('commit'), st.just(0), st.integers(0, 3), world.writes(4)),
    st.tuples(st.just('raw'), i3, st.integers(0, 3), world.writes(3)),
    st.tuples(st.just('create'), i3, st.integers(0, 1), st.integers(0, 1)),
    st.tuples(st.just('load'), i3, st.just(0)),
    st.tuples(st.just('status'), i3, st.integers(0, 3), st.sampled_from(['deactivate', 'activate', 'tombstone', 'activate', 'activate'])),
    st.tuples(st.just('log'), st.just(0), st.integers(0, 50), st.integers(0, 5)),
    st.tuples(st.just('find'), i3, st.integers(0, 5)),
    st.tuples(st.just('list'), i3, st.integers(0, 4), st.integers(0, 7)),
    st.tuples(st.just('alloc'), st.just(0), st.integers(0, 2), st.integers(0, 2)),
).map(list)
RAW = st.one_of(
    st.tuples(st.just('write'), i3, st.integers(0, 5), st.just(0)),
    st.tuples(st.just('blocks'), i3, st.lists(st.integers(0, 5), unique=True, max_size=5), st.integers(0, 9)),
    st.tuples(st.just('read'), i3, st.lists(st.integers(0, 12), max_size=5)),
    st.tuples(st.just('commit'), st.just(0), st.integers(0, 3), world.writes(4)),
).map(list)
base = {'context': st.sampled_from(['request', 'nocache', 'none']), 'batch': st.sampled_from([1, 2, 5, 300])}

CHECK = Check('P28', 'at least 2 commits succeeded and either something was rejected or there is more than one repo; or a log of more than 5 blocks read in small batches or with the context changing', [
    Test('history', st.fixed_dictionaries({**base, 'ops': st.lists(OP, min_size=3, max_size=14)}), history, 400),
    Test('blocks', st.fixed_dictionaries({**base, 'ops': st.lists(RAW, min_size=3, max_size=10)}), history, 150),
    Test('walk', st.fixed_dictionaries({'commits': st.lists(world.writes(4), min_size=1, max_size=6), 'start': st.integers(0, 20),
         'repo': st.integers(0, 3), 'batch': st.sampled_from([1, 2, 3, 7, 300]),
         'cuts': st.lists(st.tuples(st.integers(1, 8), st.integers(0, 2)).map(list), max_size=4)}), walk, 200),
])
