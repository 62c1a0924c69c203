"""Datastore commits are atomic under backend failures and crashes."""
import dag_cbor
from google.api_core import exceptions as gexc
from hypothesis import strategies as st
from multiformats import CID
from vlib.core import Check, Test, check, eq, Violation, HarnessError
from vlib import fakeds, world
from vlib.world import World, Ref, Repo, b32, cid_of, rev_of, verify, KEYS, DIDS
from vlib.mstref import decode_tree

TRANSIENT = [gexc.Aborted, gexc.ServiceUnavailable, gexc.InternalServerError]
PERMANENT = [gexc.PermissionDenied, gexc.DeadlineExceeded, gexc.ResourceExhausted]


class Interrupt(BaseException):
    """Like Ctrl-C, or gevent's and gunicorn's timeouts: the call is given up, the process lives."""


class Raw:
    """What is stored, read without going through arroba or ndb."""
    def __init__(self, fake):
        self.blocks, self.seqs, self.heads = {}, {}, {}
        for p, e in fake.entities():
            kind, name = p[-1]
            if kind == 'AtpBlock':
                self.blocks[name] = bytes(e.properties['encoded'].blob_value)
                self.seqs[name] = e.properties['seq'].integer_value
            elif kind == 'AtpRepo':
                self.heads[name] = e.properties['head'].string_value

    def get(self, cid):
        return self.blocks.get(b32(cid))

    def commit(self, name):
        """The commit at a head, with everything reachable from it present."""
        data = self.blocks.get(name)
        check(data is not None, 'head %s is not stored', name)
        eq(b32(cid_of(data)), name, 'bytes of the head commit')
        c = dag_cbor.decode(data)
        try:
            entries, _ = decode_tree(c['data'], self.get)
        except (KeyError, ValueError) as e:
            raise Violation(f'under head {name}: {e}')
        for p, v in entries.items():
            data = self.get(v)
            check(data is not None, 'under head %s: record %s is not stored', name, p)
            eq(b32(cid_of(data)), b32(v), f'bytes of record {p}')
        return c, entries


def fault(fake, point, kind, n):
    """Arms one fault at RPC number `point` from now."""
    base = len(fake.calls)
    err = Interrupt() if 'interrupt' in kind else (TRANSIENT if 'transient' in kind or kind == 'outage' else PERMANENT)[n % 3]('injected')
    state = {'hit': None}

    def hook(i, name, request):
        i -= base
        if i < point:
            return None
        if kind == 'outage':
            state['hit'] = name
            raise err
        if i > point:
            return None
        state['hit'] = name
        if kind == 'crash before':
            fake.dead = True
            return None
        if kind == 'crash after':
            return fakeds.Crash()
        if kind.endswith('before'):
            raise err
        return err
    fake.on_rpc = hook
    return state


KINDS = ['crash before', 'crash after', 'transient before', 'transient after', 'permanent before', 'permanent after', 'outage',
         'interrupt before', 'interrupt after']


def history(case, ctx):
    w = World('ds', ctx, 'request', callbacks=False)
    for i in range(case['repos']):
        w.create(i)
    for i, writes in case['before']:
        w.commit(i % case['repos'], w.resolve(i % case['repos'], writes))
    i = case['repo'] % case['repos']
    m = w.repos[i]
    resolved = w.resolve(i, case['writes'])
    writes = w.to_writes(resolved)
    new, ops = w.apply(m.contents, resolved)
    new_entries = {p: cid_of(dag_cbor.encode(r)) for p, r in new.items()}
    fake = w.fake
    saved = dict(fake.data)
    stale = case['stale'] and len(m.commits) > 1

    def handle():
        """The caller's object: freshly loaded, or behind the stored head."""
        with w.request():
            if stale:
                with_key = Repo.load(w.storage, cid=m.commits[-2]['cid'], signing_key=m.key, handle=m.handle)
                return with_key
            return w.storage.load_repo(m.did)

    def run(h):
        with w.request():
            return w.storage.commit(h, writes)

    def again(world_storage=None):
        """A new process: nothing survives but what is stored."""
        fake.dead, fake.on_rpc = False, None
        fake.txs.clear()
        fakeds.reset_context()
        from arroba.datastore_storage import DatastoreStorage
        w.storage = DatastoreStorage(ndb_client=w.client)

    # how many RPCs it takes
    h = handle()
    n0 = len(fake.calls)
    run(h)
    total = len(fake.calls) - n0
    old_head = b32(m.commits[-1]['cid'])
    points = 0
    for point in range(total):
        for kind in case['kinds']:
            what = f'{kind} at RPC {point} of {total}'
            fake.data = dict(saved)
            again()
            h = handle()
            was = (h.head.cid, h.mst.get_pointer())
            reported, allocated = [], []
            h.callback = lambda **kw: reported.append({k: v for k, v in kw.items() if v is not None})
            orig_allocate = w.storage.sequences.allocate

            def allocate(nsid):
                allocated.append(orig_allocate(nsid))
                return allocated[-1]
            w.storage.sequences.allocate = allocate
            armed = fault(fake, point, kind, case['n'])
            crashed = False
            result = error = None
            try:
                result = run(h)
            except fakeds.Crash:
                crashed = True
            except (Exception, Interrupt) as e:
                error = e
            fake.on_rpc = None
            h.callback = None
            if error is not None and 'interrupt' in kind:
                fakeds.reset_context()
            if not armed['hit']:
                continue      # shorter this time
            what += f' ({armed["hit"]})'
            points += 1
            raw = Raw(fake)
            head = raw.heads.get(m.did)
            took_effect = head != old_head
            if result:
                eq(head, b32(result.commit.cid), f'{what}: commit returned success, stored head')
            if took_effect:
                c, entries = raw.commit(head)
                eq(entries, new_entries, f'{what}: contents at the new head')
                eq(b32(c['prev']), old_head, f'{what}: prev of the new head')
                eq(c['data'], Ref(new_entries).root, f'{what}: data root of the new head')
                check(verify(c, m.key.public_key()), '%s: signature of the new head', what)
                eq(c['rev'], rev_of(raw.seqs[head]), f'{what}: rev of the new head')
            if not crashed and not took_effect:
                check(len(allocated) <= 1, '%s: allocated %s', what, allocated)
                eq(reported, [{'lost_seq': n} for n in allocated], f'{what}: commit failed, reported')
            elif result:
                eq([list(x) for x in reported], [['data']], f'{what}: reported')
            # every head ever committed is still fully readable
            for mm in w.repos.values():
                eq(raw.heads.get(mm.did) if mm is not m else old_head, b32(mm.commits[-1]['cid']), f'{what}: head of {mm.did}')
                for c0 in mm.commits:
                    _, entries = raw.commit(b32(c0['cid']))
                    eq(entries, {p: cid_of(dag_cbor.encode(r)) for p, r in c0['contents'].items()}, f'{what}: contents at an earlier head')
            if not crashed and not took_effect and not stale:
                eq((h.head.cid, h.mst.get_pointer()), was, f'{what}: commit failed, caller\'s object')
            # a new process sees one of the two states, and the log agrees
            again()
            r = w.load(i)
            eq(b32(r.head.cid), head, f'{what}: head loaded by a new process')
            eq(w.contents_of(r), new if took_effect else m.contents, f'{what}: contents loaded by a new process')
            judge_log(w, m, what, took_effect and head)
            if not took_effect:
                # simply again: with the same object if its process lives
                again_h = r if crashed or case['n'] % 2 else h
                if not crashed and not (case['n'] % 2):
                    h.storage = w.storage
                with w.request():
                    d = w.storage.commit(again_h, writes)
                raw = Raw(fake)
                eq(raw.heads[m.did], b32(d.commit.cid), f'{what}: head after repeating the failed commit')
                c, entries = raw.commit(raw.heads[m.did])
                eq(entries, new_entries, f'{what}: contents after repeating the failed commit')
                eq(b32(c['prev']), old_head, f'{what}: prev after repeating the failed commit')
                judge_log(w, m, f'{what}, repeated', raw.heads[m.did])
            ctx.label(kind, 'took effect' if took_effect else 'no effect', f'at {armed["hit"]}')
            if kind.startswith('transient') and result: ctx.label('survived by retrying')
    ctx.nontrivial(points >= 5)


def judge_log(w, m, what, new_head):
    with w.request():
        events = list(w.storage.read_events_by_seq(start=1))
    got = [b32(e.commit.cid) if not isinstance(e, dict) else (e['$type'].split('#')[1], e['seq']) for e in events]
    want = [b32(d['cid']) if k == 'commit' else (k, s) for s, k, d in w.log]
    eq(got, want + ([new_head] if new_head else []), f'{what}: stored event log')


def creation(case, ctx):
    """Creating a repo, with every fault: afterwards there is no such repo, or all of it, and
    creating it again works."""
    w = World('ds', ctx, 'request', callbacks=False)
    w.create(1)
    w.commit(1, [('create', 'app.x.y/a', world.record(1))])
    fake = w.fake
    saved = dict(fake.data)

    def run():
        with w.request():
            return Repo.create(w.storage, DIDS[0], signing_key=KEYS[0], rotation_key=KEYS[6], handle='h0.com')
    n0 = len(fake.calls)
    run()
    total = len(fake.calls) - n0
    for point in range(total):
        for kind in case['kinds']:
            fake.data = dict(saved)
            fake.dead, fake.on_rpc = False, None
            fake.txs.clear()
            fakeds.reset_context()
            armed = fault(fake, point, kind, case['n'])
            done = False
            try:
                run()
                done = True
            except (fakeds.Crash, Exception):
                pass
            fake.dead, fake.on_rpc = False, None
            fake.txs.clear()
            fakeds.reset_context()
            what = f'create with {kind} at RPC {point} of {total} ({armed["hit"]})'
            raw = Raw(fake)
            head = raw.heads.get(DIDS[0])
            check(head or not done, '%s: returned success but is not stored', what)
            with w.request():
                r = w.storage.load_repo(DIDS[0])
            eq(r is not None, head is not None, f'{what}: loads')
            if not head:
                r = run()
                head = Raw(fake).heads.get(DIDS[0])
                eq(head, b32(r.head.cid), f'{what}: head after creating again')
            c, entries = Raw(fake).commit(head)
            eq((c['did'], entries, c['prev']), (DIDS[0], {}, None), f'{what}: first commit')
            with w.request():
                w.storage.commit(w.storage.load_repo(DIDS[0]), w.to_writes([('create', 'app.x.y/b', world.record(2))]))
            _, entries = Raw(fake).commit(Raw(fake).heads[DIDS[0]])
            eq(list(entries), ['app.x.y/b'], f'{what}: contents after a commit')
            with w.request():
                list(w.storage.read_events_by_seq(start=1))
            ctx.label(kind)
    ctx.nontrivial()


kinds = st.lists(st.sampled_from(KINDS), unique=True, min_size=1, max_size=2)
CHECK = Check(
    'P07', level='fault_enumeration',
    rule='a generated history of commits over 1-2 repos, then one commit repeated with a fault at every backend call it makes, of 1-2 of 9 kinds (crash, transient or permanent error, interruption, before or '
         'after the call took effect; outage from there on), through a current or an out-of-date repo object; same for repo creation. Non-trivial: at least 5 fault points.',
    assumptions=['the Datastore service is an in-process fake under the real ndb client: serializable transactions, strongly consistent reads',
                 'a commit that failed although it took effect is not repeated'],
    tests=[Test('history', st.fixed_dictionaries({
        'repos': st.integers(1, 2), 'before': st.lists(st.tuples(st.integers(0, 1), world.writes(4)).map(list), max_size=4),
        'repo': st.integers(0, 1), 'writes': world.writes(5), 'stale': st.booleans(), 'kinds': kinds, 'n': st.integers(0, 5)}), history, 80, 6000),
        Test('creation', st.fixed_dictionaries({'kinds': kinds, 'n': st.integers(0, 5)}), creation, 8, 60)])
