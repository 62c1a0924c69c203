"""A server under test with one of the two storages, driven by generated operations,
next to a model of what it should contain.

Repos are numbered; every generated operation names a repo by index."""
import contextlib, copy, os
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
from cryptography.exceptions import InvalidSignature
from hypothesis import strategies as st
import dag_cbor
from google.cloud.ndb import context as ndb_ctx
from multiformats import CID
from arroba import server, util, storage as storage_mod
from arroba.repo import Repo, Write
from arroba.storage import Action, Block, CommitData, MemoryStorage, SUBSCRIBE_REPOS_NSID
from arroba.util import InactiveRepo
from vlib import fast, gen, values
from vlib.core import check, eq, raises, Violation, HarnessError
from vlib.mstref import Ref, cid_of, decode_tree

fast.install()

NSID = SUBSCRIBE_REPOS_NSID
K1N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
KEYS = [ec.derive_private_key(n, ec.SECP256K1()) for n in range(21, 33)]
DIDS = ['did:web:alice.com', 'did:plc:aaaaaaaaaaaaaaaaaaaaaaaa', 'did:web:bob.com', 'did:web:al.com',
        'did:plc:zzzzzzzzzzzzzzzzzzzzzzzz', 'did:web:alice.com%3A99']
COMMIT_FIELDS = {'version', 'did', 'rev', 'prev', 'data', 'sig'}
ALPHABET = '234567abcdefghijklmnopqrstuvwxyz'


def record(n):
    """Small records; equal n means equal bytes."""
    return {'$type': 'app.x.y', 'n': n}


def b32(cid):
    return cid.encode('base32')


def rev_of(seq):
    out = ''
    for _ in range(11):
        out = ALPHABET[seq & 31] + out
        seq >>= 5
    return out + '22'


def verify(obj, pub):
    """Independent check of a commit's signature."""
    sig = obj['sig']
    if len(sig) != 64 or int.from_bytes(sig[32:], 'big') > K1N // 2:
        return False
    der = encode_dss_signature(int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big'))
    try:
        pub.verify(der, dag_cbor.encode({k: v for k, v in obj.items() if k != 'sig'}), ec.ECDSA(hashes.SHA256()))
        return True
    except InvalidSignature:
        return False


class RepoModel:
    def __init__(self, did, key, handle):
        self.did, self.key, self.handle = did, key, handle
        self.contents = {}      # path -> record
        self.status = None
        self.commits = []       # dicts: seq, cid, data, ops, prev, contents
        self.imported = False

    @property
    def entries(self):
        return {p: cid_of(dag_cbor.encode(r)) for p, r in self.contents.items()}


class World:
    """storage is 'mem' or 'ds'. context is how ndb contexts are used, for 'ds':
    'request' (a context per operation, as the app does), 'nocache', or 'none'."""
    def __init__(self, storage, ctx, context='request', callbacks=True, sequences=None, fake=None, validate=True):
        self.kind, self.ctx, self.context = storage, ctx, context
        self.validate = server.server._validate if hasattr(server.server, '_validate') else None
        self.repos = {}         # index -> RepoModel
        self.handles = {}       # index -> Repo, the live object
        self.others = {}        # index -> [Repo, ...] more handles on the same repo
        self.log = []           # (seq, kind, details) events that should be in the stored log
        self.calls = []         # what callbacks reported since last take
        self.callbacks = callbacks
        self.lost = set()
        if storage == 'mem':
            self.storage = MemoryStorage(**({'sequences': sequences} if sequences else {}))
            self.fake = None
        else:
            from vlib import fakeds
            from arroba.datastore_storage import DatastoreStorage
            if fake is None:
                self.fake = fakeds.fresh()
            else:
                self.fake = fake
                fakeds.use(fake)
            self.client = fakeds.client()
            self.storage = DatastoreStorage(ndb_client=self.client, **({'sequences': sequences} if sequences else {}))
            ctx.cleanup(fakeds.reset_context)
        server.storage = self.storage
        ctx.cleanup(lambda: setattr(server, 'storage', None))

    @contextlib.contextmanager
    def request(self):
        if self.kind == 'mem' or self.context == 'none':
            yield
        elif ndb_ctx.get_context(raise_context_error=False):
            yield       # nested in a request
        elif self.context == 'nocache':
            with self.client.context(cache_policy=lambda key: False):
                yield
        else:
            with self.client.context():
                yield

    def callback(self, data=None, lost_seq=None):
        if data is not None:
            self.calls.append(('data', data))
        if lost_seq is not None:
            self.calls.append(('lost', lost_seq))

    def take(self):
        calls, self.calls = self.calls, []
        return calls

    def last_seq(self):
        with self.request():
            return self.storage.sequences.last(NSID) or 0

    # --- operations

    def create(self, i):
        did = DIDS[i]
        m = RepoModel(did, KEYS[i], f'h{i}.com')
        self.take()
        before = self.last_seq()
        with self.request():
            r = Repo.create(self.storage, did, signing_key=KEYS[i], rotation_key=KEYS[i + 6], handle=m.handle,
                            callback=self.callback if self.callbacks else None)
        self.repos[i], self.handles[i], self.others[i] = m, r, []
        self.committed(i, r.head, [], before + 1)
        for n, kind in enumerate(('identity', 'account', 'sync')):
            self.log.append((before + 2 + n, kind, {'did': did}))
        return r

    def committed(self, i, head, ops, seq):
        """Records in the model that repo i now has this head."""
        m = self.repos[i]
        c = {'seq': seq, 'cid': head.cid, 'ops': ops, 'prev': m.commits[-1]['cid'] if m.commits else None,
             'contents': dict(m.contents), 'data': Ref(m.entries).root}
        m.commits.append(c)
        self.log.append((seq, 'commit', {'did': m.did, **c}))
        return c

    def load(self, i, callback=True):
        with self.request():
            r = self.storage.load_repo(self.repos[i].did)
            if r is not None and callback and self.callbacks:
                r.callback = self.callback
        return r

    def open(self, i):
        """Like load, but an object of its own, by way of the repo's head, on either storage."""
        m = self.repos[i]
        with self.request():
            return Repo.load(self.storage, cid=m.commits[-1]['cid'], handle=m.handle, signing_key=KEYS[i],
                             rotation_key=KEYS[i + 6], callback=self.callback if self.callbacks else None)

    def resolve(self, i, writes):
        """Generated writes -> [(action, path, record)], each valid given the ones before.
        Write forms: ['put', path, n] ['del', index] ['create'|'update'|'delete', path, n] as is."""
        have = dict(self.repos[i].contents)
        out = []
        for w in writes:
            if w[0] == 'put':
                out.append(('update' if w[1] in have else 'create', w[1], record(w[2])))
                have[w[1]] = record(w[2])
            elif w[0] == 'del':
                if not have:
                    continue
                p = sorted(have)[w[1] % len(have)]
                out.append(('delete', p, None))
                del have[p]
            elif w[0] == 'change':
                if not have:
                    continue
                p = sorted(have)[w[1] % len(have)]
                out.append(('update', p, record(w[2])))
                have[p] = record(w[2])
            else:
                out.append((w[0], w[1], None if w[0] == 'delete' else w[2] if isinstance(w[2], dict) else record(w[2])))
        return out

    @staticmethod
    def to_writes(resolved):
        out = []
        for a, p, rec in resolved:
            coll, _, rkey = p.partition('/')
            out.append(Write(action=Action[a.upper()], collection=coll, rkey=rkey, record=copy.deepcopy(rec)))
        return out

    @staticmethod
    def apply(contents, resolved):
        """(new contents, expected ops as (action, path, cid, prev cid)). Ops leave out updates
        that change nothing."""
        new, ops = dict(contents), []
        for a, p, rec in resolved:
            old = cid_of(dag_cbor.encode(new[p])) if p in new else None
            if a == 'delete':
                del new[p]
                ops.append(('delete', p, None, old))
            else:
                c = cid_of(dag_cbor.encode(rec))
                new[p] = rec
                if a == 'create':
                    ops.append(('create', p, c, None))
                elif c != old:
                    ops.append(('update', p, c, old))
        return new, ops

    def commit(self, i, resolved, handle=None):
        """A valid commit, checked against what it returns. Returns CommitData."""
        r = handle or self.handles[i]
        m = self.repos[i]
        new, ops = self.apply(m.contents, resolved)
        before = self.last_seq()
        self.take()
        writes = self.to_writes(resolved)
        if len(writes) == 1 and len(resolved[0][1]) % 2:
            writes = writes[0]       # a single Write is accepted too
        with self.request():
            data = self.storage.commit(r, writes)
        m.contents = new
        c = self.committed(i, data.commit, ops, before + 1)
        if self.callbacks and r.callback:
            calls = self.take()
            check(len(calls) == 1 and calls[0][0] == 'data' and calls[0][1].commit.cid == data.commit.cid,
                  'callback reported %s for one commit', calls)
        return data

    STATUS = {'deactivate': 'deactivated', 'activate': None, 'tombstone': 'tombstoned'}

    def set_status(self, i, what, handle=None):
        r = handle or self.handles[i]
        m = self.repos[i]
        before = self.last_seq()
        self.take()
        with self.request():
            getattr(self.storage, f'{what}_repo')(r)
        if m.status == 'tombstoned' and what == 'activate':
            # does nothing
            eq(self.take(), [], 'callbacks for activating a tombstoned repo')
            eq(self.last_seq(), before, 'sequence after activating a tombstoned repo')
            return None
        m.status = self.STATUS[what]
        kind = 'tombstone' if what == 'tombstone' else 'account'
        details = {'did': m.did}
        if kind == 'account':
            details.update({'active': what == 'activate'}, **({'status': 'deactivated'} if what == 'deactivate' else {}))
        self.log.append((before + 1, kind, details))
        return self.log[-1]

    # --- oracles

    def contents_of(self, r):
        """{path: record} by public reads on a Repo object."""
        with self.request():
            c = r.get_contents()
        return {f'{coll}/{rkey}': rec for coll, rs in c.items() for rkey, rec in rs.items()}

    def judge_repo(self, i, r, what, deep=True):
        """A Repo object agrees with the model."""
        m = self.repos[i]
        check(r is not None, '%s: repo %s not found', what, m.did)
        last = m.commits[-1]
        eq(r.did, m.did, f'{what}: did')
        eq(b32(r.head.cid), b32(last['cid']), f'{what}: head')
        eq(r.status, m.status, f'{what}: status')
        if deep:
            eq(self.contents_of(r), m.contents, f'{what}: contents')
            with self.request():
                eq(r.mst.get_pointer(), last['data'], f'{what}: tree root')

    def judge_commit(self, i, block, what='head'):
        m = self.repos[i]
        last = m.commits[-1]
        c = block.decoded
        eq(set(c), COMMIT_FIELDS, f'{what}: commit fields')
        eq((c['did'], c['version']), (m.did, 3), f'{what}: did, version')
        eq(c['prev'], last['prev'], f'{what}: prev')
        eq(c['data'], last['data'], f'{what}: data root')
        eq(c['rev'], rev_of(last['seq']), f'{what}: rev')
        eq(block.seq, last['seq'], f'{what}: seq')
        revs = [rev_of(x['seq']) for x in m.commits]
        check(all(a < b for a, b in zip(revs, revs[1:])), '%s: revs do not increase: %s', what, revs)
        check(verify(c, m.key.public_key()), '%s: signature does not verify or is not low-S', what)
        eq(cid_of(block.encoded), block.cid, f'{what}: commit CID')

    def reachable(self, head_cid, what='head'):
        """{CID: bytes} of everything reachable from a commit, read back from storage and checked."""
        with self.request():
            b = self.storage.read(head_cid)
        check(b is not None, '%s: commit %s is not stored', what, b32(head_cid))
        out = {head_cid: b.encoded}
        def read(cid):
            with self.request():
                blk = self.storage.read(cid)
            check(blk is not None, '%s: block %s is not readable', what, b32(cid))
            eq(cid_of(blk.encoded), cid, f'{what}: bytes of block')
            out[cid] = blk.encoded
            return blk.encoded
        entries, _ = decode_tree(b.decoded['data'], read)
        for v in entries.values():
            read(v)
        return out, entries


# --- strategies

def path():
    return gen.key()


PATHS = None


def paths(n=14):
    """A small set of paths over several layers and two collections, so that histories collide."""
    by = gen.pool_by_layer()
    out = []
    for layer, count in ((0, 6), (1, 4), (2, 2), (3, 1), (4, 1)):
        ks = by[layer]
        out += [ks[0], ks[len(ks) // 2], ks[-1], ks[1], ks[-2], ks[2]][:count]
    return out[:n]


def write(rich=False):
    p = st.sampled_from(paths())
    p = st.one_of(p, p, p, path())
    n = st.integers(0, 4)
    return st.one_of(st.tuples(st.just('put'), p, n), st.tuples(st.just('put'), p, n),
                     st.tuples(st.just('del'), st.integers(0, 20)),
                     st.tuples(st.just('change'), st.integers(0, 20), n)).map(list)


def writes(max_size=6):
    return st.one_of(st.lists(write(), min_size=1, max_size=1), st.lists(write(), max_size=max_size))


backend = st.sampled_from(['mem', 'ds'])
ndb_context = st.sampled_from(['request', 'nocache', 'none'])
