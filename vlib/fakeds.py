"""In-process stand-in for the Datastore backend, under the real google-cloud-ndb client.

Replaces ndb.Client.stub. Implements Lookup, RunQuery, BeginTransaction, Commit, Rollback
over a dict of entity protobufs, with Firestore-in-Datastore-mode semantics: strongly
consistent reads, serializable optimistic transactions that read a snapshot and abort at
commit when anything they read has changed.

Hooks for the harness:
- calls: list of (rpc name, mutated?) made so far
- on_rpc(n, name, request): called before each RPC; may raise, or return 'after:<exc>' via Fault
- batch: max query results per batch, to force multi-batch queries
"""
import base64, itertools, pickle, threading
from google.api_core import exceptions as gexc
from google.cloud.datastore_v1.types import datastore as ds
from google.cloud.datastore_v1.types import entity as ent
from google.cloud.datastore_v1.types import query as qry
from google.cloud import ndb
from google.cloud.ndb import _retry

_retry._DEFAULT_INITIAL_DELAY = 0.0001
_retry._DEFAULT_MAXIMUM_DELAY = 0.0002

Op = qry.PropertyFilter.Operator
MR = qry.QueryResultBatch.MoreResultsType


class Future:
    def __init__(self, result=None, exc=None):
        self._r, self._e = result, exc

    def add_done_callback(self, fn):
        fn(self)

    def exception(self, timeout=None):
        return self._e

    def result(self, timeout=None):
        if self._e is not None:
            raise self._e
        return self._r

    def cancel(self):
        return False

    def done(self):
        return True


class Method:
    def __init__(self, fake, name, fn):
        self.fake, self.name, self.fn = fake, name, fn

    def future(self, request, timeout=None, metadata=()):
        try:
            return Future(self.fake._call(self.name, self.fn, request))
        except Exception as e:
            return Future(exc=e)

    def __call__(self, request, timeout=None, metadata=()):
        return self.fake._call(self.name, self.fn, request)


class Crash(BaseException):
    """The process is gone: no further RPC has any effect."""


def path_of(key):
    return tuple((p.kind, p.name or p.id) for p in key.path)


def plain(value):
    """A Value protobuf as a Python value that sorts within its own type."""
    kind = value._pb.WhichOneof('value_type')
    if kind == 'key_value':
        return path_of(value.key_value)
    if kind == 'timestamp_value':
        ts = value._pb.timestamp_value
        return (ts.seconds, ts.nanos)
    if kind == 'array_value':
        return [plain(v) for v in value.array_value.values]
    if kind == 'null_value' or kind is None:
        return None
    if kind == 'entity_value':
        return None
    return getattr(value._pb, kind)


def sort_key(v):
    # Datastore orders nulls first, then by type; the kinds here never mix otherwise
    return (0, 0) if v is None else (1, v)


class FakeDatastore:
    def __init__(self):
        self.lock = threading.RLock()
        self.data = {}         # path -> (version, entity bytes)
        self.version = 0
        self.txs = {}
        self.txids = itertools.count(1)
        self.calls = []
        self.on_rpc = None     # fn(index, name, request) -> None, or ('after', exception)
        self.batch = None      # max results per query batch
        self.lookup_max = None # max keys answered per lookup; the rest are deferred
        self.dead = False
        self.conflicts = 0
        for name in ('lookup', 'run_query', 'begin_transaction', 'commit', 'rollback'):
            setattr(self, name, Method(self, name, getattr(self, '_' + name)))

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        from vlib.core import HarnessError
        raise HarnessError(f'fake datastore has no RPC {name}')

    # --- plumbing

    def _call(self, name, fn, request):
        hook = self.on_rpc
        after = None
        if self.dead:
            raise Crash()
        with self.lock:
            n = len(self.calls)
            self.calls.append(name)
        if hook:
            after = hook(n, name, request)
        if self.dead:
            raise Crash()
        with self.lock:
            resp = fn(request)
        if after is not None:
            if isinstance(after, Crash):
                self.dead = True
            raise after
        return resp

    def entity(self, raw):
        e = ent.Entity()
        e._pb.ParseFromString(raw)
        return e

    def _view(self, read_options):
        """(data, tx) for a read."""
        if read_options and read_options._pb.transaction:
            tx = self._tx(read_options._pb.transaction)
            return tx['data'], tx
        return self.data, None

    def _tx(self, tid):
        tx = self.txs.get(bytes(tid))
        if tx is None:
            raise gexc.InvalidArgument('unknown or finished transaction')
        return tx

    # --- RPCs

    def _begin_transaction(self, req):
        tid = f'tx{next(self.txids)}'.encode()
        self.txs[tid] = {'data': dict(self.data), 'version': self.version, 'reads': {}, 'queries': []}
        return ds.BeginTransactionResponse(transaction=tid)

    def _rollback(self, req):
        if self.txs.pop(bytes(req.transaction), None) is None:
            raise gexc.InvalidArgument('unknown or finished transaction')
        return ds.RollbackResponse()

    def _lookup(self, req):
        data, tx = self._view(req.read_options)
        resp = ds.LookupResponse()
        if len(req.keys) > 1000:
            raise gexc.InvalidArgument('too many keys')
        seen = set()
        for n, key in enumerate(req.keys):
            p = path_of(key)
            if p in seen:
                continue
            if self.lookup_max and len(seen) >= self.lookup_max:
                resp.deferred.append(key)
                continue
            seen.add(p)
            if tx is not None:
                tx['reads'][p] = data.get(p, (0,))[0]
            if p in data:
                v, raw = data[p]
                resp.found.append(qry.EntityResult(entity=self.entity(raw), version=v))
            else:
                resp.missing.append(qry.EntityResult(entity=ent.Entity(key=key), version=self.version))
        return resp

    def _commit(self, req):
        tid = bytes(req._pb.transaction)
        if tid:
            tx = self._tx(tid)
            del self.txs[tid]
            for p, v in tx['reads'].items():
                if self.data.get(p, (0,))[0] != v:
                    self.conflicts += 1
                    raise gexc.Aborted('Aborted due to cross-transaction contention')
            for q, result in tx['queries']:
                if [(p, v) for p, v, _ in self._select(self.data, q)] != result:
                    self.conflicts += 1
                    raise gexc.Aborted('Aborted due to cross-transaction contention (query)')
        self.version += 1
        resp = ds.CommitResponse()
        total = 0
        for m in req.mutations:
            which = m._pb.WhichOneof('operation')
            if which == 'delete':
                self.data.pop(path_of(m.delete), None)
            else:
                e = getattr(m, which)
                p = path_of(e.key)
                if not p[-1][1]:
                    raise gexc.InvalidArgument('incomplete key')
                for kind, name in p:
                    if isinstance(name, str) and len(name.encode()) > 1500:
                        raise gexc.InvalidArgument('key name over 1500 bytes')
                if which == 'insert' and p in self.data:
                    raise gexc.AlreadyExists('entity already exists')
                if which == 'update' and p not in self.data:
                    raise gexc.NotFound('no entity to update')
                raw = e._pb.SerializeToString()
                total += len(raw)
                if len(raw) > 1048572:
                    raise gexc.InvalidArgument('entity is too big')
                self.data[p] = (self.version, raw)
            resp.mutation_results.append(ds.MutationResult(version=self.version))
        return resp

    # --- queries

    def _run_query(self, req):
        data, tx = self._view(req.read_options)
        q = req.query
        rows = self._select(data, q)
        if tx is not None:
            full = [(p, v) for p, v, _ in rows]
            tx['queries'].append((q, full))
        orders = self._orders(q)
        if q.start_cursor:
            start = pickle.loads(bytes(q.start_cursor))
            rows = [r for r in rows if self._pos_after(r, start, orders)]
        offset = q.offset
        skipped = min(offset, len(rows))
        rows = rows[offset:]
        limit = q._pb.limit.value if q._pb.HasField('limit') else None
        more = MR.NO_MORE_RESULTS
        if limit is not None and len(rows) > limit:
            rows, more = rows[:limit], MR.MORE_RESULTS_AFTER_LIMIT
        if self.batch and len(rows) > self.batch:
            rows, more = rows[:self.batch], MR.NOT_FINISHED
        keys_only = any(p.property.name == '__key__' for p in q.projection)
        batch = qry.QueryResultBatch(
            skipped_results=skipped,
            entity_result_type=(qry.EntityResult.ResultType.KEY_ONLY if keys_only
                                else qry.EntityResult.ResultType.FULL),
            more_results=more)
        for p, v, e in rows:
            out = ent.Entity(key=e.key) if keys_only else e
            batch.entity_results.append(qry.EntityResult(
                entity=out, version=v, cursor=self._cursor(p, e, orders)))
        batch.end_cursor = (batch.entity_results[-1].cursor if rows else q.start_cursor or b'')
        return ds.RunQueryResponse(batch=batch)

    def _orders(self, q):
        return [(o.property.name, o.direction == qry.PropertyOrder.Direction.DESCENDING)
                for o in q.order]

    def _cursor(self, p, e, orders):
        return pickle.dumps(([self._prop(e, p, name) for name, _ in orders], p))

    def _pos_after(self, row, start, orders):
        p, _, e = row
        vals, sp = start
        for (name, desc), sv in zip(orders, vals):
            v = sort_key(self._prop(e, p, name))
            sv = sort_key(sv)
            if v != sv:
                return (v < sv) if desc else (v > sv)
        return p > sp

    def _prop(self, e, p, name):
        if name == '__key__':
            return p
        return plain(e.properties[name])

    def _select(self, data, q):
        kinds = [k.name for k in q.kind]
        orders = self._orders(q)
        rows = []
        for p, (v, raw) in data.items():
            if kinds and p[-1][0] not in kinds:
                continue
            e = self.entity(raw)
            if q._pb.HasField('filter') and not self._match(q.filter, e, p):
                continue
            if any(n != '__key__' and not self._indexed(e, n) for n, _ in orders):
                continue
            rows.append((p, v, e))
        rows.sort(key=lambda r: r[0])
        for name, desc in reversed(orders):
            rows.sort(key=lambda r: sort_key(self._prop(r[2], r[0], name)), reverse=desc)
        # an inequality filter implies its order when none is given
        return rows

    def _indexed(self, e, name):
        return name in e.properties and not e.properties[name].exclude_from_indexes

    def _match(self, f, e, p):
        which = f._pb.WhichOneof('filter_type')
        if which == 'composite_filter':
            return all(self._match(g, e, p) for g in f.composite_filter.filters)
        pf = f.property_filter
        name = pf.property.name
        want = plain(pf.value)
        if name == '__key__':
            got = [p]
        else:
            if not self._indexed(e, name):
                return False
            got = plain(e.properties[name])
            got = got if isinstance(got, list) else [got]
        ops = {Op.EQUAL: lambda a, b: a == b,
               Op.NOT_EQUAL: lambda a, b: a != b,
               Op.LESS_THAN: lambda a, b: sort_key(a) < sort_key(b),
               Op.LESS_THAN_OR_EQUAL: lambda a, b: sort_key(a) <= sort_key(b),
               Op.GREATER_THAN: lambda a, b: sort_key(a) > sort_key(b),
               Op.GREATER_THAN_OR_EQUAL: lambda a, b: sort_key(a) >= sort_key(b),
               Op.IN: lambda a, b: a in b}
        if pf.op not in ops:
            from vlib.core import HarnessError
            raise HarnessError(f'fake datastore: filter operator {pf.op}')
        return any(ops[pf.op](g, want) for g in got)

    # --- harness access

    def entities(self, kind=None):
        """[(path, Entity)]"""
        return [(p, self.entity(raw)) for p, (v, raw) in sorted(self.data.items())
                if kind is None or p[-1][0] == kind]

    def snapshot(self):
        return {p: raw for p, (v, raw) in self.data.items()}


class Dispatch:
    """Installed once as the client's stub; forwards to the current case's FakeDatastore."""
    def __init__(self):
        self.current = FakeDatastore()

    def __getattr__(self, name):
        return getattr(self.current, name)


_dispatch = None


def client():
    """The ndb client, with its stub replaced."""
    global _dispatch
    from webutil.appengine_config import ndb_client
    if _dispatch is None:
        _dispatch = Dispatch()
        ndb_client.stub = _dispatch
    return ndb_client


def fresh():
    """A new empty backend for a case."""
    client()
    _dispatch.current = FakeDatastore()
    ndb.context._state = ndb.context._LocalState()
    return _dispatch.current


def use(fake):
    client()
    _dispatch.current = fake


def reset_context():
    ndb.context._state = ndb.context._LocalState()
