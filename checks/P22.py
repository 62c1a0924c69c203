"""PLC operations form a valid, verifiable chain."""
import base64, copy, hashlib, json, os
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
from cryptography.exceptions import InvalidSignature
import dag_cbor, requests
from hypothesis import strategies as st
from vlib.core import Check, Test, Violation, HarnessError, eq, raises, check
from vlib.mstref import cid_of
from arroba import did as did_mod, util

K1N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
FIXED = [ec.derive_private_key(n, ec.SECP256K1()) for n in range(3, 13)]


def setup():
    os.environ['PLC_HOST'] = 'plc.example'
    os.environ['PDS_HOST'] = 'pds.example'


B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(data):
    n, out = int.from_bytes(data, 'big'), ''
    while n:
        n, r = divmod(n, 58)
        out = B58[r] + out
    return '1' * (len(data) - len(data.lstrip(b'\0'))) + out


def unb58(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return n.to_bytes(35, 'big')


def did_key(pub):
    """Independent did:key encoding."""
    pre = {'secp256k1': b'\xe7\x01', 'secp256r1': b'\x80\x24'}[pub.curve.name]
    raw = pub.public_bytes(serialization.Encoding.X962, serialization.PublicFormat.CompressedPoint)
    return 'did:key:z' + b58(pre + raw)


def parse_key(s):
    check(s.startswith('did:key:z'), 'bad did:key %r', s)
    raw = unb58(s[9:])
    curve = {b'\xe7\x01': ec.SECP256K1(), b'\x80\x24': ec.SECP256R1()}[raw[:2]]
    return ec.EllipticCurvePublicKey.from_encoded_point(curve, raw[2:])


class Resp:
    def __init__(self, status, body):
        self.status_code, self.body = status, body
        self.ok = status < 400
        self.content = json.dumps(body).encode()
        self.text = self.content.decode()

    def raise_for_status(self):
        if not self.ok:
            raise requests.HTTPError(f'{self.status_code}', response=self)

    def json(self):
        return copy.deepcopy(self.body)


class Directory:
    """A PLC directory that enforces the did:plc spec."""
    def __init__(self):
        self.logs = {}
        self.fail = False
        self.status = 500
        self.rejected = None

    def url(self, url):
        check(url.startswith('https://plc.example/'), 'wrong directory URL %s', url)
        return url.removeprefix('https://plc.example/')

    def get(self, url, **kw):
        path = self.url(url)
        did, _, rest = path.partition('/')
        check(rest == 'log/audit', 'unexpected directory request %s', url)
        if self.fail == 'read':
            return Resp(self.status, {'message': 'down'})
        if self.fail == 'conn':
            raise requests.ConnectionError('down')
        if did not in self.logs:
            return Resp(404, {'message': 'no'})
        return Resp(200, self.logs[did])

    def post(self, url, json=None, **kw):
        did = self.url(url)
        op = copy.deepcopy(json)
        if self.fail == 'conn':
            raise requests.ConnectionError('down')
        if self.fail == 'write':
            return Resp(self.status, {'message': 'down'})
        self.judge(did, op)
        self.logs.setdefault(did, []).append(
            {'did': did, 'operation': op, 'cid': self.cid(op), 'nullified': False,
             'createdAt': '2024-01-01T00:00:00Z'})
        return Resp(200, {})

    @staticmethod
    def cid(op):
        return cid_of(dag_cbor.encode(op)).encode('base32')

    def judge(self, did, op):
        fields = {'type', 'rotationKeys', 'verificationMethods', 'alsoKnownAs', 'services', 'prev', 'sig'}
        eq(set(op), fields, 'fields of the operation sent')
        eq(op['type'], 'plc_operation', 'type')
        check(1 <= len(op['rotationKeys']) <= 5 and len(set(op['rotationKeys'])) == len(op['rotationKeys']), 'rotation keys')
        for k in op['rotationKeys'] + list(op['verificationMethods'].values()):
            eq(did_key(parse_key(k)), k, 'did:key')
        sig = op['sig']
        check(isinstance(sig, str) and '=' not in sig and '+' not in sig and '/' not in sig, 'sig is not unpadded base64url: %r', sig)
        raw = base64.urlsafe_b64decode(sig + '=' * (-len(sig) % 4))
        eq(len(raw), 64, 'sig length')
        check(int.from_bytes(raw[32:], 'big') <= K1N // 2, 'sig is not low-S')
        unsigned = dag_cbor.encode({k: v for k, v in op.items() if k != 'sig'})
        log = self.logs.get(did)
        if log is None:
            eq(op['prev'], None, 'prev of the genesis operation')
            want = 'did:plc:' + base64.b32encode(hashlib.sha256(dag_cbor.encode(op)).digest())[:24].lower().decode()
            eq(did, want, 'DID derived from the genesis operation')
            signers = op['rotationKeys']
        else:
            eq(op['prev'], log[-1]['cid'], 'prev')
            signers = log[-1]['operation']['rotationKeys']
        der = encode_dss_signature(int.from_bytes(raw[:32], 'big'), int.from_bytes(raw[32:], 'big'))
        for s in signers:
            try:
                parse_key(s).verify(der, unsigned, ec.ECDSA(hashes.SHA256()))
                return
            except InvalidSignature:
                pass
        raise Violation('operation is not signed by a current rotation key')


def pub(k):
    return k.public_key()


def chain(case, ctx):
    KEYS = list(FIXED)
    d = Directory()
    state = {}      # did -> list of states; each (handle, akas, signing idx, rotation idx, pds)
    dids = []
    http = dict(get_fn=d.get, post_fn=d.post)

    def doc_is(doc, did, s):
        handle, akas, sign, rot, pds = s
        eq(doc['id'], did, 'id of the document')
        eq(doc['alsoKnownAs'], [f'at://{handle}'] + list(akas), 'alsoKnownAs')
        eq([(m['id'], m['controller'], m['publicKeyMultibase']) for m in doc['verificationMethod']],
           [(f'{did}#atproto', did, did_key(pub(KEYS[sign])).removeprefix('did:key:'))], 'verification method')
        eq([(x['id'].removeprefix(did), x['type'], x['serviceEndpoint']) for x in doc['service']],
           [('#atproto_pds', 'AtprotoPersonalDataServer', pds)], 'service')
        eq(did_mod.get_handle(doc), handle, 'handle of the document')
        eq(did_mod.get_signing_key(doc), pub(KEYS[sign]), 'signing key of the document')

    def stored_is(did, s):
        handle, akas, sign, rot, pds = s
        op = d.logs[did][-1]['operation']
        eq(op['alsoKnownAs'], [f'at://{handle}'] + list(akas), 'stored alsoKnownAs')
        eq(op['verificationMethods'], {'atproto': did_key(pub(KEYS[sign]))}, 'stored signing key')
        eq(op['rotationKeys'], [did_key(pub(KEYS[rot]))], 'stored rotation keys')
        eq(op['services'], {'atproto_pds': {'type': 'AtprotoPersonalDataServer', 'endpoint': pds}}, 'stored service')

    def attempt(fn, did):
        before = copy.deepcopy(d.logs)
        if d.fail and (did or d.fail != 'read'):    # creating a DID reads nothing
            raises((requests.RequestException,), fn, 'operation while the directory is down')
            eq(d.logs, before, 'directory after a failed operation')
            ctx.label('directory down')
            return None
        ret = fn()
        changed = [x for x in d.logs if d.logs[x] != before.get(x)]
        check(len(changed) == 1, '%d DIDs were written', len(changed))
        if did:
            eq(changed, [did], 'DID written')
        check(len(d.logs[changed[0]]) == len(before.get(changed[0], [])) + 1, 'more than one operation written')
        return ret

    for op in case['ops']:
        d.fail, d.status = op.get('fail', False), op.get('status', 500)
        kind = op['op']
        sign, rot, new, pds, akas = op['sign'], op['rot'], op['new'], op['pds'], op['akas']
        aka_arg = akas[0] if akas and len(akas) == 1 and op['flag'] else akas
        if kind == 'create' or not dids:
            kw = dict(http)
            if sign is not None: kw['signing_key'] = pub(KEYS[sign]) if op['flag'] else KEYS[sign]
            if rot is not None: kw['rotation_key'] = KEYS[rot]
            if pds: kw['pds_url'] = pds
            if akas is not None: kw['also_known_as'] = aka_arg
            got = attempt(lambda: did_mod.create_plc(op['handle'], **kw), None)
            if not got:
                continue
            if sign is None:
                check(isinstance(got.signing_key, ec.EllipticCurvePrivateKey), 'no signing key returned')
            else:
                eq(got.signing_key, kw['signing_key'], 'returned signing key')
            if rot is None:
                check(isinstance(got.rotation_key, ec.EllipticCurvePrivateKey), 'no rotation key returned')
            else:
                eq(got.rotation_key, KEYS[rot], 'returned rotation key')
            for i, k in ((0, got.signing_key), (1, got.rotation_key)):
                if (sign, rot)[i] is None:
                    KEYS.append(k)
                    if i == 0: sign = len(KEYS) - 1
                    else: rot = len(KEYS) - 1
            check(got.did in d.logs, 'returned DID %s is not in the directory', got.did)
            s = (op['handle'], tuple(akas or ()), sign, rot, pds or 'https://pds.example')
            dids.append(got.did)
            state[got.did] = [s]
            doc_is(got.doc, got.did, s)
            stored_is(got.did, s)
            ctx.label('create')
            continue
        did = dids[op['which'] % len(dids)]
        cur = state[did][-1]
        if kind == 'update':
            kw = dict(http)
            sg = sign if sign is not None else cur[2]
            kw['signing_key'] = pub(KEYS[sg]) if op['flag'] else KEYS[sg]
            kw['rotation_key'] = KEYS[cur[3]]
            handle = op['handle'] if op['flag2'] else None
            if handle: kw['handle'] = handle
            if akas is not None: kw['also_known_as'] = aka_arg
            if pds: kw['pds_url'] = pds
            if new is not None: kw['new_rotation_key'] = pub(KEYS[new]) if op['flag'] else KEYS[new]
            got = attempt(lambda: did_mod.update_plc(did, **kw), did)
            if not got:
                continue
            s = (handle or cur[0], tuple(akas) if akas is not None else cur[1], sg,
                 new if new is not None else cur[3], pds or 'https://pds.example')
            eq(got.did, did, 'returned DID')
            ctx.label('update')
            if new is not None: ctx.label('rotation')
            if not handle: ctx.label('handle kept')
            if akas is None and cur[1]: ctx.label('aliases kept')
        else:
            n = op['back'] + 1
            hist = state[did]
            if len(hist) < n + 1:
                raises((AssertionError, ValueError) + ((requests.RequestException,) if d.fail else ()), lambda: did_mod.rollback_plc(did, KEYS[cur[3]], num_operations=n, **http), 'rollback beyond the start')
                ctx.label('rollback too deep')
                continue
            wrong = KEYS[(cur[3] + 1) % 10]
            if did_key(pub(wrong)) != did_key(pub(KEYS[cur[3]])):
                size = len(d.logs[did])
                raises((AssertionError, ValueError) + ((requests.RequestException,) if d.fail else ()), lambda: did_mod.rollback_plc(did, wrong, num_operations=n, **http), 'rollback with a foreign key')
                eq(len(d.logs[did]), size, 'log after a refused rollback')
            kw = {} if n == 1 and op['flag'] else {'num_operations': n}
            got = attempt(lambda: did_mod.rollback_plc(did, KEYS[cur[3]], **kw, **http) or 'returned nothing', did)
            if not got:
                continue
            check(got != 'returned nothing', 'rollback_plc returned nothing instead of a DidPlc')
            s = hist[-(n + 1)]
            eq(got.did, did, 'returned DID')
            ctx.label(f'rollback {min(n, 3)}')
        state[did].append(s)
        doc_is(got.doc, did, s)
        stored_is(did, s)
    ctx.nontrivial(any(len(h) >= 2 for h in state.values()))


def keys(case, ctx):
    curve = {'k': ec.SECP256K1(), 'p': ec.SECP256R1()}[case['curve']]
    k = ec.derive_private_key(case['n'], curve).public_key()
    enc = did_mod.encode_did_key(k)
    eq(enc, did_key(k), 'did:key encoding')
    eq(did_mod.decode_did_key(enc), k, 'did:key round trip')
    eq(did_mod.decode_did_key(enc.removeprefix('did:key:')), k, 'multibase form')
    other = ec.derive_private_key(case['n'], ec.SECP384R1()).public_key()
    raises((ValueError,), lambda: did_mod.encode_did_key(other), 'encoding of a P-384 key')
    ctx.nontrivial()
    ctx.label(case['curve'])


label = st.text('abcxyz019', min_size=1, max_size=5)
handle = st.tuples(label, label, st.sampled_from(['com', 'net', 'bsky.social'])).map('.'.join)
aka = st.one_of(handle.map(lambda h: f'at://{h}'), label.map(lambda s: f'https://{s}.com/{s}'), label.map('did:web:{}'.format))
ki = st.one_of(st.none(), st.integers(0, 9), st.integers(0, 9))
op = st.fixed_dictionaries({
    'op': st.sampled_from(['create', 'update', 'update', 'update', 'rollback', 'rollback']),
    'which': st.integers(0, 2), 'handle': handle, 'sign': ki, 'rot': ki, 'new': ki,
    'pds': st.one_of(st.none(), label.map(lambda s: f'https://{s}.host')),
    'akas': st.one_of(st.none(), st.lists(aka, max_size=2)), 'flag': st.booleans(), 'flag2': st.booleans(),
    'back': st.sampled_from([0, 0, 0, 1, 1, 2, 3]), 'fail': st.sampled_from([False] * 12 + ['write', 'write', 'read', 'conn']),
    'status': st.sampled_from([500, 400, 403, 404, 409, 429, 503])})

bad_key = st.sampled_from(['P256', 'P384'])
BAD_KEYS = {'P256': ec.derive_private_key(77, ec.SECP256R1()), 'P384': ec.derive_private_key(77, ec.SECP384R1())}
# codecs of other public keys, and of things that aren't keys
CODECS = {'ed25519-pub': b'\xed\x01', 'x25519-pub': b'\xec\x01', 'bls12_381-g1-pub': b'\xea\x01', 'p384-pub': b'\x81\x24', 'sha2-256': b'\x12',
          'secp256k1-priv': b'\x81\x26', 'raw': b'\x55'}


def refused(case, ctx):
    d = Directory()
    http = dict(get_fn=d.get, post_fn=d.post)
    a, b = FIXED[0], FIXED[1]
    did = did_mod.create_plc('ok.com', signing_key=a, rotation_key=b, pds_url='https://x.host', **http).did
    before = copy.deepcopy(d.logs)
    kw = {'handle': 'ok.com', 'signing_key': a, 'rotation_key': b, **http}
    kind = case['kind']
    if kind == 'handle':
        kw['handle'] = case['handle']
    elif kind == 'unknown':
        x = 'did:plc:' + case['unknown']
        f = lambda: did_mod.rollback_plc(x, b, **http)
        if case['update']:
            del kw['handle']
            f = lambda: did_mod.update_plc(x, **kw)
        raises((requests.RequestException,), f, f'operation on unknown DID {x}')
    else:
        if kind == 'new_rotation_key' and not case['update']:
            kind = 'rotation_key'
        kw[kind] = BAD_KEYS[case['key']]
        if kind != 'rotation_key':
            kw[kind] = pub(kw[kind])
    if case['kind'] != 'unknown':
        # an update without a handle keeps the current one; there's no other way for its handle to be bad
        if case['update'] and case['kind'] != 'handle':
            raises((ValueError, AssertionError), lambda: did_mod.update_plc(did, **kw), f'update with a bad {kind}')
        else:
            handle = kw.pop('handle')
            raises((ValueError,), lambda: did_mod.create_plc(handle, **kw), f'creation with a bad {kind}')
    eq(d.logs, before, 'directory after a refused operation')
    ctx.nontrivial()
    ctx.label(case['kind'])


def bad_keys(case, ctx):
    k = ec.derive_private_key(case['n'], {'k': ec.SECP256K1(), 'p': ec.SECP256R1()}[case['curve']])
    raw = pub(k).public_bytes(serialization.Encoding.X962, serialization.PublicFormat.CompressedPoint)
    enc = 'did:key:z' + b58(CODECS[case['codec']] + raw)
    raises((ValueError,), lambda: did_mod.decode_did_key(enc), f'decoding of a {case["codec"]} key')
    ctx.nontrivial()
    ctx.label(case['codec'])


CHECK = Check(
    'P22', setup=setup,
    rule='histories of 2-10 creates, updates of any subset of fields, key rotations, rollbacks 1-4 deep and directory failures (reads, writes, connections) over several DIDs; '
         'operations with bad handles, keys of other curves and unknown DIDs; did:keys of other codecs; '
         'did:keys of random points on both curves. Non-trivial: a DID with two or more operations, or any key.',
    assumptions=['the PLC directory is a model that enforces the did:plc specification, without nullified (forked) operations'],
    tests=[
        Test('chain', st.fixed_dictionaries({'ops': st.lists(op, min_size=2, max_size=10)}), chain, 2500, 120000),
        Test('keys', st.fixed_dictionaries({'curve': st.sampled_from('kp'), 'n': st.one_of(st.integers(1, 100), st.integers(1, 2**255))}), keys, 1500, 60000),
        Test('refused', st.fixed_dictionaries({'kind': st.sampled_from(['handle', 'signing_key', 'rotation_key', 'new_rotation_key', 'unknown']), 'key': bad_key,
                                               'handle': st.sampled_from(['', None, 3, []]), 'update': st.booleans(), 'unknown': st.text('abcdefghijklmnopqrstuvwxyz234567', min_size=24, max_size=24)}),
             refused, 300, 5000),
        Test('bad_keys', st.fixed_dictionaries({'codec': st.sampled_from(sorted(CODECS)), 'curve': st.sampled_from('kp'), 'n': st.one_of(st.integers(1, 100), st.integers(1, 2**255))}), bad_keys, 500, 10000)])
