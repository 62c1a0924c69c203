"""Signatures verify exactly what was signed."""
import base64, copy, json
from datetime import timedelta
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature, decode_dss_signature
from cryptography.exceptions import InvalidSignature
import dag_cbor, jwt
from multiformats import CID
from hypothesis import strategies as st
from vlib.core import Check, Test, Violation, eq, raises, check
from vlib import values
from arroba import util
import webutil.util

N = {'k': 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
     'p': 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551}
CURVE = {'k': ec.SECP256K1, 'p': ec.SECP256R1}
KEYS = {c: [ec.derive_private_key(n, CURVE[c]()) for n in (1, 2, 12345, N[c] - 1, 2**200 + 7)] for c in CURVE}


def valid(sig, data, pub):
    """Independent verification of a compact signature over data."""
    if len(sig) != 64:
        return False
    der = encode_dss_signature(int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big'))
    try:
        pub.verify(der, data, ec.ECDSA(hashes.SHA256()))
        return True
    except InvalidSignature:
        return False


def paths(obj, at=()):
    out = [at]
    if isinstance(obj, dict):
        for k in sorted(obj):
            out += paths(obj[k], at + (k,))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            out += paths(v, at + (i,))
    return out


def alter(obj, path, how):
    """A copy of obj, changed at one place."""
    obj = copy.deepcopy(obj)
    if not path:
        if how == 'drop' and obj:
            del obj[sorted(obj)[0]]
        else:
            obj['another field'] = 1
        return obj
    at = obj
    for p in path[:-1]:
        at = at[p]
    last = path[-1]
    v = at[last]
    if how == 'drop':
        del at[last]
    elif how == 'rename' and isinstance(at, dict):
        at[last + '_'] = at.pop(last)
    elif isinstance(v, bool):
        at[last] = not v
    elif isinstance(v, int):
        at[last] = v + 1 if v < 2**62 else v - 1
    elif isinstance(v, str):
        at[last] = v + 'x'
    elif isinstance(v, bytes):
        at[last] = v + b'x'
    else:
        at[last] = 'changed' if v != 'changed' else 'other'
    return obj


def signed(case, ctx):
    obj = values.decode(case['obj'])
    c = case['curve']
    key = KEYS[c][case['key']]
    orig = copy.deepcopy(obj)
    bare = dag_cbor.encode(orig)
    out = util.sign(obj, key)
    sig = out.get('sig')
    check(isinstance(sig, bytes) and len(sig) == 64, 'signature is %r', sig)
    eq({k: v for k, v in out.items() if k != 'sig'}, orig, 'signed object without sig')
    s = int.from_bytes(sig[32:], 'big')
    check(0 < s <= N[c] // 2, 'signature is not low-S')
    check(valid(sig, bare, key.public_key()), 'signature does not cover the DAG-CBOR of the object without sig')
    before = copy.deepcopy(out)
    check(util.verify_sig(out, key.public_key()) is True, 'does not verify with its own key')
    eq(out, before, 'object after verify_sig')
    for other_c in CURVE:
        for other in KEYS[other_c]:
            if other is not key:
                check(util.verify_sig(out, other.public_key()) is False, "verifies with somebody else's key")
    # one alteration of the object
    ps = paths(orig)
    p = ps[case['at'] % len(ps)]
    bad = alter(orig, p, case['how'])
    if dag_cbor.encode(bad) != bare:
        check(util.verify_sig({**bad, 'sig': sig}, key.public_key()) is False,
              'verifies after altering %s: %s', p, case['how'])
        ctx.label('object altered')
    # one alteration of the signature
    i = case['at'] % 64
    m = case['mut']
    mut = {'bit': sig[:i] + bytes([sig[i] ^ (1 << case['bit'])]) + sig[i + 1:],
           'short': sig[:-1], 'shorter': sig[:i], 'long': sig + bytes([case['bit']]), 'long0': sig + b'\0',
           'front': b'\0' + sig, 'empty': b'', 'zero': b'\0' * 64, 'swap': sig[32:] + sig[:32],
           'rs0': sig[:32] + b'\0' * 32, 'max': b'\xff' * 64,
           'der': encode_dss_signature(*(int.from_bytes(x, 'big') for x in (sig[:32], sig[32:])))}[m]
    if mut != sig:
        check(util.verify_sig({**orig, 'sig': mut}, key.public_key()) is False,
              'verifies with altered signature (%s)', m)
    raises((KeyError,), lambda: util.verify_sig(orig, key.public_key()), 'verify_sig of an unsigned object')
    ctx.nontrivial(len(ps) >= 2)
    ctx.label(f'curve {c}', f'signature {m}')


def b64d(s):
    check('=' not in s and '+' not in s and '/' not in s, 'token part %r is not base64url', s)
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def tokens(case, ctx):
    key = KEYS['k'][case['key']]
    claims = dict(case['claims'])
    kw = {}
    if case['aud']:
        kw['aud'] = case['aud']
    if case['exp'] is not None:
        kw['expiration'] = timedelta(seconds=case['exp'])
    t0 = webutil.util.now().timestamp()
    token = util.service_jwt(case['host'], case['did'], key, **kw, **claims)
    t1 = webutil.util.now().timestamp()
    head, body, sig = token.split('.')
    header, payload = json.loads(b64d(head)), json.loads(b64d(body))
    sig = b64d(sig)
    eq(len(sig), 64, 'token signature length')
    eq(header.get('alg'), 'ES256K', 'alg header')
    check(0 < int.from_bytes(sig[32:], 'big') <= N['k'] // 2, 'token signature is not low-S')
    check(valid(sig, f'{head}.{body}'.encode(), key.public_key()), 'token signature does not verify')
    eq(payload.get('iss'), case['did'], 'iss')
    eq(payload.get('aud'), case['aud'] or f'did:web:{case["host"]}', 'aud')
    exp = 600 if case['exp'] is None else case['exp']
    check(int(t0 + exp) <= payload['exp'] <= int(t1 + exp) + 1, 'exp is off by %s', payload['exp'] - t0 - exp)
    for k, v in claims.items():
        eq(payload.get(k), v, f'claim {k}')
    eq(set(payload) - {'alg'}, {'iss', 'aud', 'exp'} | set(claims), 'claims')
    got = jwt.decode(token, key.public_key(), algorithms=['ES256K'], audience=payload['aud'],
                     options={'verify_exp': True, 'verify_iat': False})
    eq(got, payload, 'decoded token')
    other = KEYS['k'][(case['key'] + 1) % len(KEYS['k'])]
    raises((jwt.InvalidSignatureError,), lambda: jwt.decode(
        token, other.public_key(), algorithms=['ES256K'], audience=payload['aud']), 'decoding with another key')
    ctx.nontrivial()
    if claims: ctx.label('extra claims')
    if case['aud']: ctx.label('explicit audience')


def made(case, ctx):
    """Keys that arroba makes itself."""
    keys = [util.new_key(), util.new_key(), util.new_key(case['a']), util.new_key(case['b'])]
    numbers = [k.private_numbers().private_value for k in keys]
    check(len({*numbers[:2], numbers[2]}) == 3, 'new keys are equal')
    eq(numbers[2] == numbers[3], case['a'] == case['b'], f'new_key({case["a"]}) is the same as new_key({case["b"]})')
    for i, k in enumerate(keys):
        eq(k.curve.name, 'secp256k1', 'curve of a new key')
        obj = util.sign({'x': i}, k)
        for other in keys:
            eq(util.verify_sig(obj, other.public_key()), other.private_numbers() == k.private_numbers(), 'verification with a made key')
    ctx.nontrivial()
    ctx.label('same seed' if case['a'] == case['b'] else 'other seed')


word = st.text('abcdefghijklmnop-.é 0', min_size=1, max_size=12)
CHECK = Check(
    'P21',
    rule='DAG-CBOR maps of nested values, five keys on each of two curves, one alteration of one field and one of the signature per case; '
         'service tokens with generated host, DID, key, audience, expiry and claims. Non-trivial: the object has a field, or any token.',
    tests=[
        Test('signed', st.fixed_dictionaries({
            'obj': values.record(no=('sig',)), 'curve': st.sampled_from('kkp'), 'key': st.integers(0, 4),
            'at': st.integers(0, 200), 'how': st.sampled_from(['change', 'drop', 'rename']), 'bit': st.integers(0, 7),
            'mut': st.sampled_from(['bit', 'bit', 'bit', 'short', 'shorter', 'long', 'long0', 'front', 'empty', 'zero', 'swap', 'rs0', 'max', 'der'])}),
             signed, 4000, 200000),
        Test('tokens', st.fixed_dictionaries({
            'key': st.integers(0, 4), 'host': word, 'did': word.map(lambda w: 'did:web:' + w),
            'aud': st.one_of(st.none(), word), 'exp': st.one_of(st.none(), st.integers(5, 10**7)),
            'claims': st.dictionaries(st.sampled_from(['lxm', 'scope', 'x', 'nested']),
                                      st.one_of(word, st.integers(0, 2**40), st.booleans(), st.lists(word, max_size=2)), max_size=3)}),
             tokens, 3000, 150000),
        Test('made', st.integers(1, 2**250).flatmap(lambda a: st.fixed_dictionaries({'a': st.just(a), 'b': st.sampled_from([a, a + 1, a ^ 2**100 or 1])})), made, 200, 2000)])
