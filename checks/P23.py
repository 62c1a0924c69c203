"""Identities resolve to the right place and documents are read right."""
import json, os
import dns.resolver, dns.message, dns.name, dns.rrset, dns.exception
from dns.rdataclass import IN
from dns.rdatatype import TXT
from dns.resolver import Answer
import requests
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import ec
from hypothesis import strategies as st
from vlib.core import Check, Test, Violation, HarnessError, eq, raises, check
from arroba import did as did_mod
from checks.P22 import did_key

PLC = 'plc.example'


def setup():
    os.environ['PLC_HOST'] = PLC


def response(url, status, body):
    r = requests.Response()
    r.status_code = status
    r._content = body.encode()
    r.encoding = 'utf-8'
    r.url = url
    return r


class Web:
    """Records requests; answers each with the outcome set for it."""
    def __init__(self):
        self.requests = []
        self.outcome = None

    def get(self, url, *a, **kw):
        self.requests.append(url)
        kind, body = self.outcome
        if kind == 'ok':
            return response(url, 200, body)
        if kind in ('404', '500', '403'):
            return response(url, int(kind), body)
        raise {'conn': requests.ConnectionError, 'timeout': requests.Timeout,
               'redirects': requests.TooManyRedirects}[kind]('no')


def clear():
    for fn in did_mod.resolve_plc, did_mod.resolve_web, did_mod.resolve_handle:
        cache = getattr(fn, 'cache', None)
        if cache is not None:
            cache.clear()


def url_of(did):
    """The URL the method's specification defines."""
    method, rest = did.split(':', 2)[1:]
    if method == 'plc':
        return f'https://{PLC}/{did}'
    host, *path = rest.split(':')
    host = host.replace('%3A', ':').replace('%3a', ':')
    return f'https://{host}/' + ('/'.join(path) if path else '.well-known') + '/did.json'


def dids(case, ctx):
    clear()
    web = Web()
    served = {}
    for n, (i, outcome, direct) in enumerate(case['lookups']):
        did = case['dids'][i % len(case['dids'])]
        web.outcome = (outcome, json.dumps({'id': did, 'n': n}) if outcome == 'ok' else '{"message": "no"}')
        before = len(web.requests)
        fn = did_mod.resolve
        if direct:
            fn = did_mod.resolve_plc if did.startswith('did:plc:') else did_mod.resolve_web
        err = None
        try:
            got = fn(did, get_fn=web.get)
        except requests.RequestException as e:
            err = e
        new = web.requests[before:]
        check(len(new) <= 1, '%d requests for one lookup', len(new))
        for u in new:
            eq(u, url_of(did), f'URL fetched for {did}')
        if new:
            if outcome == 'ok':
                eq(err, None, f'error of a successful lookup of {did}')
                served.setdefault(did, []).append({'id': did, 'n': n})
                eq(got, {'id': did, 'n': n}, f'document for {did}')
            else:
                check(err is not None, 'lookup of %s returned %s although the request failed', did, None if err else got)
                ctx.label('failed lookup')
        else:
            check(err is None, 'raised without a request: %r', err)
            check(got in served.get(did, []), 'document for %s without a request: %s, served %s', did, got, served.get(did))
            ctx.label('answered from cache')
        if '%3A' in did: ctx.label('port')
        if did.startswith('did:web') and did.count(':') > 2: ctx.label('path')
    ctx.nontrivial()


def bad_dids(case, ctx):
    clear()
    web = Web()
    web.outcome = ('ok', '{}')
    d = case['s']
    if not (isinstance(d, str) and d.startswith(('did:plc:', 'did:web:'))):
        raises((ValueError,), lambda: did_mod.resolve(d, get_fn=web.get), f'resolve({d!r})')
    for fn, prefix in (did_mod.resolve_plc, 'did:plc:'), (did_mod.resolve_web, 'did:web:'):
        if not (isinstance(d, str) and d.startswith(prefix)):
            raises((ValueError,), lambda: fn(d, get_fn=web.get), f'{fn.__name__}({d!r})')
    if not (isinstance(d, str) and d.startswith(('did:plc:', 'did:web:'))):
        eq(web.requests, [], 'requests for a bad DID')
        ctx.nontrivial()


def answer(name, texts, alias=None):
    qname = dns.name.from_text(name)
    if alias:
        # the name is an alias of another one, whose records these are
        msg = dns.message.make_response(dns.message.make_query(qname=qname, rdclass=IN, rdtype=TXT))
        msg.answer = [dns.rrset.from_text(qname, 300, IN, 'CNAME', alias),
                      dns.rrset.from_text_list(name=dns.name.from_text(alias), rdclass=IN, rdtype=TXT, ttl=300,
                                               text_rdatas=['"' + t + '"' for t in texts])]
        return Answer(qname=qname, rdtype=TXT, rdclass=IN, response=dns.message.from_wire(msg.to_wire()))
    resp = dns.message.make_response(dns.message.make_query(qname=qname, rdclass=IN, rdtype=TXT))
    a = Answer(qname=qname, rdtype=TXT, rdclass=IN, response=resp)
    a.rrset = dns.rrset.from_text_list(name=qname, rdclass=IN, rdtype=TXT, ttl=300,
                                       text_rdatas=['"' + t + '"' for t in texts])
    return a


def handles(case, ctx):
    clear()
    web = Web()
    queries = []
    orig = dns.resolver.resolve
    ctx.cleanup(lambda: setattr(dns.resolver, 'resolve', orig))
    h = case['handle']
    kind, texts = case['dns']
    def resolve(name, rdtype='A', *a, **kw):
        queries.append((str(name), dns.rdatatype.RdataType.make(rdtype)))
        if kind == 'ok':
            return answer(str(name), texts)
        if kind == 'alias':
            return answer(str(name), texts, 'other.example.')
        raise {'nx': dns.resolver.NXDOMAIN, 'none': dns.resolver.NoAnswer, 'servers': dns.resolver.NoNameservers,
               'timeout': dns.resolver.LifetimeTimeout, 'other': dns.exception.DNSException}[kind]()
    dns.resolver.resolve = resolve
    web.outcome = tuple(case['web'])
    from_dns = [t[4:] for t in texts if t.startswith('did=did:')] if kind == 'ok' else []
    body = web.outcome[1].strip()
    from_web = body if web.outcome[0] == 'ok' and body.startswith('did:') else None
    want = from_dns[0] if from_dns else from_web
    got = did_mod.resolve_handle(h, get_fn=web.get)
    eq(got, want, f'DID of {h} (DNS {kind} {texts}, web {web.outcome})')
    eq([(n.rstrip('.').lower(), t) for n, t in queries], [(f'_atproto.{h}'.lower(), TXT)], 'DNS queries')
    eq([u.lower() for u in web.requests], [] if from_dns else [f'https://{h}/.well-known/atproto-did'.lower()], 'HTTPS requests')
    # again: the same answer, whatever it costs
    eq(did_mod.resolve_handle(h, get_fn=web.get), want, 'DID on second lookup')
    ctx.nontrivial()
    ctx.label('by dns' if from_dns else 'by https' if from_web else 'nothing')


def bad_handles(case, ctx):
    clear()
    web = Web()
    web.outcome = ('ok', 'did:web:evil')
    orig = dns.resolver.resolve
    ctx.cleanup(lambda: setattr(dns.resolver, 'resolve', orig))
    def resolve(*a, **kw):
        raise Violation(f'DNS lookup for invalid handle: {a}')
    dns.resolver.resolve = resolve
    h = case['handle']
    raises((ValueError,), lambda: did_mod.resolve_handle(h, get_fn=web.get), f'resolve_handle({h!r})')
    eq(web.requests, [], 'requests for an invalid handle')
    ctx.nontrivial()


def docs(case, ctx):
    did = case['did']
    doc = {}
    if case['id']:
        doc['id'] = did
    akas = case['akas']
    if akas is not None:
        doc['alsoKnownAs'] = akas
    want = next((a.removeprefix('at://').split('/')[0] for a in akas or []
                 if a.startswith('at://') and a.removeprefix('at://').split('/')[0]), None)
    eq(did_mod.get_handle(doc), want, f'handle of {doc}')
    keys = None
    if case['methods'] is not None:
        doc['verificationMethod'] = []
        for frag, owner, has, n, curve in case['methods']:
            k = ec.derive_private_key(n, ec.SECP256K1() if curve else ec.SECP256R1()).public_key()
            m = {'type': 'Multikey', 'controller': did}
            if frag != 'none':
                m['id'] = (did if owner else did + '2') + frag
            if has:
                m['publicKeyMultibase'] = did_key(k).removeprefix('did:key:')
            doc['verificationMethod'].append(m)
            if keys is None and case['id'] and frag == '#atproto' and owner and has:
                keys = k
    eq(did_mod.get_signing_key(doc), keys, f'signing key of {doc}')
    ctx.nontrivial(bool(akas) or bool(case['methods']))
    if keys: ctx.label('has a signing key')
    if want: ctx.label('has a handle')


lab = st.one_of(st.text('abz019', min_size=1, max_size=5), st.just('a-b'), st.just('x' * 63), st.just('xn--e1afmkfd'))
host = st.lists(lab, min_size=1, max_size=3).map('.'.join).map(lambda h: h + '.com')
web = st.tuples(host, st.one_of(st.none(), st.integers(1, 65535)), st.lists(st.text('abcXYZ019_.-', min_size=1, max_size=6), max_size=3)).map(
    lambda t: 'did:web:' + t[0] + (f'%3A{t[1]}' if t[1] else '') + ''.join(':' + p for p in t[2]))
plc = st.text('abcdefghijklmnopqrstuvwxyz234567', min_size=24, max_size=24).map(lambda s: 'did:plc:' + s)
a_did = st.one_of(web, plc)


def alike(d):
    """Other DIDs that differ from this one in a little."""
    if d.startswith('did:plc:'):
        return ['did:web:' + d[8:] + '.com', d[:-1] + ('2' if d[-1] != '2' else '3'), d[:8] + ('2' if d[8] != '2' else '3') + d[9:]]
    h, *path = d.split(':')[2:]
    bare = h.split('%3A')[0]
    return [':'.join(['did:web', *t]) for t in (
        [bare, *path], [bare + '%3A80', *path], [bare + '%3A8080', *path], [h], [h, *path, 'x'], [h, *path, 'X'], [h, *path[:1]], [h, *path[1:]],
        [h, *[p.swapcase() for p in path]], [h, '.'.join(path) or 'y'], ['x' + h, *path], [h, *path[::-1]], [h, *path, 'did.json'], [h, '.well-known', *path])]


# several that are easily mixed up
family = a_did.flatmap(lambda d: st.lists(st.sampled_from(alike(d)), min_size=1, max_size=3).map(lambda l: list(dict.fromkeys([d] + l))))
mixed = st.text('abzABZ019', min_size=1, max_size=5)
good_handle = st.tuples(st.lists(st.one_of(lab, mixed), min_size=1, max_size=3), st.sampled_from(['com', 'Test', 'a', 'x1', 'co-op'])).map(
    lambda t: '.'.join(t[0] + [t[1]]))
bad_handle = st.one_of(
    st.none(), st.integers(), st.just(''), lab, good_handle.map(lambda h: h + '.'), good_handle.map(lambda h: '.' + h),
    good_handle.map(lambda h: '-' + h), good_handle.map(lambda h: h + '-'), good_handle.map(lambda h: h + '.1x'),
    good_handle.map(lambda h: h.replace('.', '..', 1)), good_handle.map(lambda h: h + '\n'), good_handle.map(lambda h: 'x' * 64 + '.' + h),
    good_handle.map(lambda h: '@' + h), good_handle.map(lambda h: h + '/x'), good_handle.map(lambda h: 'a_b.' + h), good_handle.map(lambda h: h + ' '),
    good_handle.map(lambda h: 'é.' + h), good_handle.map(lambda h: h + ':80'), good_handle.map(lambda h: 'a-.' + h), a_did)
text = st.one_of(a_did.map(lambda d: 'did=' + d), st.just('v=spf1 -all'), st.just('did=nope'), st.just('xdid=did:web:x'), st.just(''))
outcome = st.sampled_from(['ok', 'ok', 'ok', '404', '500', 'conn', 'timeout'])

CHECK = Check(
    'P23', setup=setup,
    rule='did:web identifiers with ports and paths and did:plc ones, looked up repeatedly with changing outcomes; strings that are neither; valid and invalid handles with every '
         'DNS and HTTPS outcome; DID documents with entries in any order. Non-trivial: all but empty documents.',
    assumptions=['at most one DID is published in DNS per handle; percent-encoding in did:web only for the port'],
    tests=[
        Test('dids', st.fixed_dictionaries({'dids': st.one_of(st.lists(a_did, min_size=1, max_size=3, unique=True), family),
             'lookups': st.lists(st.tuples(st.integers(0, 3), outcome, st.booleans()).map(list), min_size=1, max_size=8)}), dids, 3000, 120000),
        Test('bad_dids', st.fixed_dictionaries({'s': st.one_of(
            st.none(), st.just(''), st.text(max_size=12), a_did.map(str.upper), a_did.map(lambda d: d[1:]), a_did.map(lambda d: ' ' + d),
            a_did.map(lambda d: 'at://' + d), st.sampled_from(['did:', 'did:key:z6x', 'did:plc', 'did:web', 'did:plcx:abc', 'did:webs:x.com', 'https://x.com']))}),
            bad_dids, 1000, 40000),
        Test('handles', st.fixed_dictionaries({
            'handle': good_handle,
            'dns': st.tuples(st.sampled_from(['ok', 'ok', 'ok', 'alias', 'nx', 'none', 'servers', 'timeout', 'other']),
                             st.lists(text, min_size=1, max_size=3).filter(lambda ts: len({t for t in ts if t.startswith('did=did:')}) <= 1)).map(list),
            'web': st.tuples(st.sampled_from(['ok', 'ok', '404', '500', 'conn', 'timeout', 'redirects']),
                             st.one_of(a_did, a_did.map(lambda d: f' {d}\n'), st.just('<html>'), st.just(''), a_did.map(lambda d: 'x' + d))).map(list)}), handles, 3000, 120000),
        Test('bad_handles', st.fixed_dictionaries({'handle': bad_handle}), bad_handles, 1500, 40000),
        Test('docs', st.fixed_dictionaries({
            'did': a_did, 'id': st.sampled_from([True] * 5 + [False]),
            'akas': st.one_of(st.none(), st.lists(st.one_of(good_handle.map(lambda h: 'at://' + h), good_handle, st.just('https://x.y/z'), st.just('at://'), a_did), max_size=3)),
            'methods': st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(['#atproto', '#atproto', '#atproto_label', '#x', 'none']), st.sampled_from([True, True, False]),
                                 st.sampled_from([True, True, False]), st.integers(1, 30), st.booleans()).map(list), max_size=3))}), docs, 2000, 80000)])
