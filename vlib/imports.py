"""Archives of repos from another server, built from the reference tree, and their import."""
import json
import dag_cbor
import requests
import webutil.util
from carbox import car
from cryptography.hazmat.primitives.asymmetric import ec
from arroba import did as did_mod
from arroba import util
from vlib import web
from vlib.core import check, eq
from vlib.mstref import Ref, cid_of
from vlib.world import KEYS, RepoModel, b32, record
from checks.P22 import did_key

PLC = 'plc.example'


def response(url, status, body):
    r = requests.Response()
    r.status_code = status
    r._content = body.encode()
    r.encoding = 'utf-8'
    r.url = url
    return r


class Docs:
    """Serves DID documents for the DIDs it knows, over the session arroba uses."""
    def __init__(self, ctx):
        self.docs = {}
        self.requests = []
        import os
        old, old_plc = webutil.util.session.get, os.environ.get('PLC_HOST')
        webutil.util.session.get = self.get
        os.environ['PLC_HOST'] = PLC
        self.clear()
        def undo():
            webutil.util.session.get = old
            os.environ.pop('PLC_HOST')
            if old_plc:
                os.environ['PLC_HOST'] = old_plc
        ctx.cleanup(undo)

    @staticmethod
    def clear():
        for fn in did_mod.resolve_plc, did_mod.resolve_web, did_mod.resolve_handle:
            cache = getattr(fn, 'cache', None)
            if cache is not None:
                cache.clear()

    def put(self, did, key, handle):
        self.docs[did] = {
            'id': did, 'alsoKnownAs': [f'at://{handle}'] if handle else [],
            'verificationMethod': [{'id': f'{did}#atproto', 'type': 'Multikey', 'controller': did,
                                    'publicKeyMultibase': did_key(key.public_key()).removeprefix('did:key:')}],
            'service': []}
        self.clear()

    def get(self, url, *args, **kwargs):
        self.requests.append(url)
        for did, doc in self.docs.items():
            if did.startswith('did:plc:'):
                want = f'https://{PLC}/{did}'
            else:
                want = 'https://' + did.removeprefix('did:web:').replace('%3A', ':') + '/.well-known/did.json'
            if url == want:
                return response(url, 200, json.dumps(doc))
        return response(url, 404, '{}')


def archive(did, key, contents, rev='3jzfcijpj2z2a', prev=None, order=0):
    """(head CID, blocks {cid: bytes}) of a repo on another server."""
    entries = {p: cid_of(dag_cbor.encode(r)) for p, r in contents.items()}
    ref = Ref(entries)
    commit = util.sign({'did': did, 'version': 3, 'rev': rev, 'prev': prev, 'data': ref.root}, key)
    enc = dag_cbor.encode(commit)
    blocks = {cid_of(enc): enc, **ref.blocks,
              **{cid_of(dag_cbor.encode(r)): dag_cbor.encode(r) for r in contents.values()}}
    return cid_of(enc), blocks


def car_bytes(root, blocks):
    return car.write_car([root], [car.Block(c, b) for c, b in blocks.items()])


def do_import(w, docs, i, contents, did, handle):
    """Imports a repo as the world's repo i, deactivated."""
    key = KEYS[i]
    head, blocks = archive(did, key, contents)
    docs.put(did, key, handle)
    before = w.last_seq()
    r = web.post(w, 'com.atproto.repo.importRepo', data=car_bytes(head, blocks))
    eq((r.status, r.error), (200, None), f'importRepo of {did}: {r}')
    eq(w.last_seq(), before, 'sequence after an import')
    m = RepoModel(did, None, handle)
    m.contents = dict(contents)
    m.status = 'deactivated'
    m.imported = True
    m.commits = [{'seq': 0, 'cid': head, 'ops': [], 'prev': None, 'contents': dict(contents),
                  'data': Ref(m.entries).root}]
    w.repos[i] = m
    repo = w.load(i)
    check(repo is not None, 'the imported repo %s is not found', did)
    m.key = repo.signing_key
    w.handles[i], w.others[i] = repo, []
    return blocks
