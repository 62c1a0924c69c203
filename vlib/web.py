"""The HTTP API as deployed: the XRPC server in a Flask app, with an ndb context per request."""
import json, os
from vlib import world

TOKEN = 'sekrit-towkin'
_app = None


def _websocket_stubs():
    """lexrpc's Flask adapter imports websocket libraries that are not installed here; none of
    them takes part in plain HTTP methods."""
    import importlib, sys, types
    from unittest import mock
    for name, attr, value in (('flask_sock', 'Sock', mock.MagicMock()), ('iterators', 'TimeoutIterator', mock.MagicMock()),
                              ('simple_websocket', 'ConnectionClosed', type('ConnectionClosed', (Exception,), {})),
                              ('wsproto', 'utilities', None),
                              ('wsproto.utilities', 'ProtocolError', type('ProtocolError', (Exception,), {}))):
        try:
            importlib.import_module(name)
        except ImportError:
            mod = types.ModuleType(name)
            mod.__path__ = []
            setattr(mod, attr, value)
            sys.modules[name] = mod


def app():
    global _app
    if _app is None:
        _websocket_stubs()
        from flask import Flask
        import lexrpc.flask_server
        from arroba import server, xrpc_repo, xrpc_server, xrpc_sync  # noqa
        _app = Flask('pds', static_folder=None)
        lexrpc.flask_server.init_flask(server.server, _app)
    return _app


class Resp:
    def __init__(self, r):
        self.status, self.body, self.headers = r.status_code, r.get_data(), r.headers

    @property
    def json(self):
        return json.loads(self.body)

    @property
    def error(self):
        """Name of the XRPC error, or None for success."""
        if self.status == 200:
            return None
        try:
            return self.json.get('error') or f'HTTP {self.status}'
        except ValueError:
            return f'HTTP {self.status}'

    def __repr__(self):
        return f'<{self.status} {self.body[:300]}>'


def setup(ctx):
    """Token and environment for a case."""
    old = dict(os.environ)
    os.environ.update(REPO_TOKEN=TOKEN, REPO_PASSWORD='passw0rd', PDS_HOST='pds.local')
    def undo():
        os.environ.clear()
        os.environ.update(old)
    ctx.cleanup(undo)


def get(w, nsid, headers=None, **params):
    with w.request():
        return Resp(app().test_client().get(f'/xrpc/{nsid}', query_string=params, headers=headers or {}))


AUTH = {'Authorization': f'Bearer {TOKEN}'}


def post(w, nsid, body=None, data=None, headers=AUTH, type=None):
    kw = {'data': data, 'content_type': type or 'application/vnd.ipld.car'} if data is not None else {'json': body}
    with w.request():
        return Resp(app().test_client().post(f'/xrpc/{nsid}', headers=headers or {}, **kw))
