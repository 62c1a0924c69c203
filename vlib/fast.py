"""Makes generated histories cheaper: turns off the argument type checks that multiformats and
dag_cbor repeat on every call (40% of the run time). They have no effect on well-typed calls."""
import sys
import typing_validation


def _ok(*args, **kwargs):
    return True


def install():
    import dag_cbor, dag_cbor.encoding, dag_cbor.decoding, multiformats, multiformats.cid, carbox  # noqa
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] in ('multiformats', 'dag_cbor', 'bases', 'multiformats_config'):
            if getattr(mod, 'validate', None) is typing_validation.validate:
                mod.validate = _ok
