"""Drives arroba's MST from cases."""
import os
os.environ.setdefault('DATASTORE_EMULATOR_HOST', 'localhost:8089')
from arroba.mst import MST, Leaf
from arroba.storage import MemoryStorage, Block
from vlib.mstref import Ref, cid_of, decode_tree
import dag_cbor


def value(n):
    return cid_of(dag_cbor.encode({'v': n}))


def save(storage, tree, seq=1):
    """Persists a tree the way a commit does; returns the root CID."""
    root, blocks = tree.get_unstored_blocks()
    for b in blocks.values():
        b.seq = seq
        b.repo = b.repo or 'did:web:x.com'
    storage.write_blocks(blocks.values())
    return root


def walk_blocks(tree):
    """{CID: bytes} of all nodes of an in-memory or loaded tree, by its public API."""
    from arroba.mst import serialize_node_data
    out = {}
    for node in tree.walk():
        if isinstance(node, MST):
            data = dag_cbor.encode(serialize_node_data(node.get_entries())._asdict())
            out[node.get_pointer()] = data
    return out


def entries_of(tree):
    return [(l.key, l.value) for l in tree.leaves()]
