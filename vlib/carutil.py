"""CARv1 archives read without carbox: header, then length-prefixed CID + bytes, each hashed."""
import hashlib
import dag_cbor
from multiformats import CID
from vlib.core import Violation, check
from vlib.mstref import cid_of, decode_tree
from vlib.world import b32


def varint(b, i):
    n = shift = 0
    while True:
        check(i < len(b), 'archive ends inside a length')
        n |= (b[i] & 0x7f) << shift
        shift += 7
        i += 1
        if not b[i - 1] & 0x80:
            return n, i


def parse(data, what='archive'):
    """(roots, [(CID, bytes)]) of an archive. Each block must hash to its CID."""
    n, i = varint(data, 0)
    header = dag_cbor.decode(data[i:i + n])
    i += n
    check(header.get('version') == 1 and set(header) == {'version', 'roots'}, '%s: header %s', what, header)
    out = []
    while i < len(data):
        n, i = varint(data, i)
        section = data[i:i + n]
        check(len(section) == n and n > 36, '%s: truncated block', what)
        i += n
        check(section[:4] == b'\x01\x71\x12\x20', '%s: not a CIDv1 of DAG-CBOR and SHA-256: %r', what, section[:4])
        check(hashlib.sha256(section[36:]).digest() == section[4:36], '%s: block bytes do not hash to their CID %s', what, section[:36].hex())
        out.append((cid_of(section[36:]), section[36:]))
    return header['roots'], out


def closure(blocks, head, what='archive'):
    """(commit, entries, nodes+records+commit CIDs) reachable from the head commit within {CID: bytes}."""
    check(head in blocks, '%s: does not contain its head commit', what)
    commit = dag_cbor.decode(blocks[head])
    seen = {head}
    def read(cid):
        check(cid in blocks, '%s: lacks the tree node %s', what, b32(cid))
        seen.add(cid)
        return blocks[cid]
    entries, _ = decode_tree(commit['data'], read)
    for p, v in entries.items():
        check(v in blocks, '%s: lacks the record %s of %s', what, b32(v), p)
        seen.add(v)
    return commit, entries, seen
