"""Independent reference MST, built top down from a sorted map, per the ATProto spec
(https://atproto.com/specs/repository#mst-structure). Shares no code with arroba."""
import hashlib
import dag_cbor
from multiformats import CID, multihash


def cid_of(data: bytes) -> CID:
    return CID('base58btc', 1, 'dag-cbor', multihash.digest(data, 'sha2-256'))


def zeros(key: str) -> int:
    bits = ''.join(f'{b:08b}' for b in hashlib.sha256(key.encode()).digest())
    return (len(bits) - len(bits.lstrip('0'))) // 2


class Ref:
    """root: CID, blocks: {CID: bytes}, path[key]: [node CIDs from root], height."""
    def __init__(self, entries: dict):
        self.entries = dict(entries)
        self.blocks = {}
        self.keys = sorted(self.entries)
        self.z = {k: zeros(k) for k in self.keys}
        self.height = max(self.z.values(), default=0)
        self.nodes_of = {}        # key -> CIDs of the nodes on its path
        self.root = self._node(self.keys, self.height)[0]

    def _node(self, keys, layer):
        """Returns (CID, decoded)."""
        runs, here = [[]], []
        for k in keys:
            if self.z[k] == layer:
                here.append(k)
                runs.append([])
            else:
                assert self.z[k] < layer
                runs[-1].append(k)
        links = [self._node(run, layer - 1)[0] if run else None for run in runs]
        e, prev = [], ''
        for k, link in zip(here, links[1:]):
            p = 0
            while p < min(len(prev), len(k)) and prev[p] == k[p]:
                p += 1
            e.append({'p': p, 'k': k[p:].encode(), 'v': self.entries[k], 't': link})
            prev = k
        node = {'l': links[0], 'e': e}
        data = dag_cbor.encode(node)
        cid = cid_of(data)
        self.blocks[cid] = data
        for k in keys:
            self.nodes_of.setdefault(k, []).insert(0, cid)
        return cid, node


def decode_tree(root: CID, get):
    """Walks a stored tree by reading blocks with get(cid) -> bytes or None.

    Returns (entries dict, node CIDs in order). Raises KeyError naming a missing node.
    """
    entries, nodes = {}, []

    def walk(cid):
        data = get(cid)
        if data is None:
            raise KeyError(f'missing tree node {cid.encode("base32")}')
        if cid_of(data) != cid:
            raise ValueError(f'node bytes do not hash to {cid.encode("base32")}')
        node = dag_cbor.decode(data)
        nodes.append(cid)
        if node['l'] is not None:
            walk(node['l'])
        prev = b''
        for e in node['e']:
            key = prev[:e['p']] + e['k']
            prev = key
            entries[key.decode()] = e['v']
            if e['t'] is not None:
                walk(e['t'])
    walk(root)
    return entries, nodes


# --- keys with chosen layers, for generators

def mine(prefix, layers, per, limit=400_000):
    """Returns {layer: [keys]} of keys starting with prefix."""
    found = {l: [] for l in layers}
    i = 0
    while any(len(v) < per[l] for l, v in found.items()) and i < limit:
        k = f'{prefix}{i}'
        z = zeros(k)
        if z in found and len(found[z]) < per[z]:
            found[z].append(k)
        i += 1
    return found
