"""A Merkle search tree of which only some nodes are known, to undo operations on.

Independent of arroba. Children are None, a CID (not loaded) or a Node."""
import dag_cbor
from vlib.core import Violation
from vlib.mstref import cid_of, zeros


class Missing(Violation):
    pass


class Node:
    def __init__(self, l, e):
        self.l, self.e = l, e        # leftmost child, [(key, value, child right of it)]


class Partial:
    def __init__(self, blocks, root):
        self.blocks = blocks
        self.root = self.load(root)

    def load(self, x):
        if x is None or isinstance(x, Node):
            return x
        if x not in self.blocks:
            raise Missing(f'the tree node {x.encode("base32")} is needed and not in the archive')
        d = dag_cbor.decode(self.blocks[x])
        e, k = [], b''
        for it in d['e']:
            k = k[:it['p']] + it['k']
            e.append((k.decode(), it['v'], it['t']))
        return Node(d['l'], e)

    def layer(self):
        return zeros(self.root.e[0][0]) if self.root.e else -1

    @staticmethod
    def gap(node, key):
        """Index of the gap key falls in: 0 is the leftmost child, i is right of entry i-1."""
        return sum(k < key for k, _, _ in node.e)

    @staticmethod
    def child(node, i):
        return node.l if i == 0 else node.e[i - 1][2]

    @staticmethod
    def with_child(node, i, c):
        if i == 0:
            return Node(c, node.e)
        k, v, _ = node.e[i - 1]
        return Node(node.l, node.e[:i - 1] + [(k, v, c)] + node.e[i:])

    @staticmethod
    def prune(node):
        return None if node.l is None and not node.e else node

    def merge(self, a, b):
        if a is None or b is None:
            return b if a is None else a
        a, b = self.load(a), self.load(b)
        mid = self.merge(self.child(a, len(a.e)), b.l)
        a = self.with_child(a, len(a.e), mid)
        return Node(a.l, a.e + b.e)

    def split(self, x, key):
        """(part left of key, part right of key)"""
        if x is None:
            return None, None
        n = self.load(x)
        i = self.gap(n, key)
        if i < len(n.e) and n.e[i][0] == key:
            raise Violation(f'{key} is already in the tree')
        l, r = self.split(self.child(n, i), key)
        left = self.with_child(Node(n.l, n.e[:i]), i, l)
        return self.prune(left), self.prune(Node(r, n.e[i:]))

    def get(self, key):
        x = self.root
        while x is not None:
            n = self.load(x)
            i = self.gap(n, key)
            if i < len(n.e) and n.e[i][0] == key:
                return n.e[i][1]
            x = self.child(n, i)

    def set(self, key, value):
        """Replaces the value of a key that is in the tree."""
        def go(x):
            if x is None:
                raise Violation(f'{key} is not in the tree')
            n = self.load(x)
            i = self.gap(n, key)
            if i < len(n.e) and n.e[i][0] == key:
                return Node(n.l, n.e[:i] + [(key, value, n.e[i][2])] + n.e[i + 1:])
            return self.with_child(n, i, go(self.child(n, i)))
        self.root = go(self.root)

    def remove(self, key):
        def go(x):
            if x is None:
                raise Violation(f'{key} is not in the tree')
            n = self.load(x)
            i = self.gap(n, key)
            if i < len(n.e) and n.e[i][0] == key:
                mid = self.merge(self.child(n, i), n.e[i][2])
                return self.prune(self.with_child(Node(n.l, n.e[:i] + n.e[i + 1:]), i, mid))
            return self.prune(self.with_child(n, i, go(self.child(n, i))))
        root = go(self.root) or Node(None, [])
        while not root.e and root.l is not None:
            root = self.load(root.l) if isinstance(root.l, Node) else self.stub(root.l)
            if not isinstance(root, Node):
                break
        self.root = root

    def stub(self, cid):
        """A root that is only known by its CID, unless it can be loaded."""
        return self.load(cid) if cid in self.blocks else cid

    def insert(self, key, value):
        z = zeros(key)
        self.root = self.load(self.root)
        top = self.layer()
        if top < 0:
            self.root = Node(None, [(key, value, None)])
        elif z > top:
            l, r = self.split(self.root, key)
            for _ in range(top + 1, z):
                l, r = (x if x is None else Node(x, []) for x in (l, r))
            self.root = Node(l, [(key, value, r)])
        else:
            self.root = self.put(self.root, top, key, value, z)

    def put(self, x, layer, key, value, z):
        n = Node(None, []) if x is None else self.load(x)
        i = self.gap(n, key)
        if i < len(n.e) and n.e[i][0] == key:
            raise Violation(f'{key} is already in the tree')
        if layer == z:
            l, r = self.split(self.child(n, i), key)
            n = self.with_child(n, i, l)
            return Node(n.l, n.e[:i] + [(key, value, r)] + n.e[i:])
        return self.with_child(n, i, self.put(self.child(n, i), layer - 1, key, value, z))

    def cid(self, x=None, top=True):
        x = self.root if top else x
        if x is None or not isinstance(x, Node):
            return x
        e, prev = [], ''
        for k, v, c in x.e:
            p = 0
            while p < min(len(prev), len(k)) and prev[p] == k[p]:
                p += 1
            e.append({'p': p, 'k': k[p:].encode(), 'v': v, 't': self.cid(c, False)})
            prev = k
        return cid_of(dag_cbor.encode({'l': self.cid(x.l, False), 'e': e}))


def undo(blocks, root, ops):
    """Root CID after undoing the operations of a commit event on the tree with this root."""
    t = Partial(blocks, root)
    for op in reversed(ops):
        path, action = op['path'], op['action']
        if action == 'create':
            if t.get(path) != op['cid']:
                raise Violation(f'{path} is not what the event says it created')
            t.remove(path)
        elif action == 'update':
            if t.get(path) != op['cid']:
                raise Violation(f'{path} is not what the event says it was updated to')
            t.set(path, op['prev'])
        else:
            t.insert(path, op['prev'])
    return t.cid()
