"""Saved trees reload completely and only new blocks are written."""
from hypothesis import strategies as st
from vlib.core import Check, Test, Violation, check, eq
from vlib import gen, world
from vlib.world import World, Block, b32
from vlib.mstutil import *

DID = 'did:web:alice.com'


def rec(n):
    return {'v': n}


class Tree:
    """A tree over one storage, its model, and what the storage should contain."""
    def __init__(self, w):
        self.w, self.tree, self.model, self.seq = w, None, {}, 0
        self.stored = {}     # CID -> bytes of everything saved
        with w.request():
            self.tree = MST.create(storage=w.storage)

    def store_record(self, n):
        b = Block(decoded=rec(n), seq=self.seq + 1, repo=DID)
        if b.cid not in self.stored:
            with self.w.request():
                self.w.storage.write_blocks([b])
            self.stored[b.cid] = b.encoded

    def unstored(self, what):
        """Judges what the tree reports as unstored."""
        ref = Ref(self.model)
        with self.w.request():
            root, blocks = self.tree.get_unstored_blocks()
        eq(b32(root), b32(ref.root), f'{what}: root reported with the unstored blocks')
        for cid, b in blocks.items():
            eq(b32(cid_of(b.encoded)), b32(cid), f'{what}: key of an unstored block')
            eq(b32(b.cid), b32(cid), f'{what}: CID of an unstored block')
            check(cid in ref.blocks, '%s: reports %s, which is not in the tree', what, b32(cid))
            check(cid not in self.stored, '%s: reports %s as unstored, which is stored', what, b32(cid))
        missing = set(ref.blocks) - set(self.stored) - set(blocks)
        check(not missing, '%s: tree nodes neither stored nor reported: %s', what, sorted(map(b32, missing)))
        return ref, blocks

    def save(self, what):
        ref, blocks = self.unstored(what)
        self.seq += 1
        for b in blocks.values():
            b.seq, b.repo = self.seq, DID
        with self.w.request():
            self.w.storage.write_blocks(list(blocks.values()))
        self.stored.update((c, b.encoded) for c, b in blocks.items())
        with self.w.request():
            root, again = self.tree.get_unstored_blocks()
        eq(again, {}, f'{what}: unstored blocks right after saving')
        return ref

    def judge_reload(self, ref, what):
        with self.w.request():
            t = MST.load(storage=self.w.storage, cid=ref.root)
            eq(entries_of(t), sorted(self.model.items()), f'{what}: entries of the reloaded tree')
            eq(walk_blocks(t), ref.blocks, f'{what}: nodes of the reloaded tree')
            eq(t.get_pointer(), ref.root, f'{what}: root of the reloaded tree')
            got = list(MST.load(storage=self.w.storage, cid=ref.root).load_all())
        want = {bytes(c): b for c, b in ref.blocks.items()}
        want.update({bytes(c): self.stored[c] for c in self.model.values()})
        eq({bytes(c): bytes(b) for c, b in got}, want, f'{what}: blocks yielded by load_all')
        eq(len(got), len(want), f'{what}: number of blocks yielded by load_all')


def history(case, ctx):
    w = World(case['storage'], ctx, case['context'])
    t = Tree(w)
    saves = partial = 0
    for i, op in enumerate(case['ops']):
        what = f'step {i} {op}'
        with w.request():
            if op[0] == 'set':
                k, n = op[1], op[2]
                t.store_record(n)
                v = cid_of(dag_cbor.encode(rec(n)))
                t.tree = t.tree.update(k, v) if k in t.model else t.tree.add(k, v)
                t.model[k] = v
            elif op[0] == 'del' and t.model:
                k = sorted(t.model)[op[1] % len(t.model)]
                t.tree = t.tree.delete(k)
                del t.model[k]
        if op[0] == 'save' or case['always']:
            before = len(t.stored)
            ref = t.save(what)
            saves += 1
            if op[0] == 'save' and op[1]:
                t.judge_reload(ref, what)
        elif op[0] == 'look':
            t.unstored(what)
        if op[0] == 'reload':
            ref = t.save(what)
            saves += 1
            with w.request():
                t.tree = MST.load(storage=w.storage, cid=ref.root)
            eq(t.unstored(what)[1], {}, f'{what}: unstored blocks of a loaded tree')
    ref = t.save('at the end')
    t.judge_reload(ref, 'at the end')
    ctx.label(case['storage'])
    if ref.height >= 2: ctx.label('height>=2')
    if not t.model: ctx.label('ends empty')
    if t.seq > 1 and len(ref.blocks) > 1: ctx.label('several saves, several nodes')
    ctx.nontrivial(saves >= 1 and len(ref.blocks) > 1)


@st.composite
def histories(draw):
    keys = draw(gen.keysets(1, 10))
    op = st.one_of(
        st.tuples(st.just('set'), st.sampled_from(keys), st.integers(0, 3)),
        st.tuples(st.just('set'), gen.key(), st.integers(0, 3)),
        st.tuples(st.just('set'), gen.layered_key(), st.integers(0, 3)),
        st.tuples(st.just('del'), st.integers(0, 30)),
        st.tuples(st.sampled_from(['save', 'look', 'reload', 'reload']), st.booleans()),
    ).map(list)
    return {'ops': draw(st.lists(op, min_size=1, max_size=24)), 'storage': draw(world.backend), 'context': draw(world.ndb_context),
            'always': draw(st.sampled_from([False, False, True]))}


def big(case, ctx):
    """Trees with more nodes and records than one backend lookup takes (1000)."""
    w = World('ds', ctx)
    if case['deferred']:
        w.fake.lookup_max = 300
    t = Tree(w)
    n = case['n']
    with w.request():
        for i in range(n):
            r = i % case['records']
            t.store_record(r)
            v = cid_of(dag_cbor.encode(rec(r)))
            k = f'app.x.y/{i:05}'
            t.tree = t.tree.add(k, v)
            t.model[k] = v
    t.judge_reload(t.save('big tree'), 'big tree')
    ctx.nontrivial()


CHECK = Check(
    'P03',
    rule='histories of up to 24 adds, updates, deletes, saves, looks at the unstored blocks, and reloads over keys on layers 0-6, both storages, judged at every save against the reference '
         'block set; trees of up to 2200 keys with backend lookups that defer part of the keys. Non-trivial: more than one tree node and at least one save.',
    assumptions=['the Datastore service is an in-process fake under the real ndb client'],
    tests=[Test('history', histories(), history, 800, 50000),
           Test('big', st.fixed_dictionaries({'n': st.integers(1001, 2200), 'records': st.sampled_from([1, 7, 1500]), 'deferred': st.booleans()}),
                big, 0, 40, explicit=[{'n': 1030, 'records': 1025, 'deferred': True}])])
