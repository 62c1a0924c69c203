"""Runs operations on a world and knows which sequence number first stored each block."""
import dag_cbor
from vlib import imports
from vlib.core import Violation
from vlib.mstref import Ref, cid_of
from vlib.world import DIDS, record


class Log:
    """Runs operations on a world and knows which blocks each sequence number first stored."""
    def __init__(self, w, ctx, docs=None):
        self.w, self.ctx, self.docs = w, ctx, docs
        self.seen = {}        # CID -> seq that first stored it
        self.blocks_at = {}   # seq -> new blocks
        self.stats = dict(recur=0, shared=0, rejected=0, status=0, imports=0, commits=0)

    def note(self, i, data, resolved):
        w, m = self.w, self.w.repos[i]
        c = m.commits[-1]
        ref = Ref(m.entries)
        records = {cid_of(dag_cbor.encode(r)) for a, p, r in resolved if r is not None}
        c['batch'] = records
        w.log[-1][2]['batch'] = records
        owner = m.did
        for cid in {c['cid']} | set(ref.blocks) | records:
            if cid not in self.seen:
                self.seen[cid] = (c['seq'], owner)
                self.blocks_at.setdefault(c['seq'], set()).add(cid)
            elif cid in records:
                self.stats['shared'] += self.seen[cid][1] != owner
                self.stats['recur'] += 1

    def create(self, i):
        n = len(self.w.log)
        self.w.create(i)
        m = self.w.repos[i]
        c = m.commits[-1]
        for cid in (c['cid'], c['data']):
            if cid not in self.seen:
                self.seen[cid] = (c['seq'], m.did)
                self.blocks_at.setdefault(c['seq'], set()).add(cid)

    def imported(self, i, contents):
        blocks = imports.do_import(self.w, self.docs, i, contents, DIDS[i], f'h{i}.com')
        for cid in blocks:
            self.seen.setdefault(cid, (0, DIDS[i]))
        self.stats['imports'] += 1

    def commit(self, i, writes):
        resolved = self.w.resolve(i, writes)
        data = self.w.commit(i, resolved, self.w.load(i) if len(writes) % 3 == 0 else None)
        self.note(i, data, resolved)
        self.stats['commits'] += 1
        return data

    def reject(self, i, writes, n):
        w, m = self.w, self.w.repos[i]
        resolved = w.resolve(i, writes)
        have = self.w.apply(m.contents, resolved)[0]
        bad = [('create', sorted(have)[0], record(3))] if have and n % 2 else [('delete', 'app.none/x', None)]
        at = n % (len(resolved) + 1)
        # only bad at the end is certainly bad
        with w.request():
            try:
                w.storage.commit(w.handles[i], w.to_writes(resolved + bad))
            except (ValueError, KeyError):
                pass
            else:
                raise Violation('a bad commit was accepted')
        self.stats['rejected'] += 1

    def status(self, i, what):
        self.w.set_status(i, what)
        if self.w.handles[i].status != self.w.repos[i].status:
            self.w.handles[i] = self.w.load(i)
        self.stats['status'] += 1
