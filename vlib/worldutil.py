import time
from arroba import util


def stored(w):
    """Everything stored except sequence counters, comparable."""
    if w.fake:
        return {p: raw for p, raw in w.fake.snapshot().items() if p[0][0] != 'AtpSequence'}
    return ({c: (b.encoded, b.seq, b.repo) for c, b in w.storage.blocks.items()},
            {d: (r.head.cid, r.status, r.mst.get_pointer(), r.handle) for d, r in w.storage.repos.items()})


def patch_clock(ctx, fn):
    """Makes arroba read the wall clock, in nanoseconds, from fn."""
    for obj in (util, time):
        if hasattr(obj, 'time_ns'):
            ctx.cleanup(lambda obj=obj, orig=obj.time_ns: setattr(obj, 'time_ns', orig))
            obj.time_ns = fn
