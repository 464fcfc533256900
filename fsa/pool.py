"""Fork-based parallel map over work items (deterministic result order)."""
from __future__ import annotations
import multiprocessing as mp
import os
import sys

_fn = None
_items = ()


def _call(i):
    sys.setrecursionlimit(20000)
    return i, _fn(_items[i])


def pmap(fn, items, procs=None):
    """[fn(x) for x in items]; only the results are pickled."""
    global _fn, _items
    items = list(items)
    procs = procs or int(os.environ.get('FSA_PROCS', '0')) or min(8, os.cpu_count() or 1)
    if procs <= 1 or len(items) < 4:
        return [fn(x) for x in items]
    _fn, _items = fn, items
    res = [None] * len(items)
    ctx = mp.get_context('fork')
    with ctx.Pool(procs) as p:
        for i, r in p.imap_unordered(_call, range(len(items)), chunksize=1):
            res[i] = r
    return res
