"""Helpers shared by the property harnesses."""
import random
from fractions import Fraction as F

import numpy as np
import torch

from . import ref


def pinned(h, name, shape, S, half=F(1), free=((0, 0),), reach=F(1, 8), pick=0):
    """Input tensor elements: the entries listed in `free` range over the whole
    domain (and beyond, by `reach` segment widths); every other entry is
    symbolic inside one fixed segment."""
    a = ref.obj(shape)
    free = {tuple(f) for f in free}
    wid = 2 * half / S
    ext = wid * F(reach)
    for i, ix in enumerate(np.ndindex(*shape)):
        if ix in free:
            a[ix] = h.scalar(f"{name}_{i}", -half - ext, half + ext)
        else:
            k = (i * 7 + pick + 1) % S
            lo = -half + wid * k
            a[ix] = h.scalar(f"{name}_{i}", lo + wid / 16, lo + wid * F(15, 16))
    return a


def reach_for(n, S):
    """How far outside the domain (in segment widths) the float constants of the
    nodes still determine the extrapolated value to 1e-3."""
    return F(1) if n <= 3 else F(1, 2) if n <= 5 else F(1, 8)


def links(h, x, w, f):
    """out[b, o] = sum_i f(w[o, i], x[b, i])"""
    B, I = x.shape
    O = w.shape[0]
    out = ref.obj((B, O))
    for b in range(B):
        for o in range(O):
            acc = F(0)
            for i in range(I):
                acc = acc + f(w[o, i], x[b, i])
            out[b, o] = acc
    return out


def covering(t=2, valid=None, **factors):
    """Deterministic t-wise covering array: a list of configurations such that
    every valid combination of values of any t factors occurs in one of them."""
    import itertools

    names = list(factors)
    vals = [list(factors[k]) for k in names]
    K = len(names)
    t = min(t, K)
    cfg = lambda r: dict(zip(names, (vals[i][x] for i, x in enumerate(r))))
    ok = (lambda r: True) if valid is None else (lambda r: bool(valid(**cfg(r))))
    subsets = list(itertools.combinations(range(K), t))
    by = [[s for s in subsets if i in s] for i in range(K)]
    todo = {}  # insertion-ordered
    for s in subsets:
        for v in itertools.product(*[range(len(vals[i])) for i in s]):
            todo[s, v] = None

    def complete(s, v, turn):
        row = [None] * K
        for i, x in zip(s, v):
            row[i] = x
        rest = [i for i in range(K) if row[i] is None]
        rest = rest[turn % max(1, len(rest)):] + rest[:turn % max(1, len(rest))]
        for i in rest:
            best, score = 0, -1
            for dx in range(len(vals[i])):
                x = (dx + turn) % len(vals[i])
                row[i] = x
                c = sum((u, tuple(row[j] for j in u)) in todo for u in by[i] if all(row[j] is not None for j in u))
                if c > score:
                    best, score = x, c
            row[i] = best
        return tuple(row)

    out = []
    while todo:
        s, v = next(iter(todo))
        row = next((r for r in (complete(s, v, k) for k in range(24)) if ok(r)), None)
        if row is None:
            rest = [i for i in range(K) if i not in s]
            size = 1
            for i in rest:
                size *= len(vals[i])
            rng = random.Random(7)
            few = itertools.product(*[range(len(vals[i])) for i in rest]) if size <= 4000 else ([rng.randrange(len(vals[i])) for i in rest] for _ in range(4000))
            for w in few:
                r = [0] * K
                for i, x in zip(list(s) + rest, list(v) + list(w)):
                    r[i] = x
                if ok(r):
                    row = tuple(r)
                    break
        if row is None:
            del todo[s, v]
            continue
        out.append(row)
        for u in subsets:
            todo.pop((u, tuple(row[j] for j in u)), None)
    return [cfg(r) for r in out]
