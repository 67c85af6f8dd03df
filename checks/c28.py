"""C28: evaluating a module changes nothing, and its parameters are its whole state."""
import copy
from fractions import Fraction as F

import numpy as np
import torch

from . import c16, ref
from .c10 import ref_rand
from .common import pinned
from .ref import job

BOUNDS = ("every module kind of property C16 (layers, convolutions, normalisations, networks, attentions, embeddings) and the n dimensional layers, with the same sizes; "
          "histories of evaluations at two inputs of different batch size, then a transfer of the state_dict to a new module and a deep copy; inputs and "
          "parameters symbolic as there.")
OUTSIDE = "modules with dropout or batch normalisation in training mode; the lazy layer norm before its first evaluation"


def unchanged(h, t, arr, what):
    h.close(t, arr, what, tol=F(1, 10**6))


def pure(h, build, b, free=((0, 0),), concrete=False, lo=None, hi=None, reach=F(1, 8), tol=F(1, 200), first=False, transfer=True, scale=1, rows=None, width=None, half=F(1), cells=None):
    L, shape, S = build()
    shape, S = shape if width is None else width, cells or S
    L.eval()
    multi = len(shape) > 0 and isinstance(shape[0], tuple)

    def inputs(tag, b, pick, free):
        out = []
        for q, sh in enumerate(shape if multi else [shape]):
            full = (b,) + tuple(sh)
            if lo is not None and pick:  # an order of the elements that differs from the first input's
                a = ref.obj(full)
                for r, ix in enumerate(np.ndindex(*full)):
                    at = F(lo) + (F(hi) - F(lo)) * F((7 * r + 3) % 16, 17)
                    a[ix] = h.scalar(f"{tag}{q}_{r}", at, at + (F(hi) - F(lo)) / 64)
                out.append(a)
            elif lo is not None:
                out.append(h.elements(f"{tag}{q}", full, lo, hi))
            else:
                out.append(pinned(h, f"{tag}{q}", (b, int(np.prod(sh, dtype=int)) if sh else 1), S, half=half, free=free, reach=reach, pick=pick).reshape(full))
        return out

    a1, a2 = inputs("x", b, 0, free), inputs("z", 1 if b > 1 else 2, 1, ())
    both = lambda r: list(r if isinstance(r, (tuple, list)) else (r,))[: 1 if first else None]
    x1, x2 = [h.tensor(a) for a in a1], [h.tensor(a) for a in a2]
    for q, p in enumerate(L.parameters()):
        if concrete:
            h.assign(p, ref_rand(np.random.RandomState(11 * q + 3), tuple(p.shape)) * F(scale))
        else:
            h.set(p, f"w{q}", -1, 1)
    state = {k: h.e(v).copy() for k, v in L.state_dict().items()}
    y = both(L(*x1))
    e = [h.e(t).copy() for t in y]
    L(*x2)
    for k, (t, v) in enumerate(zip(y, e)):
        unchanged(h, t, v, f"output {k} after another evaluation")
    again = both(L(*x1))
    for k, (t, v) in enumerate(zip(again, e)):
        h.close(t, v, f"output {k} of a second evaluation", tol=tol)
    for k, (t, v) in enumerate(zip(x1 + x2, a1 + a2)):
        unchanged(h, t, v, f"input {k}")
    now = L.state_dict()
    if sorted(now) != sorted(state) and transfer:
        h.fail(f"state changed from {sorted(state)} to {sorted(now)}")
    for k, v in state.items():
        unchanged(h, now[k], v, f"state {k}")
    soft = any(isinstance(m, (torch.nn.Dropout, torch.nn.modules.batchnorm._BatchNorm)) for m in L.modules())
    if not soft:
        L.train()
        for k, (t, v) in enumerate(zip(both(L(*x1)), e)):
            h.close(t, v, f"output {k} in training mode", tol=tol)
        L.eval()
    if transfer:
        M = build()[0]
        M.eval()
        M.load_state_dict({k: v.clone() for k, v in L.state_dict().items()})
        for k, (t, v) in enumerate(zip(both(M(*x1)), e)):
            h.close(t, v, f"output {k} after a state_dict transfer", tol=tol)
    C = copy.deepcopy(L)
    for p, q in zip(C.parameters(), L.parameters()):
        if p is q or p.data_ptr() == q.data_ptr():
            h.fail("a deep copy shares parameters")


def jobs(tier):
    J = []
    for j in c16.jobs(tier):
        cfg = dict(j["cfg"])
        if j["name"] == "baseline_relu b=3 last free":
            continue  # 2^9 sign patterns; b=2 covers the adapter
        if j["name"] == "conv network 1d":
            cfg["free"] = ()
        if j["name"] == "tail focus":
            cfg["build"] = c16.network("HighOrderTailFocusNetwork", (1, 4), S=1, layer_type="continuous1d", n=[2, 2], channels=[1, 2, 1], segments=[1, 1], kernel_size=[2, 2], stride=[1, 1], focus=[2, 1])
        if j["name"] == "layer norm":
            cfg["transfer"] = False
        J.append(job(j["name"], pure, cost=j["cost"], **cfg))
    return J
