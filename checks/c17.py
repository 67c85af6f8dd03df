"""C17: SparseLion: Lion on the coefficients whose gradient is not zero, nothing at
all on the others, over whole histories of steps."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering
from .ref import job

BOUNDS = ("histories of 1..4 steps with symbolic gradients in [-1,1] (zero included, so every sparsity pattern), 1..4 coefficients, momentum reached "
          "through the history, lr {1/64,1/8,1/2}, betas {(0.9,0.99),(1/2,3/4),(0,1/2),(1,1)}, weight decay {0,1/2,1}; parameter groups, missing "
          "gradients, closures, rate changes and state_dict transfers in the middle of a history, groups added later, gradients of every size from 1e-13 to 5000, 130 coefficients, gradients of real piecewise layers.")
OUTSIDE = "the triton backend; longer histories"


def sgn(v):
    return F(1) if v > 0 else F(-1) if v < 0 else F(0)


def step_ref(p, m, g, lr, wd, b1, b2):
    """One coefficient, one step."""
    if g == 0:
        return p, m
    p = p * (1 - lr * wd)
    u = m * b1 + g * (1 - b1)
    p = p - lr * sgn(u)
    return p, m * b2 + g * (1 - b2)


def history(h, steps, size, lr, betas, wd, transfer=None, closure=False, missing=None, shape=None, eps=F(1, 64), spans=None, rates=None,
            dtype=torch.float32, strided=False, most=False):
    """spans: largest magnitude of the gradients of each step (smallest: 1/1000 of it);
    rates: the rate is changed before each step; most: all gradients but the last are constants."""
    from high_order_layers_torch.sparse_optimizers import SparseLion

    shape = shape or (size,)
    P = torch.zeros(tuple(reversed(shape)), dtype=dtype).permute(*reversed(range(len(shape)))) if strided else torch.zeros(shape, dtype=dtype)
    P = torch.nn.Parameter(P)
    h.set(P, "p", -1, 1)
    mk = lambda q: SparseLion([q], lr=float(lr), betas=tuple(float(b) for b in betas), weight_decay=float(wd))
    opt = mk(P)
    # exactly the floats the optimiser is given
    lr, wd = F(float(lr)), F(float(wd))
    b1, b2 = (F(float(b)) for b in betas)
    p = {ix: h.e(P)[ix] for ix in np.ndindex(*shape)}
    m = {ix: F(0) for ix in p}
    for s in range(steps):
        if missing == s:
            P.grad = None
        else:
            top = F(1) if spans is None else F(spans[s])
            g = ref.obj(shape)
            for q, ix in enumerate(np.ndindex(*shape)):
                g[ix] = F((5 * q + 3 * s) % 7 - 3, 8) if most and q < len(p) - 1 else h.scalar(f"g{s}_{q}", -top, top)
                if spans is not None and not (g[ix] == 0):
                    h.assume((g[ix] - top / 1000) * (g[ix] + top / 1000) >= 0)
            # away from ties of the sign (decided by rounding in floats)
            for ix in p:
                if not (g[ix] == 0):
                    u = m[ix] * b1 + g[ix] * (1 - b1)
                    # nothing to cancel: the sign is the gradient's, however small
                    if b1 < 1 and not (spans is not None and m[ix] == 0):
                        h.assume((u - eps / 64) * (u + eps / 64) >= 0)
            P.grad = h.tensor(g, dtype)
        if rates is not None:
            lr = F(float(rates[s]))
            for grp in opt.param_groups:
                grp["lr"] = float(lr)
        if transfer == s:
            Q = torch.nn.Parameter(P.detach().clone())
            Q.grad = P.grad
            o2 = mk(Q)
            o2.load_state_dict(opt.state_dict())
            P, opt = Q, o2
        if closure:
            r = opt.step(lambda: 42)
            if r != 42:
                h.fail("step does not return the closure's value")
        else:
            opt.step()
        if missing != s:
            for ix in p:
                if g[ix] == 0:
                    h.close(h.e(P)[ix], p[ix], "coefficient without gradient", tol=F(1, 10**9))
                p[ix], m[ix] = step_ref(p[ix], m[ix], g[ix], lr, wd, b1, b2)
        exp = ref.obj(shape)
        for ix in p:
            exp[ix] = p[ix]
        h.close(P, exp, f"coefficients after step {s + 1}", tol=F(1, 1000))
        if missing != s:
            h.close(P.grad, g, "gradients unchanged")


def groups(h, steps):
    """Every group follows its own settings; parameters without gradient stay."""
    from high_order_layers_torch.sparse_optimizers import SparseLion

    A, B, C = (torch.nn.Parameter(torch.zeros(1)) for _ in range(3))
    for q, t in enumerate((A, B, C)):
        h.set(t, f"p{q}", -1, 1)
    opt = SparseLion([{"params": [A, C], "lr": 0.25}, {"params": [B], "betas": (0.5, 0.25), "weight_decay": 0.5}], lr=0.125)
    cfg = [(F(1, 4), F(0), F(0.9), F(0.99)), (F(1, 8), F(1, 2), F(1, 2), F(1, 4))]
    st = [(h.e(A)[0], F(0)), (h.e(B)[0], F(0))]
    c0 = h.e(C).copy()
    for s in range(steps):
        gs = []
        for q, t in enumerate((A, B)):
            g = h.elements(f"g{s}{q}", (1,), -1, 1)
            t.grad = h.tensor(g)
            lr, wd, b1, b2 = cfg[q]
            p, m = st[q]
            if not (g[0] == 0):
                u = m * b1 + g[0] * (1 - b1)
                h.assume((u - F(1, 4096)) * (u + F(1, 4096)) >= 0)
            gs.append(g[0])
        opt.step()
        for q in range(2):
            lr, wd, b1, b2 = cfg[q]
            st[q] = step_ref(*st[q], gs[q], lr, wd, b1, b2)
        h.close(A, [st[0][0]], "first group")
        h.close(B, [st[1][0]], "second group")
        h.close(C, c0, "no gradient, no change")


def later_group(h, wd):
    """A group added in the middle of the history starts with no momentum and its own settings."""
    from high_order_layers_torch.sparse_optimizers import SparseLion

    A, B = (torch.nn.Parameter(torch.zeros(1)) for _ in range(2))
    for q, t in enumerate((A, B)):
        h.set(t, f"p{q}", -1, 1)
    opt = SparseLion([A], lr=0.125, betas=(0.5, 0.75))
    cfg = [(F(1, 8), F(0), F(1, 2), F(3, 4)), (F(1, 4), F(wd), F(1, 2), F(3, 4))]
    st = [(h.e(A)[0], F(0)), (h.e(B)[0], F(0))]
    for s in range(3):
        if s == 1:
            opt.add_param_group({"params": [B], "lr": 0.25, "weight_decay": float(wd)})
        for q, t in enumerate((A, B)):
            if q == 1 and s == 0:
                continue
            g = h.elements(f"g{s}{q}", (1,), -1, 1)[0]
            t.grad = h.tensor(np.array([g], dtype=object))
            lr, wd_, b1, b2 = cfg[q]
            if not (g == 0):
                u = st[q][1] * b1 + g * (1 - b1)
                h.assume((u - F(1, 4096)) * (u + F(1, 4096)) >= 0)
            st[q] = step_ref(*st[q], g, lr, wd_, b1, b2)
        opt.step()
        h.close(A, [st[0][0]], "first group")
        h.close(B, [st[1][0]], "added group")


def layer(h, kind, n, S, wd):
    """Training a piecewise layer only moves the coefficients of the active segment."""
    from high_order_layers_torch.layers import high_order_fc_layers
    from high_order_layers_torch.sparse_optimizers import SparseLion

    L = high_order_fc_layers(layer_type=kind, n=n, in_features=1, out_features=1, segments=S)
    h.set(L.w, "w", -1, 1)
    w0 = h.e(L.w).copy()
    x = h.scalar("x", -1, 1)
    L(h.tensor(np.array([[x]], dtype=object))).sum().backward()
    SparseLion(L.parameters(), lr=0.125, weight_decay=float(wd)).step()
    k = ref.segment(x, S)
    base = k * (n - 1) if kind == "continuous" else k * n
    w1 = h.e(L.w)
    card = ref.lagrange(n, ref.local(x, k, S))
    for j in range(w0.shape[2]):
        if base <= j < base + n:
            c = card[j - base]
            h.assume((c - F(1, 512)) * (c + F(1, 512)) >= 0)
            h.close(w1[0, 0, j], w0[0, 0, j] * (1 - F(1, 8) * F(wd)) - F(1, 8) * sgn(c), f"active coefficient {j}")
        else:
            h.close(w1[0, 0, j], w0[0, 0, j], f"coefficient {j} of another segment")


def jobs(tier):
    J = []
    add = lambda name, **k: J.append(job(name, history, cost=k.get("steps", 1) * 2, **k))
    B0 = (0.9, 0.99)
    add("1 step 1 coefficient", steps=1, size=1, lr=F(1, 8), betas=B0, wd=0)
    add("1 step 3 coefficients", steps=1, size=3, lr=F(1, 8), betas=B0, wd=0)
    add("1 step 2x2", steps=1, size=4, shape=(2, 2), lr=F(1, 2), betas=B0, wd=0)
    add("1 step decay", steps=1, size=2, lr=F(1, 8), betas=B0, wd=F(1, 2))
    add("1 step decay 3d", steps=1, size=2, shape=(1, 2, 1), lr=F(1, 2), betas=B0, wd=1)
    add("2 steps", steps=2, size=2, lr=F(1, 8), betas=B0, wd=0)
    add("2 steps decay", steps=2, size=1, lr=F(1, 8), betas=(F(1, 2), F(3, 4)), wd=F(1, 2))
    add("3 steps", steps=3, size=1, lr=F(1, 64), betas=B0, wd=0)
    add("3 steps betas", steps=3, size=1, lr=F(1, 8), betas=(F(1, 2), F(3, 4)), wd=F(1, 2))
    add("3 steps beta1=0", steps=3, size=1, lr=F(1, 8), betas=(0, F(1, 2)), wd=0)
    add("2 steps betas=1", steps=2, size=1, lr=F(1, 8), betas=(1, 1), wd=F(1, 2))
    add("4 steps", steps=4, size=1, lr=F(1, 8), betas=B0, wd=F(1, 2))
    add("transfer", steps=3, size=1, lr=F(1, 8), betas=(F(1, 2), F(3, 4)), wd=0, transfer=2)
    add("closure", steps=2, size=1, lr=F(1, 8), betas=B0, wd=F(1, 2), closure=True)
    add("missing gradient", steps=3, size=1, lr=F(1, 8), betas=(F(1, 2), F(3, 4)), wd=F(1, 2), missing=1)
    add("missing first gradient", steps=2, size=2, lr=F(1, 8), betas=B0, wd=0, missing=0)
    J.append(job("groups", groups, steps=2, cost=5))
    for kind in ("continuous", "discontinuous"):
        J.append(job(f"{kind} layer n=2 S=3", layer, kind=kind, n=2, S=3, wd=0, cost=3))
        J.append(job(f"{kind} layer n=3 S=2 decay", layer, kind=kind, n=3, S=2, wd=F(1, 2), cost=3))
    tiny = F(1, 10**10)
    add("tiny gradients", steps=1, size=2, lr=F(1, 8), betas=B0, wd=F(1, 2), spans=(tiny,))
    add("tiny, then ordinary gradients", steps=2, size=1, lr=F(1, 8), betas=(F(1, 2), F(3, 4)), wd=F(1, 2), spans=(tiny, 1), eps=F(1, 10**12))
    add("ordinary, then tiny gradients", steps=3, size=1, lr=F(1, 8), betas=(F(1, 2), F(3, 4)), wd=F(1, 2), spans=(1, tiny, 1))
    add("large gradients", steps=2, size=1, lr=F(1, 8), betas=(F(1, 2), F(3, 4)), wd=0, spans=(5000, 1))
    add("rate changes", steps=3, size=1, lr=F(1, 8), betas=(F(1, 2), F(3, 4)), wd=F(1, 2), rates=(F(1, 8), F(1, 2), F(1, 32)))
    add("130 coefficients", steps=1, size=130, lr=F(1, 8), betas=(F(1, 2), F(3, 4)), wd=F(1, 2), most=True)
    add("130 coefficients 2 steps", steps=2, size=130, shape=(1, 13, 10), lr=F(1, 8), betas=(F(1, 2), F(3, 8)), wd=F(1, 2), most=True)
    J.append(job("group added later", later_group, wd=F(1, 2), cost=5))
    for q, c in enumerate(covering(steps=(1, 2, 3), shape=((1,), (2,), (3,), (1, 2), (2, 1, 1)), lr=(F(1, 8), F(1, 2), F(1, 64)), betas=((0.9, 0.99), (F(1, 2), F(3, 4)), (0, F(1, 2)), (F(3, 4), 0)), wd=(0, F(1, 2), 1),
                                   transfer=(None, 0, 1), closure=(False, True), missing=(None, 0, 1), dtype=(torch.float32, torch.float64), strided=(False, True),
                                   valid=lambda steps, shape, transfer, missing, **k: steps * int(np.prod(shape)) <= 3 and (transfer or 0) < steps and (missing or 0) < steps)):
        J.append(job(f"settings {q} {c}", history, size=int(np.prod(c["shape"])), cost=5, **c))
    if tier == "thorough":
        add("thorough 3 steps 2", steps=3, size=2, lr=F(1, 8), betas=B0, wd=F(1, 2))
        add("thorough 5 steps", steps=5, size=1, lr=F(1, 8), betas=(F(1, 2), F(3, 4)), wd=F(1, 2))
        add("thorough 6 steps", steps=6, size=1, lr=F(1, 8), betas=B0, wd=0)
    return J
