"""C05: gradients: the derivative of the output with respect to each coefficient
is the basis value of the active segment and exactly zero elsewhere; the
derivative with respect to the input is the interpolant's derivative."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering, pinned
from .ref import job

BOUNDS = ("orders n<=6, segments<=6, inputs<=2, outputs<=2, batch<=2, coefficients and upstream gradients in [-1,1], one input over all "
          "segments, the others inside one symbolic segment.")
OUTSIDE = "second derivatives; gradients exactly at a segment boundary are those of the segment that owns it"


def grads(h, kind, n, S, i, o, b, length=2, free=((0, 0),), **extra):
    from high_order_layers_torch.layers import high_order_fc_layers

    half = F(2 if length is None else length) / 2
    cont = kind == "continuous"
    if length is not None:
        extra["length"] = float(length)
    layer = high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, **extra)
    h.set(layer.w, "w", -1, 1)
    w = h.e(layer.w)
    g = h.real("g", (b, o), -1, 1)
    ga = h.e(g)
    xa = pinned(h, "x", (b, i), S, half, free, F(1, 8))
    x = h.tensor(xa).requires_grad_(True)
    y = layer(x)
    gw, gx = torch.autograd.grad(y, [layer.w, x], grad_outputs=g, allow_unused=True)
    if gx is None:
        gx = torch.zeros(b, i)
    N = w.shape[2]
    ew = ref.obj((o, i, N))
    ew.fill(F(0))
    ex = ref.obj((b, i))
    act = np.zeros((o, i, N), dtype=bool)
    for bb in range(b):
        for ii in range(i):
            v = xa[bb, ii]
            if kind == "polynomial":
                k, base, L, D = 0, 0, ref.lagrange(n, v, half), ref.dlagrange(n, v, half)
                sc = 1
            else:
                k = ref.segment(v, S, half)
                base = k * (n - 1) if cont else k * n
                loc = ref.local(v, k, S, half)
                L, D, sc = ref.lagrange(n, loc, half), ref.dlagrange(n, loc, half), S
            acc = F(0)
            for oo in range(o):
                for j in range(n):
                    ew[oo, ii, base + j] = ew[oo, ii, base + j] + L[j] * ga[bb, oo]
                    act[oo, ii, base + j] = True
                    acc = acc + D[j] * sc * w[oo, ii, base + j] * ga[bb, oo]
            ex[bb, ii] = acc
    got = h.e(gw)
    h.close(got, ew, "gradient of the coefficients", tol=F(1, 500))
    for p in np.argwhere(~act):
        v = got[tuple(p)]
        if not (isinstance(v, (int, F, float)) and v == 0):
            h.true([v == 0], f"inactive coefficient {tuple(p)} has zero gradient")
    h.close(gx, ex, "gradient of the input", tol=F(1, 100))


def window(h, kind, n, S, ci, co, k, size, b, stride, pad, length):
    """Gradients of a convolution, for its kernel and its input, under an upstream gradient."""
    from high_order_layers_torch.layers import high_order_convolution_layers

    opt = {} if length is None else {"length": float(length)}
    half = F(2 if length is None else length) / 2
    layer = high_order_convolution_layers(layer_type=kind, n=n, segments=S, in_channels=ci, out_channels=co, kernel_size=k, stride=stride, padding=pad, **opt)
    dims = (size,) * (2 if kind.endswith("2d") else 1)
    poly, cont = kind.startswith("poly"), kind.startswith("continuous")
    (wt,) = list(layer.parameters())
    h.set(wt, "w", -1, 1)
    w = h.e(wt)
    xa = pinned(h, "x", (b, ci) + dims, S, half, free=((b - 1, ci - 1) + tuple(d - 1 for d in dims),))
    x = h.tensor(xa).requires_grad_(True)
    y = layer(x)
    g = h.real("g", tuple(y.shape), -1, 1)
    ga = h.e(g)
    gw, gx = torch.autograd.grad(y, [wt, x], grad_outputs=g, allow_unused=True)
    if gx is None:  # a constant link (n = 1)
        gx = torch.zeros_like(x)
    N = w.shape[1] // ci
    ew, ex = ref.obj(w.shape), ref.obj(xa.shape)
    ew.fill(F(0))
    ex.fill(F(0))
    at = {}
    for ix in np.ndindex(*xa.shape):
        s = 0 if poly else ref.segment(xa[ix], S, half)
        t = xa[ix] if poly else ref.local(xa[ix], s, S, half)
        at[ix] = (s * (n - 1) if cont else s * n, ref.lagrange(n, t, half), [v * (1 if poly else S) for v in ref.dlagrange(n, t, half)])
    for ix in np.ndindex(*y.shape):
        for c in range(ci):
            for d in np.ndindex(*([k] * len(dims))):
                p = tuple(ix[2 + a] * stride + d[a] - pad for a in range(len(dims)))
                if any(v < 0 or v >= dims[a] for a, v in enumerate(p)):
                    continue
                src = (ix[0], c) + p
                base, L, D = at[src]
                for j in range(n):
                    wi = (ix[1], c * N + base + j) + d
                    ew[wi] = ew[wi] + L[j] * ga[ix]
                    ex[src] = ex[src] + D[j] * w[wi] * ga[ix]
    got = h.e(gw)
    h.close(got, ew, "gradient of the kernel", tol=F(1, 300))
    for ix in np.ndindex(*got.shape):
        if isinstance(ew[ix], F) and ew[ix] == 0 and not (isinstance(got[ix], (int, F, float)) and got[ix] == 0):
            h.true([got[ix] == 0], f"inactive kernel coefficient {ix} has zero gradient")
    h.close(gx, ex, "gradient of the image", tol=F(1, 60))


def conv(h, kind, n, S, k, H, W):
    from high_order_layers_torch.layers import high_order_convolution_layers

    layer = high_order_convolution_layers(layer_type=kind, n=n, segments=S, in_channels=1, out_channels=1, kernel_size=k)
    two = kind.endswith("2d")
    cont = kind.startswith("continuous")
    wt = layer.conv.weight
    h.set(wt, "w", -1, 1)
    shape = (1, 1, H, W) if two else (1, 1, W)
    xa = pinned(h, "x", shape, S, free=(tuple([0] * len(shape)),))
    x = h.tensor(xa)
    y = layer(x)
    (gw,) = torch.autograd.grad(y.sum(), [wt])
    got = h.e(gw)
    exp = ref.obj(got.shape)
    exp.fill(F(0))
    N = got.shape[1]
    for pos in np.ndindex(*got.shape[2:]):
        for op in np.ndindex(*y.shape[2:]):
            v = xa[(0, 0) + tuple(a + c for a, c in zip(op, pos))]
            s = ref.segment(v, S)
            base = s * (n - 1) if cont else s * n
            L = ref.lagrange(n, ref.local(v, s, S))
            for j in range(n):
                ix = (0, base + j) + pos
                exp[ix] = exp[ix] + L[j]
    h.close(got, exp, "gradient of the kernel coefficients", tol=F(1, 500))
    for ix in np.ndindex(*got.shape):
        if isinstance(exp[ix], F) and exp[ix] == 0:
            v = got[ix]
            if not (isinstance(v, (int, F, float)) and v == 0):
                h.true([v == 0], f"inactive kernel coefficient {ix} has zero gradient")


def jobs(tier):
    J = []
    for kind in ("continuous", "discontinuous"):
        for n, S, i, o, b in [(2, 1, 1, 1, 1), (2, 3, 1, 2, 1), (2, 2, 2, 1, 2), (3, 2, 2, 2, 1), (3, 4, 1, 1, 2), (4, 2, 1, 1, 1), (5, 2, 1, 1, 1), (2, 6, 1, 1, 1), (6, 1, 1, 1, 1)]:
            J.append(job(f"{kind} n={n} S={S} {b}x{i}->{o}", grads, kind=kind, n=n, S=S, i=i, o=o, b=b))
        J.append(job(f"{kind} length=3", grads, kind=kind, n=3, S=2, i=1, o=1, b=1, length=3))
        J.append(job(f"{kind} 3x2->2 last free", grads, kind=kind, n=3, S=3, i=2, o=2, b=3, free=((2, 1),)))
        for dim in ("1d", "2d"):
            J.append(job(f"conv {kind}{dim} n=2 S=3", conv, kind=kind + dim, n=2, S=3, k=2, H=2, W=3))
            J.append(job(f"conv {kind}{dim} n=3 S=2", conv, kind=kind + dim, n=3, S=2, k=1, H=1, W=2))
    J.append(job("discontinuous n=1 S=3", grads, kind="discontinuous", n=1, S=3, i=2, o=1, b=1))
    for n in (2, 3, 4):
        J.append(job(f"polynomial n={n}", grads, kind="polynomial", n=n, S=1, i=2, o=2, b=2))
    ok = lambda kind, n, S, i, o, b, length, ini, rescale: not (S > 1 and kind[0] == "p") and not (n == 1 and kind[0] != "d")
    for q, c in enumerate(covering(2, ok, kind=("continuous", "discontinuous", "polynomial"), n=(2, 3, 4, 1), S=(2, 1, 3, 5, 16), i=(2, 1, 3), o=(2, 1, 3), b=(2, 1, 3), length=(None, 1, 3),
                                   ini=(None, "uniform"), rescale=(None, True))):
        ini, rescale = c.pop("ini"), c.pop("rescale")
        if ini:
            c["initialize"] = ini
        if rescale is not None:
            c["rescale_output"] = rescale
        J.append(job(f"settings {q}: {c['kind']}", grads, free=((c["b"] - 1, c["i"] - 1),) if q % 2 else ((0, 0),), **c))
    kinds = [f + d for f in ("continuous", "discontinuous", "polynomial") for d in ("1d", "2d")]
    okc = lambda kind, n, S, ci, co, k, size, b, stride, pad, length: not (S > 1 and kind[0] == "p") and not (n == 1 and kind[0] != "d") and (kind[-2] == "1" or n * S * ci * co * k * k * b <= 100)
    for q, c in enumerate(covering(2, okc, kind=kinds, n=(2, 3, 1), S=(2, 1, 3), ci=(2, 1), co=(2, 1), k=(2, 1, 3), size=(3, 2, 4), b=(1, 2), stride=(1, 2), pad=(0, 1), length=(None, 1, 3))):
        if c["k"] > c["size"] + 2 * c["pad"]:
            continue
        J.append(job(f"window {q}: {c['kind']}", window, cost=4, **c))
    if tier == "thorough":
        for kind in ("continuous", "discontinuous"):
            for n in range(2, 7):
                for S in (1, 2, 3, 4, 6, 8):
                    J.append(job(f"thorough {kind} n={n} S={S}", grads, kind=kind, n=n, S=S, i=2, o=2, b=2, cost=n * S, budget=1200))
    return J
