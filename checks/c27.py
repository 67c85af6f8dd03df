"""C27: n dimensional polynomial layers interpolate their coefficients on the tensor grid."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .c11 import fold
from .common import covering
from .ref import job

BOUNDS = ("PolynomialND and polynomial_2d..5d with 1..5 dimensions, orders 1..4 chosen per dimension, up to 81 coefficients per link; continuous_nd (PiecewiseND) with 1..3 dimensions, "
          "orders 2..3 and up to 4 segments per dimension; inputs<=2, outputs<=2, batches<=2, lengths {1,2,4}; coefficients in [-1,1]; every coordinate symbolic; "
          "every pair of settings occurs together, defaults included; addressing functions up to 16 segments per dimension and 1.5 lengths from the origin.")
OUTSIDE = "continuity of PiecewiseND across segments (its segments own their coefficients)"
TOL = F(1, 200)


def coords(h, b, i, dims, S, half, reach=F(1, 8), free=None):
    """Coordinates: with segments, `free` ones range over all of them, the others stay inside one."""
    a = ref.obj((b, i, dims))
    for q, ix in enumerate(np.ndindex(b, i, dims)):
        s = S[ix[2]]
        wid = 2 * half / s
        if s == 1 or free is None or ix in free:
            a[ix] = h.scalar(f"x{q}", -half - wid * reach, half + wid * reach)
        else:
            k = (5 * q + 1) % s
            a[ix] = h.scalar(f"x{q}", -half + wid * (k + F(1, 16)), -half + wid * (k + F(15, 16)))
    return a


def tensor_value(w, n, xs, half):
    """w: coefficients on the grid (row major); xs: one local coordinate per dimension."""
    L = [ref.lagrange(k, x, half) if k > 1 else [F(1)] for k, x in zip(n, xs)]
    w = w.reshape(tuple(n))
    for d in reversed(range(len(n))):  # contract the last dimension first
        out = ref.obj(w.shape[:-1])
        for ix in np.ndindex(*out.shape):
            acc = F(0)
            for j in range(n[d]):
                acc = acc + L[d][j] * w[ix + (j,)]
            out[ix] = acc
        w = out
    return w[()]


def flat(h, n, i, o, b, length=2, kind=None, per=None, dtype=torch.float32, one=None):
    from high_order_layers_torch.layers import high_order_fc_layers
    from high_order_layers_torch.PolynomialLayers import PolynomialND

    half = F(length or 2) / 2
    dims = len(n)
    one = b > 1 if one is None else one
    arg = n[0] if len(set(n)) == 1 and one else list(n)  # also: one n for all dimensions
    kw = dict(n=arg, in_features=i, out_features=o)
    if length is not None:
        kw["length"] = float(length)
    if per:
        kw["periodicity"] = float(per)
    L = high_order_fc_layers(layer_type=kind, **kw) if kind else PolynomialND(dimensions=dims, **kw)
    if dtype is torch.float64:
        L = L.double()
    N = int(np.prod(n))
    h.same_shape(L.w, (o, i, N), "coefficients")
    h.set(L.w, "w", -1, 1)
    w = h.e(L.w)
    if per:
        xa = h.elements("x", (b, i, dims), -F(5, 4) * per, F(5, 4) * per)
    else:
        xa = coords(h, b, i, dims, (1,) * dims, half)
    y = L(h.tensor(xa, dtype))
    exp = ref.obj((b, o))
    for bb in range(b):
        for oo in range(o):
            acc = F(0)
            for ii in range(i):
                xs = [fold(v, per) if per else v for v in xa[bb, ii]]
                acc = acc + tensor_value(w[oo, ii], n, xs, half)
            exp[bb, oo] = acc
    h.close(y, exp, "tensor product interpolant", tol=TOL)


def nodes(h, n, length=2):
    """At every grid node the layer returns that node's coefficient."""
    from high_order_layers_torch.LagrangePolynomial import LagrangeBasisND

    half = F(length) / 2
    B = LagrangeBasisND(list(n), length=float(length))
    N = int(np.prod(n))
    if B.num_basis != N:
        h.fail(f"{B.num_basis} basis functions")
    w = h.real("w", (1, 1, N), -1, 1)
    X = [ref.nodes(k, half) if k > 1 else [F(0)] for k in n]
    pts = np.array([[[X[d][ix[d]] for d in range(len(n))]] for ix in np.ndindex(*n)], dtype=object)
    y = B.interpolate(h.tensor(pts), w)
    h.close(h.e(y).reshape(-1), h.e(w).reshape(-1), "value at the nodes", tol=F(1, 500))


def pieces(h, n, S, i, o, b, length=2, via=False, free=((0, 0, 0),), dtype=torch.float32, same=None):
    from high_order_layers_torch.layers import high_order_fc_layers
    from high_order_layers_torch.PolynomialLayers import PiecewiseND

    half = F(length or 2) / 2
    dims = len(n)
    same = len(set(n)) == 1 and len(set(S)) == 1 and (b == 1 if same is None else same)
    kw = dict(n=n[0], segments=S[0], dimensions=dims) if same else dict(n=list(n), segments=list(S))
    kw.update(in_features=i, out_features=o)
    if length is not None:
        kw["length"] = float(length)
    L = high_order_fc_layers(layer_type="continuous_nd", **kw) if via else PiecewiseND(**kw)
    N, T = int(np.prod(n)), int(np.prod(S))
    h.same_shape(L.w, (i, o, T * N), "coefficients")
    h.set(L.w, "w", -1, 1)
    w = h.e(L.w)
    if dtype is torch.float64:
        L = L.double()
    xa = coords(h, b, i, dims, S, half, free=free)
    y = L(h.tensor(xa, dtype))
    exp = ref.obj((b, o))
    for bb in range(b):
        for oo in range(o):
            exp[bb, oo] = F(0)
        for ii in range(i):
            ks = [ref.segment(v, s, half) for v, s in zip(xa[bb, ii], S)]
            xs = [ref.local(v, k, s, half) for v, k, s in zip(xa[bb, ii], ks, S)]
            f = 0
            for k, s in zip(ks, S):
                f = f * s + k
            for oo in range(o):
                exp[bb, oo] = exp[bb, oo] + tensor_value(w[ii, oo, f * N : (f + 1) * N], n, xs, half)
    h.close(y, exp, "interpolant of the owning segment", tol=TOL)


def initial(h, n, S, i, o, mag):
    """Default initialisation: one constant per link within magnitude / inputs."""
    from high_order_layers_torch.PolynomialLayers import PiecewiseND

    h.fresh_memory()
    with h.randomness():
        L = PiecewiseND(n=list(n), segments=list(S), in_features=i, out_features=o, weight_magnitude=float(mag))
    w = h.e(L.w)
    h.same_shape(L.w, (i, o, int(np.prod(n) * np.prod(S))), "coefficients")
    for ix in np.ndindex(i, o):
        h.close(w[ix], np.array([w[ix][0]] * w.shape[2], dtype=object), "constant per link")
    h.le(w[..., 0], F(mag) / i, "bound", slack=F(1, 10**5))
    h.le(-w[..., 0], F(mag) / i, "bound", slack=F(1, 10**5))
    h.distinct(w[..., 0], "constants of different links")
    if not isinstance(L.w, torch.nn.Parameter) or not L.w.requires_grad:
        h.fail("coefficients are not trainable")


def address(h, n, S, length, shape, dtype=torch.float32):
    """which_segment finds the owning segment in every dimension; x_local and x_global are inverse affine maps."""
    from high_order_layers_torch.PolynomialLayers import PiecewiseND

    kw = {} if length is None else {"length": float(length)}
    half = F(length or 2) / 2
    dims = len(S)
    L = PiecewiseND(n=list(n), segments=list(S), in_features=1, out_features=1, **kw)
    xa, u, k = (ref.obj(shape + (dims,)) for _ in range(3))
    for q, ix in enumerate(np.ndindex(*xa.shape)):
        xa[ix] = h.scalar(f"x{q}", -3 * half, 3 * half) if q < 2 else h.scalar(f"x{q}", half * F(q, 64), half * F(q, 64) + half / 128)
        u[ix] = h.scalar(f"u{q}", -2 * half, 2 * half)
        k[ix] = h.integer(f"k{q}", 0, S[ix[-1]] - 1)
    seg = L.which_segment(h.tensor(xa, dtype))
    h.same_shape(seg, xa.shape, "segment indices")
    if seg.is_floating_point():
        h.fail(f"segment indices have type {seg.dtype}")
    ka = h.e(seg)
    eps = half / 10**5
    eta = lambda j, s: j * (2 * half / s) - half
    for ix in np.ndindex(*xa.shape):
        x, j, s = xa[ix], ka[ix], S[ix[-1]]
        h.true([j >= 0, j <= s - 1], "segment index in range")
        if x < -half + eps:
            h.true([j <= 0], "first segment owns everything to its left")
        elif x > half - eps:
            h.true([j >= s - 1], "last segment owns everything to its right")
        else:
            h.true([eta(j, s) <= x + eps, x <= eta(j + 1, s) + eps], "position lies inside its segment")
    idx = h.tensor(k, torch.int64)
    g = L.x_global(h.tensor(u, dtype), idx)
    exp = ref.obj(u.shape)
    for ix in np.ndindex(*u.shape):
        exp[ix] = eta(k[ix], S[ix[-1]]) + (u[ix] + half) / S[ix[-1]]
    h.close(g, exp, "global position of a local coordinate", tol=F(1, 500))
    h.close(L.x_local(g, idx), u, "local coordinate of that position", tol=F(1, 50))


def bad(h):
    from high_order_layers_torch.PolynomialLayers import PiecewiseND

    out = []
    for kw in (dict(n=3, segments=2), dict(n=[2, 2], segments=[2]), dict(n=[2], segments=[2, 2])):
        try:
            PiecewiseND(in_features=1, out_features=1, **kw)
            out.append(False)
        except ValueError:
            out.append(True)
    h.true(out, "inconsistent dimensions are refused")


def jobs(tier):
    J = []
    deep = tier == "thorough"
    for n, i, o, b, ln in [((2,), 1, 2, 1, 2), ((3,), 2, 1, 2, 4), ((2, 2), 1, 1, 1, 2), ((2, 3), 2, 1, 1, 2), ((3, 2), 1, 2, 2, 1), ((3, 3), 1, 1, 2, 4), ((4, 2), 1, 1, 1, 2),
                           ((2, 2, 2), 1, 1, 2, 2), ((2, 3, 4), 1, 1, 1, 2), ((1, 3), 1, 1, 1, 2), ((2, 2, 2, 2), 1, 1, 2, 2), ((2, 2, 2, 2, 2), 1, 1, 1, 2)] + \
            ([((3, 3, 3), 1, 1, 1, 2), ((4, 4), 2, 2, 2, 2), ((3, 3, 3, 3), 1, 1, 1, 2)] if deep else []):
        J.append(job(f"polynomial n={n} {i}->{o} b={b} length={ln}", flat, n=n, i=i, o=o, b=b, length=ln))
        J.append(job(f"nodes n={n} length={ln}", nodes, n=n, length=ln))
    for d in (2, 3, 4, 5):
        J.append(job(f"polynomial_{d}d", flat, n=(3, 2, 2, 2, 2)[:d], i=1, o=1, b=1, kind=f"polynomial_{d}d"))
        J.append(job(f"polynomial_{d}d one n", flat, n=(2,) * d, i=1, o=1, b=2, kind=f"polynomial_{d}d"))
    J.append(job("polynomial_2d period 2", flat, n=(2, 3), i=1, o=1, b=1, kind="polynomial_2d", per=2))
    for n, S, i, o, b, ln in [((2,), (3,), 1, 2, 1, 2), ((3,), (4,), 2, 2, 1, 4), ((2, 2), (2, 2), 1, 1, 1, 2), ((2, 3), (3, 2), 1, 2, 1, 2), ((3, 2), (2, 3), 2, 1, 2, 1),
                              ((2, 2), (1, 4), 2, 2, 1, 2), ((2, 2, 2), (2, 3, 2), 1, 1, 1, 2), ((2, 2, 3), (2, 1, 3), 1, 2, 2, 2)]:
        for f in range(len(n)):
            if not deep and f and (i, b) != (1, 1):
                continue
            J.append(job(f"piecewise n={n} S={S} {i}->{o} b={b} length={ln} coordinate {f}", pieces, n=n, S=S, i=i, o=o, b=b, length=ln, free=((0, 0, f),), via=f == 0))
    J.append(job("piecewise n=(2,2) S=(3,2) both coordinates", pieces, n=(2, 2), S=(3, 2), i=1, o=1, b=1, free=((0, 0, 0), (0, 0, 1))))
    J.append(job("piecewise two samples", pieces, n=(2, 2), S=(2, 2), i=1, o=1, b=2, free=((0, 0, 0), (1, 0, 1))))
    J.append(job("piecewise two inputs", pieces, n=(2, 2), S=(2, 2), i=2, o=2, b=1, free=((0, 0, 1), (0, 1, 0))))
    for n, S, i, o, mag in [((2,), (2,), 1, 1, 1), ((2, 3), (2, 1), 2, 2, 2), ((2, 2), (2, 2), 3, 1, F(1, 2))]:
        J.append(job(f"initial n={n} S={S} {i}->{o} magnitude={mag}", initial, n=n, S=S, i=i, o=o, mag=mag))
    J.append(job("inconsistent", bad))
    NS = ((2,), (4,), (2, 2), (3, 1), (2, 4), (2, 2, 3), (1, 2, 2, 2))
    for q, c in enumerate(covering(n=NS, i=(1, 2, 3), o=(1, 2, 3), b=(1, 2, 3), length=(None, 1, 4), per=(None, 2, F(3, 2)), dtype=(torch.float32, torch.float64), one=(False, True),
                                   valid=lambda n, i, b, per, **k: len(n) * i * b <= (12 if per is None else 4))):
        J.append(job(f"polynomial settings {q} {c}", flat, **c))
    PS = (((2,), (3,)), ((3,), (2,)), ((2, 2), (2, 2)), ((2, 3), (3, 1)), ((4, 2), (2, 3)), ((2, 2, 2), (2, 2, 2)), ((2, 3, 2), (1, 2, 3)))
    for q, c in enumerate(covering(ns=PS, i=(1, 2), o=(1, 2, 3), b=(1, 2, 3), length=(None, 1, 4), via=(False, True), dtype=(torch.float32, torch.float64), same=(False, True),
                                   f=(0, 1, 2), valid=lambda ns, f, **k: f < len(ns[0]))):
        (n, S), f = c.pop("ns"), c.pop("f")
        J.append(job(f"piecewise settings {q} n={n} S={S} coordinate {f} {c}", pieces, n=n, S=S, free=((c["b"] - 1, c["i"] - 1, f),), **c))
    for n, S, ln, shape in [((2,), (5,), None, (1, 1)), ((2, 3), (3, 4), 1, (1, 1)), ((3, 2), (1, 7), 4, (2, 1)), ((2, 2, 2), (2, 3, 4), 2, (1, 2)), ((2, 2), (16, 10), 3, (1, 1))]:
        J.append(job(f"address n={n} S={S} length={ln} shape={shape}", address, n=n, S=S, length=ln, shape=shape))
    J.append(job("polynomial batch of 130", flat, n=(2, 2), i=1, o=1, b=130))
    return J
