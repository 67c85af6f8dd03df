"""C04: product layers: output = prod_i(1 + f_i) - 1 (+ the documented linear
term when alpha != 1)."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .c11 import fold
from .common import covering, pinned
from .ref import job

BOUNDS = ("orders n<=4, segments<=4, inputs<=3, outputs<=2, batch<=2, coefficients in [-1,1], inputs over the domain (one free over all "
          "segments) and over several periods; the linear product layer: weights, bias, inputs in [-2,2], alpha in {1, 0.5, 0}, with and without bias; the product bases with alpha in {1, 1/2, 1/4, 0}.")
OUTSIDE = "more than three inputs per output"


def prod(h, kind, n, S, i, o, b, free=((0, 0),), length=2, per=None, **extra):
    from high_order_layers_torch.layers import high_order_fc_layers

    half = F(2 if length is None else length) / 2
    if length is not None:
        extra["length"] = float(length)
    if per is not None:
        extra["periodicity"] = float(per)
    layer = high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, **extra)
    h.set(layer.w, "w", -1, 1)
    w = h.e(layer.w)
    xa = pinned(h, "x", (b, i), S, half, free, F(1, 8))
    if per is not None:
        P, wid = F(per), 2 * half / S
        safe = [c for c in (-half + wid * (k + F(j, 16)) for k in range(S) for j in (3, 5, 9, 11)) if abs(c) < P / 2 - wid / 32]
        for q, ix in enumerate(np.ndindex(b, i)):
            c = safe[(3 * q + 1) % len(safe)]
            xa[ix] = h.scalar(f"xp_{q}", c - wid / 32, c + wid / 32)
        xa[tuple(free[0])] = h.scalar("xf", -P * F(5, 4), P * F(5, 4))
    y = layer(h.tensor(xa))
    if per is not None:
        xa = np.vectorize(lambda v: fold(v, per), otypes=[object])(xa)
    h.same_shape(y, (b, o), "output shape")
    exp = ref.obj((b, o))
    for bb in range(b):
        for oo in range(o):
            p = F(1)
            for ii in range(i):
                if kind == "polynomial_prod":
                    f = ref.poly(w[oo, ii], n, xa[bb, ii], half)
                else:
                    f = ref.piecewise(w[oo, ii], n, S, xa[bb, ii], half, kind == "continuous_prod")
                p = p * (1 + f)
            exp[bb, oo] = p - 1
    h.close(y, exp, "product layer output", tol=F(1, 200))


def linear(h, i, o, b, alpha, bias):
    from high_order_layers_torch.ProductLayer import Product

    layer = Product(in_features=i, out_features=o, bias=bias, alpha=float(alpha))
    h.set(layer.weight, "w", -2, 2)
    w = h.e(layer.weight)
    if bias:
        h.set(layer.bias, "bias", -2, 2)
        bb_ = h.e(layer.bias)
    x = h.real("x", (b, i), -2, 2)
    xa = h.e(x)
    y = layer(x)
    h.same_shape(y, (b, o), "output shape")
    exp = ref.obj((b, o))
    for r in range(b):
        for c in range(o):
            p, s = F(1), F(0)
            for k in range(i):
                t = w[c, k] * xa[r, k]
                p = p * (1 + t)
                s = s + t
            exp[r, c] = p - (1 - F(alpha)) * s - 1 + (bb_[c] if bias else 0)
    h.close(y, exp, "product of (1 + w x)", tol=F(1, 200))


def basis(h, flat, n, i, o, b, alpha, length=2):
    """The product bases take the same alpha as the linear product layer."""
    from high_order_layers_torch.LagrangePolynomial import LagrangePolyFlatProd, LagrangePolyProd

    half = F(length) / 2
    B = (LagrangePolyFlatProd if flat else LagrangePolyProd)(n, length=float(length), alpha=float(alpha))
    w = h.real("w", (o, i, n) if flat else (b, i, o, n), -1, 1)
    x = h.real("x", (b, i), -half, half)
    wa, xa = h.e(w), h.e(x)
    y = B.interpolate(x, w)
    h.same_shape(y, (b, o), "output shape")
    exp = ref.obj((b, o))
    for r in range(b):
        for c in range(o):
            p, s = F(1), F(0)
            for k in range(i):
                f = ref.poly(wa[c, k] if flat else wa[r, k, c], n, xa[r, k], half)
                p, s = p * (1 + f), s + f
            exp[r, c] = p - 1 - (1 - F(alpha)) * s
    h.close(y, exp, "product of (1 + link) without the share of the sum", tol=F(1, 200))


def factory(h, i, o, b):
    from high_order_layers_torch.layers import high_order_fc_layers

    layer = high_order_fc_layers(layer_type="product", n=3, in_features=i, out_features=o, segments=2)
    h.set(layer.weight, "w", -2, 2)
    h.set(layer.bias, "bias", -2, 2)
    w, c = h.e(layer.weight), h.e(layer.bias)
    x = h.real("x", (b, i), -2, 2)
    xa = h.e(x)
    exp = ref.obj((b, o))
    for r in range(b):
        for q in range(o):
            p = F(1)
            for k in range(i):
                p = p * (1 + w[q, k] * xa[r, k])
            exp[r, q] = p - 1 + c[q]
    h.close(layer(x), exp, "product layer from the factory", tol=F(1, 200))


def jobs(tier):
    J = []
    for kind in ("continuous_prod", "discontinuous_prod"):
        for n, S, i, o, b in [(2, 1, 1, 1, 1), (2, 2, 2, 2, 1), (3, 2, 2, 1, 2), (2, 4, 3, 1, 1), (3, 3, 2, 2, 1), (4, 1, 2, 1, 1), (2, 3, 3, 2, 1), (4, 2, 1, 2, 2)]:
            J.append(job(f"{kind} n={n} S={S} {b}x{i}->{o}", prod, kind=kind, n=n, S=S, i=i, o=o, b=b, cost=i * n))
            if i > 1:
                J.append(job(f"{kind} n={n} S={S} {b}x{i}->{o} last free", prod, kind=kind, n=n, S=S, i=i, o=o, b=b, free=((b - 1, i - 1),), cost=i * n))
        for L in (1, 4):
            J.append(job(f"{kind} length={L}", prod, kind=kind, n=3, S=2, i=2, o=1, b=1, length=L))
    for n, i, o, b in [(2, 1, 1, 1), (2, 2, 2, 2), (3, 2, 1, 1), (2, 3, 1, 1), (4, 2, 1, 1)]:
        J.append(job(f"polynomial_prod n={n} {b}x{i}->{o}", prod, kind="polynomial_prod", n=n, S=1, i=i, o=o, b=b, cost=i * n))
    for i, o, b in [(1, 1, 1), (2, 2, 1), (3, 1, 2), (2, 3, 2), (4, 1, 1)]:
        for alpha in (1, F(1, 2), 0):
            for bias in (True, False):
                J.append(job(f"product alpha={alpha} bias={bias} {b}x{i}->{o}", linear, i=i, o=o, b=b, alpha=alpha, bias=bias))
    J.append(job("product factory", factory, i=3, o=2, b=2))
    for flat in (True, False):
        for n, i, o, b, alpha in [(2, 2, 2, 1, F(1, 2)), (3, 2, 1, 2, 0), (2, 3, 1, 1, 1), (3, 1, 2, 1, F(1, 4))]:
            J.append(job(f"{'flat' if flat else 'batched'} product basis n={n} {b}x{i}->{o} alpha={alpha}", basis, flat=flat, n=n, i=i, o=o, b=b, alpha=alpha, length=1 if n == 3 else 2))
    ok = lambda kind, n, S, i, o, b, length, per, ini, rescale: not (S > 1 and kind[0] == "p") and not (n == 1 and not kind.startswith("disc")) and n ** i * b * o <= 36 and not (per and n * i > 6)
    for q, c in enumerate(covering(2, ok, kind=("continuous_prod", "discontinuous_prod", "polynomial_prod"), n=(2, 3, 4, 1), S=(2, 1, 3, 5), i=(2, 1, 3), o=(2, 1, 3), b=(1, 2), length=(None, 1, 3), per=(None, 1, F(1, 2)),
                                   ini=(None, "uniform", "constant_random"), rescale=(None, True, False))):
        ini, rescale = c.pop("ini"), c.pop("rescale")
        if ini:
            c["initialize"] = ini
        if rescale is not None:
            c["rescale_output"] = rescale
        c["per"] = c["per"] and c["per"] * (c["length"] or 2)
        J.append(job(f"settings {q}: {c['kind']}", prod, free=((c["b"] - 1, c["i"] - 1),) if q % 2 else ((0, 0),), cost=5, **c))
    if tier == "thorough":
        for kind in ("continuous_prod", "discontinuous_prod"):
            for n, S, i in [(3, 3, 3), (4, 3, 3), (5, 2, 2), (3, 6, 2), (2, 3, 4)]:
                J.append(job(f"thorough {kind} n={n} S={S} i={i}", prod, kind=kind, n=n, S=S, i=i, o=2, b=2, cost=50, budget=1200))
        for i in (5, 6):
            J.append(job(f"thorough product i={i}", linear, i=i, o=2, b=2, alpha=F(1, 2), bias=True))
    return J
