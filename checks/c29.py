"""C29: positional embeddings are the documented functions of the position."""
import math
from fractions import Fraction as F

import numpy as np
import torch

from engine import alg

from . import ref
from .c11 import fold
from .common import covering, pinned
from .netlib import layer_ref
from .ref import job

BOUNDS = ("ClassicSinusoidalEmbedding of dimensions 2..128 for positions in [-30,30] and tensors of 1 to 4 dimensions; Fourier, continuous and discontinuous embeddings: orders<=5, "
          "segments<=4, lengths {1,2,4}, periods, inputs and outputs<=3, every pair of settings together, defaults included; symbolic coefficients and positions. sin and cos are uninterpreted with their functional laws.")
OUTSIDE = "positions so large that float32 loses the angle"


def classic(h, dim, shape, lo=-30, hi=30, dtype=torch.float32):
    from high_order_layers_torch.positional_embeddings import ClassicSinusoidalEmbedding

    E = ClassicSinusoidalEmbedding(dim)
    x = h.tensor(h.elements("x", shape, lo, hi), dtype)
    xa = h.e(x).copy()
    y = E(x)
    half = dim // 2
    h.same_shape(y, tuple(shape) + (dim,), "embedding")
    exp = ref.obj(tuple(shape) + (dim,))
    for ix in np.ndindex(*shape):
        for j in range(half):
            f = ref.rat(10000 ** (-j / (half - 1))) if half > 1 else F(1)
            exp[ix + (j,)] = alg.sin(xa[ix] * f)
            exp[ix + (half + j,)] = alg.cos(xa[ix] * f)
    h.close(y, exp, "sinusoidal embedding", tol=F(1, 1000))
    if len(list(E.parameters())):
        h.fail("the classic embedding has parameters")


def odd(h):
    from high_order_layers_torch.positional_embeddings import ClassicSinusoidalEmbedding

    out = []
    for d in range(1, 12):
        try:
            ClassicSinusoidalEmbedding(d)
            out.append(d % 2 == 0)
        except ValueError:
            out.append(d % 2 == 1)
    h.true(out, "odd dimensions are refused, even ones accepted")


def layer(h, which, n, S, i, o, length=2, per=None, b=1, dtype=torch.float32):
    from high_order_layers_torch import positional_embeddings as PE

    half = F(length or 2) / 2
    kw = dict(n=n, in_features=i, out_features=o)
    if length is not None:
        kw["length"] = float(length)
    if which != "fourier":
        kw["segments"] = S
        if per:
            kw["periodicity"] = float(per)
    cls = {"fourier": PE.FourierSeriesEmbedding, "continuous": PE.PiecewisePolynomialEmbedding, "discontinuous": PE.PiecewiseDiscontinuousPolynomialEmbedding}[which]
    L = cls(**kw)
    if L is None:
        h.fail("no layer was returned")
    if dtype is torch.float64:
        L = L.double()
    h.set(L.w, "w", -1, 1)
    if per:
        xa = pinned(h, "x", (b, i), S, min(half, F(per) / 2), ())
        xa[0, 0] = h.scalar("x", -F(5, 4) * per, F(5, 4) * per)
    else:
        xa = pinned(h, "x", (b, i), S, half, ((0, 0),))
    h.close(L(h.tensor(xa, dtype)), layer_ref(h, L, which, n, S, i, o, xa, half, per), "embedding layer", tol=F(1, 200))


def magnitude(h, which, n, S, i, o, mag):
    from high_order_layers_torch import positional_embeddings as PE

    cls = {"continuous": PE.PiecewisePolynomialEmbedding, "discontinuous": PE.PiecewiseDiscontinuousPolynomialEmbedding}[which]
    with h.randomness():
        L = cls(n=n, in_features=i, out_features=o, segments=S, weight_magnitude=float(mag))
    w = h.e(L.w)
    h.le(w, F(mag) / i, "initial coefficients", slack=F(1, 10**5))
    h.le(-w, F(0), "initial coefficients", slack=F(1, 10**5))
    h.distinct(w[..., 0], "links")
    # the bound is attained: the largest draw gives the largest coefficient
    names = [k for k in (h.ctx.vars if h.sym else h.used) if k.startswith("rand")]
    h.close([w[0, 0, 0] * i], [h.scalar(names[0], 0, 1) * F(mag)], "scale of the coefficients", tol=F(1, 1000)) if names else h.fail("no draws")


def jobs(tier):
    J = []
    deep = tier == "thorough"
    for dim in (2, 4, 6, 8, 16) + ((10, 12, 64) if deep else ()):
        J.append(job(f"classic dim={dim}", classic, dim=dim, shape=(2,)))
    for sh in ((1,), (2, 3), (2, 1, 2)):
        J.append(job(f"classic dim=4 shape={sh}", classic, dim=4, shape=sh))
    J.append(job("classic refuses odd dimensions", odd))
    for n, i, o, ln in [(3, 1, 2, 2), (5, 2, 1, 4), (4, 2, 2, 1), (1, 1, 1, 2)]:
        J.append(job(f"fourier n={n} {i}->{o} length={ln}", layer, which="fourier", n=n, S=1, i=i, o=o, length=ln))
    for which in ("continuous", "discontinuous"):
        for n, S, i, o, ln, per in [(2, 3, 1, 2, 2, None), (3, 2, 2, 1, 4, None), (4, 4, 1, 1, 1, None), (3, 2, 1, 1, 2, 2), (2, 2, 1, 2, 4, 3)]:
            J.append(job(f"{which} n={n} S={S} {i}->{o} length={ln} period={per}", layer, which=which, n=n, S=S, i=i, o=o, length=ln, per=per))
        J.append(job(f"{which} magnitude", magnitude, which=which, n=3, S=2, i=2, o=2, mag=3))
    for sh, dim, dt in [((3,), 32, torch.float32), ((2, 2), 10, torch.float64), ((1, 2, 1, 2), 2, torch.float32), ((130,), 2, torch.float32), ((1,), 128, torch.float64)]:
        J.append(job(f"classic dim={dim} shape={sh} {dt}", classic, dim=dim, shape=sh, dtype=dt))
    for q, c in enumerate(covering(which=("fourier", "continuous", "discontinuous"), n=(2, 3, 4), S=(1, 2, 3), i=(1, 2, 3), o=(1, 2, 3), length=(None, 1, 4), per=(None, 2, F(3, 2)), b=(1, 2, 3),
                                   dtype=(torch.float32, torch.float64), valid=lambda which, per, S, i, b, **k: (which != "fourier" or (per is None and S == 1)) and (per is None or i * b <= 3))):
        J.append(job(f"settings {q} {c}", layer, **c))
    return J
