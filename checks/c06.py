"""C06: by default every link of a polynomial layer starts as a constant
function; constants are drawn per link from [0, weight_magnitude / inputs]."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering, pinned
from .ref import job

BOUNDS = ("every draw of the random generator (symbolic in its range) and every uninitialised buffer value; orders n<=6, segments<=5, "
          "inputs<=3, outputs<=3, kernel<=3, channels<=3, weight magnitudes {1, 3, 0.5}; inputs x over the domain.")
OUTSIDE = "the distribution of the draws beyond range and independence"


def check_links(h, w, lo, hi, what):
    """w: array [..., nodes] of elements: constant along the last axis, in range."""
    flat = w.reshape(-1, w.shape[-1])
    for r in flat:
        for v in r[1:]:
            h.close([v], [r[0]], f"{what}: one constant per link", tol=F(1, 10**6))
        h.le([r[0]], [F(hi)], f"{what}: constant <= magnitude / inputs", slack=F(1, 10**5))
        h.le([F(lo)], [r[0]], f"{what}: constant >= lower limit", slack=F(1, 10**5))


def fc(h, kind, n, S, i, o, mag, b=2, length=2, per=None, ini=None):
    from high_order_layers_torch.layers import high_order_fc_layers

    h.fresh_memory()
    with h.randomness():
        kw = {}
        if mag is not None:
            kw["weight_magnitude"] = float(mag)
        if length is not None:
            kw["length"] = float(length)
        if per is not None:
            kw["periodicity"] = float(per)
        if ini is not None:
            kw["initialize"] = ini
        layer = high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, **kw)
    mag, length = 1 if mag is None else mag, 2 if length is None else length
    w = h.e(layer.w)
    check_links(h, w, 0, F(mag) / i, "initial coefficients")
    h.distinct(w[..., 0], "initial constants of different links")
    half = F(length) / 2
    xa = pinned(h, "x", (b, i), S, half, ((0, 0),), F(1, 8))
    y = layer(h.tensor(xa))
    exp = ref.obj((b, o))
    for bb in range(b):
        for oo in range(o):
            acc = F(0)
            p = F(1)
            for ii in range(i):
                acc = acc + w[oo, ii, 0]
                p = p * (1 + w[oo, ii, 0])
            exp[bb, oo] = p - 1 if kind.endswith("prod") else acc
    h.close(y, exp, "initial layer function is constant in x")


def conv(h, kind, n, S, ci, co, k, mag, **kw):
    from high_order_layers_torch.layers import high_order_convolution_layers

    h.fresh_memory()
    with h.randomness():
        layer = high_order_convolution_layers(layer_type=kind, n=n, segments=S, in_channels=ci, out_channels=co, kernel_size=k,
                                              **({} if mag is None else {"weight_magnitude": float(mag)}), **kw)
    mag = 1 if mag is None else mag
    w = h.e(layer.conv.weight)
    N = w.shape[1] // ci
    r = w.reshape(co, ci, N, k, k)
    r = np.transpose(r, (0, 1, 3, 4, 2))
    check_links(h, r, 0, F(mag) / (ci * k * k), "initial kernel")
    h.distinct(r[..., 0], "initial constants of different links")
    xa = pinned(h, "x", (1, ci, k, k), S, F(1), ((0, 0, 0, 0),), F(1, 8))
    y = layer(h.tensor(xa))
    exp = ref.obj((1, co, 1, 1))
    for c in range(co):
        acc = F(0)
        for ix in np.ndindex(ci, k, k):
            acc = acc + r[(c,) + ix + (0,)]
        exp[0, c, 0, 0] = acc
    h.close(y, exp, "initial convolution is constant in x")


def uniform(h, kind, n, S, i, o, mag):
    """initialize="uniform": every coefficient a draw of its own in +-magnitude/inputs."""
    from high_order_layers_torch.layers import high_order_fc_layers

    h.fresh_memory()
    with h.randomness():
        layer = high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, weight_magnitude=float(mag), initialize="uniform")
    w = h.e(layer.w)
    h.le(w, F(mag) / i, "uniform coefficients", slack=F(1, 10**5))
    h.le(-w, F(mag) / i, "uniform coefficients", slack=F(1, 10**5))
    h.distinct(w, "uniform coefficients")


def jobs(tier):
    J = []
    for kind in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "polynomial", "polynomial_prod"):
        for n, S, i, o, mag in [(2, 2, 2, 1, 1), (3, 3, 3, 2, 4), (4, 1, 1, 2, F(1, 2))]:
            J.append(job(f"uniform {kind} n={n} S={S} {i}->{o} mag={mag}", uniform, kind=kind, n=n, S=1 if kind[0] == "p" else S, i=i, o=o, mag=mag))
    for kind in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "polynomial"):
        for n, S, i, o, mag in [(2, 1, 1, 1, 1), (3, 2, 2, 3, 1), (4, 3, 3, 2, 3), (2, 5, 2, 2, F(1, 2)), (6, 2, 1, 2, 1), (5, 1, 3, 1, 3)]:
            if kind == "polynomial":
                S = 1
            J.append(job(f"{kind} n={n} S={S} {i}->{o} mag={mag}", fc, kind=kind, n=n, S=S, i=i, o=o, mag=mag))
        J.append(job(f"{kind} length=4", fc, kind=kind, n=3, S=1 if kind == "polynomial" else 3, i=2, o=2, mag=1, length=4))
    for kind in ("continuous2d", "discontinuous2d", "polynomial2d"):
        for n, S, ci, co, k, mag in [(2, 1, 1, 1, 1, 1), (2, 2, 2, 3, 2, 1), (3, 2, 3, 2, 1, 3), (3, 3, 1, 2, 2, F(1, 2)), (2, 3, 2, 1, 3, 1)]:
            J.append(job(f"{kind} n={n} S={S} {ci}->{co} k={k} mag={mag}", conv, kind=kind, n=n, S=1 if kind[0] == "p" else S, ci=ci, co=co, k=k, mag=mag))
    ok = lambda kind, n, S, i, o, b, mag, length, per, ini: not (S > 1 and kind[0] == "p") and not (n == 1 and kind[0] != "d")
    for q, c in enumerate(covering(2, ok, kind=("continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "polynomial"), n=(3, 2, 4, 1), S=(2, 1, 3, 7), i=(2, 1, 3), o=(2, 1, 3, 4), b=(1, 2), mag=(None, 2, F(1, 4)),
                                   length=(None, 1, 3), per=(None, 2.0), ini=(None, "constant_random"))):
        J.append(job(f"settings {q}: {c['kind']}", fc, **c))
    return J
