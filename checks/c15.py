"""C15: normalisation layers: the documented scaling of every sample."""
from fractions import Fraction as F

import numpy as np
import torch

from engine import alg

from . import ref
from .common import covering
from .ref import job

BOUNDS = ("samples of up to 12 elements (shapes up to 4 dimensions) in batches<=3, one sample of 40, batches of 140; both precisions, contiguous or not; inputs in [-4,4], pairs up to 10000 (layer norm: 3 symbolic elements), eps {1e-6, 1/8, 1}; "
          "functions and layer classes; all orderings and signs of the elements, ties included.")
OUTSIDE = "longer samples; half precision"


def biggest(vals):
    m = vals[0]
    for v in vals[1:]:
        if m < v:
            m = v
    return m


def absv(v):
    return v if not (v < 0) else -v


def lines(shape, axis):
    """Index groups that are normalised together: along an axis, or whole samples."""
    if axis == "sample":
        return [[(b,) + r for r in np.ndindex(*shape[1:])] for b in range(shape[0])]
    axis = axis % len(shape)
    rest = [range(d) if a != axis else [None] for a, d in enumerate(shape)]
    out = []
    import itertools

    for ix in itertools.product(*rest):
        out.append([tuple(k if v is None else v for v in ix) for k in range(shape[axis])])
    return out


def expected(kind, xa, axis, eps):
    out = ref.obj(xa.shape)
    for grp in lines(xa.shape, axis):
        vals = [xa[ix] for ix in grp]
        if kind == "max_abs":
            m, c = biggest([absv(v) for v in vals]), F(0)
        elif kind == "max_center":
            hi, lo = biggest(vals), -biggest([-v for v in vals])
            c = (hi + lo) * F(1, 2)
            m = hi - c
        elif kind == "l2":
            s = F(0)
            for v in vals:
                s = s + v * v
            m, c = alg.sqrt(s), F(0)
        for ix, v in zip(grp, vals):
            out[ix] = (v - c) / (m + eps)
    return out


MAKE = {
    "MaxAbsNormalization": ("max_abs", 1),
    "MaxAbsNormalizationLast": ("max_abs", -1),
    "MaxAbsNormalizationND": ("max_abs", "sample"),
    "MaxCenterNormalization": ("max_center", 1),
    "MaxCenterNormalizationLast": ("max_center", -1),
    "MaxCenterNormalizationND": ("max_center", "sample"),
    "L2Normalization": ("l2", 1),
}
FUN = {
    "max_abs_normalization": ("max_abs", 1),
    "max_abs_normalization_last": ("max_abs", -1),
    "max_abs_normalization_nd": ("max_abs", "sample"),
    "max_center_normalization": ("max_center", 1),
    "max_center_normalization_last": ("max_center", -1),
    "max_center_normalization_nd": ("max_center", "sample"),
    "l2_normalization": ("l2", 1),
}


def norm(h, what, shape, eps=None, dim=None, lo=-4, free=None, strided=False, dtype=torch.float32, apart=False, hi=4):
    from high_order_layers_torch import layers as LL
    from high_order_layers_torch import utils as UU

    kw = {}
    if eps is not None:
        kw["eps"] = float(eps)
    if dim is not None:
        kw["dim"] = dim
    if what in MAKE:
        kind, axis = MAKE[what]
        f = getattr(LL, what)(**kw)
    else:
        kind, axis = FUN[what]
        f = lambda v: getattr(UU, what)(v, **kw)
    if dim is not None:
        axis = dim
    xa = ref.obj(shape)
    for q, ix in enumerate(np.ndindex(*shape)):
        if free is None or q in free:
            xa[ix] = h.scalar(f"x_{q}", lo, hi)
        elif apart and xa.size > 12:
            # long samples: most elements are constants
            xa[ix] = (-1 if q % 3 == 1 else 1) * (F(1, 2) + F((11 * q) % xa.size, xa.size))
        elif apart:
            # narrow bands of different elements do not meet
            k = F((7 * q) % 13) * F(3, 13) - F(3, 2)
            xa[ix] = h.scalar(f"x_{q}", k, k + F(1, 8))
        else:
            # symbolic within a band of its own: the order of these is fixed
            xa[ix] = h.scalar(f"x_{q}", F(7 * q % 5) - 2, F(7 * q % 5) - 2 + F(3, 4))
    if kind == "l2":
        for grp in lines(shape, axis):
            s = F(0)
            for ix in grp:
                s = s + xa[ix] * xa[ix]
            h.assume(s >= F(1, 64))
    # near a zero sample, the result is x / eps: keep it inside what float32 resolves
    x = h.tensor(np.swapaxes(xa, 0, -1).copy(), dtype).transpose(0, -1) if strided else h.tensor(xa, dtype)
    y = f(x)
    h.same_shape(y, shape, what)
    e = F(float(eps)) if eps is not None else F(1e-6)
    h.close(y, expected(kind, xa, axis, e), what, tol=F(1, 200))
    if kind != "l2":
        h.le(y, 1, "at most 1", slack=F(1, 10000))
        h.le(-h.e(y), 1, "at least -1", slack=F(1, 10000))
    h.close(x, xa, "input unchanged")


def layernorm(h, shape, bias, calls=1):
    from high_order_layers_torch.layers import LazyLayerNormLastDim

    L = LazyLayerNormLastDim(bias=bias)
    d = shape[-1]
    xa = h.elements("x", shape, -2, 2)
    for ix in np.ndindex(*shape[:-1]):
        h.assume(xa[ix + (0,)] - xa[ix + (1,)] >= F(1, 8))
    L(h.tensor(xa))
    ps = dict(L.named_parameters())
    if set(ps) != ({"weight", "bias"} if bias else {"weight"}):
        h.fail(f"parameters {sorted(ps)}")
    h.close(ps["weight"], [F(1)] * d, "initial weight")
    if bias:
        h.close(ps["bias"], [F(0)] * d, "initial bias")
    for k, p in ps.items():
        h.same_shape(p, (d,), k)
        h.set(p, k, -1, 1)
    for c in range(calls):
        y = L(h.tensor(xa))
    w = h.e(ps["weight"])
    b = h.e(ps["bias"]) if bias else [F(0)] * d
    exp = ref.obj(shape)
    for ix in np.ndindex(*shape[:-1]):
        v = [xa[ix + (k,)] for k in range(d)]
        mean = F(0)
        for t in v:
            mean = mean + t * F(1, d)
        var = F(0)
        for t in v:
            var = var + (t - mean) * (t - mean) * F(1, d)
        r = 1 / alg.sqrt(var + F(1e-5))
        for k in range(d):
            exp[ix + (k,)] = (v[k] - mean) * r * w[k] + b[k]
    h.close(y, exp, "layer norm over the last dimension", tol=F(1, 100))


def jobs(tier):
    J = []
    for name in list(MAKE) + list(FUN):
        kind, axis = MAKE.get(name) or FUN[name]
        J.append(job(f"{name} 1x1", norm, what=name, shape=(1, 1), eps=F(1, 8)))
        J.append(job(f"{name} 1x3", norm, what=name, shape=(1, 3), lo=-4))
        J.append(job(f"{name} 2x2 eps=1", norm, what=name, shape=(2, 2), eps=1))
        J.append(job(f"{name} 3x2 eps=1/8", norm, what=name, shape=(3, 2), eps=F(1, 8), free=(0, 3)))
        J.append(job(f"{name} 2x1x2", norm, what=name, shape=(2, 1, 2), free=(0, 3)))
        J.append(job(f"{name} 1x2x2", norm, what=name, shape=(1, 2, 2), free=(1, 2)))
        J.append(job(f"{name} 2x2x1x2", norm, what=name, shape=(2, 2, 1, 2), free=(2, 5)))
        J.append(job(f"{name} strided", norm, what=name, shape=(2, 3), free=(1, 5), strided=True))
    for name in ("MaxAbsNormalization", "max_abs_normalization", "max_center_normalization"):
        for dim in (0, 1, 2, -1):
            J.append(job(f"{name} dim={dim}", norm, what=name, shape=(2, 2, 2), dim=dim, free=(0, 6)))
    for shape, bias in [((1, 2), True), ((2, 3), True), ((2, 2), False), ((1, 2, 3), True), ((2, 1, 2), False)]:
        J.append(job(f"layer norm {shape} bias={bias}", layernorm, shape=shape, bias=bias))
    J.append(job("layer norm two calls", layernorm, shape=(1, 2), bias=True, calls=2))
    names = list(MAKE) + list(FUN)
    C = dict(what=names, shape=((1, 5), (2, 3), (3, 2, 2), (1, 3, 3), (2, 1, 2, 3), (1, 2, 3, 2)), eps=(None, F(1, 100), 2), strided=(False, True), dtype=(torch.float32, torch.float64))
    for q, c in enumerate(covering(**C)):
        size = int(np.prod(c["shape"]))
        J.append(job(f"settings {q} {c}", norm, free=(q % size, (5 * q + 3) % size), apart=True, **c))
    for q, name in enumerate(names):
        J.append(job(f"{name} large inputs", norm, what=name, shape=(1, 2), lo=-10**4, hi=10**4))
        J.append(job(f"{name} sample of 40", norm, what=name, shape=(1, 40), free=(39, 3 * q), apart=True))
        J.append(job(f"{name} batch of 140", norm, what=name, shape=(140, 2), free=(279, 2 * q), apart=True))
        J.append(job(f"{name} batch of 70 images", norm, what=name, shape=(70, 2, 1, 2), free=(277, 4 * q), apart=True))
    if tier == "thorough":
        for name in list(MAKE) + list(FUN):
            J.append(job(f"thorough {name} 1x4", norm, what=name, shape=(1, 4), cost=10))
            J.append(job(f"thorough {name} 2x3", norm, what=name, shape=(2, 3), cost=10))
            J.append(job(f"thorough {name} 3x3x3", norm, what=name, shape=(3, 3, 3), free=(0, 13, 26), cost=10))
    return J
