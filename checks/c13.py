"""C13: Fourier layers: half the first coefficient plus the sine and cosine
series of period `length`, summed over the inputs (or the window)."""
import math
from fractions import Fraction as F

import numpy as np
import torch

from engine import alg

from . import ref
from .c11 import window
from .common import covering
from .ref import job

BOUNDS = ("fully connected and 1d/2d convolution; components n<=7, inputs<=3, outputs<=2, batch<=2, periods {1,2,3}, inputs over more than two "
          "periods, coefficients in [-1,1]; sine and cosine are uninterpreted functions with the addition of 2 pi built in.")
OUTSIDE = "the accuracy of the platform's sine and cosine"

PI = F(math.pi)


def series(w, n, x, length):
    acc = w[0] * F(1, 2)
    for j in range(1, n):
        i = (j + 1) // 2
        ang = 2 * PI * i * x * (1 / F(length))
        acc = acc + w[j] * (alg.cos(ang) if j % 2 == 0 else alg.sin(ang))
    return acc


def fc(h, n, i, o, b, length, how="factory"):
    from high_order_layers_torch.layers import high_order_fc_layers

    kw = {} if length is None else {"length": float(length)}
    length = 2 if length is None else length
    L = high_order_fc_layers(layer_type="fourier", n=n, in_features=i, out_features=o, **kw)
    # the layer also carries an unused vector parameter
    ps = [p for p in L.parameters() if p.ndim == 3]
    if len(ps) != 1:
        h.fail(f"{len(ps)} coefficient tensors")
    h.same_shape(ps[0], (o, i, n), "coefficients")
    h.set(ps[0], "w", -1, 1)
    w = h.e(ps[0])
    x = h.real("x", (b, i), -F(length) * F(9, 4), F(length) * F(9, 4))
    xa = h.e(x)
    y = L(x)
    exp = ref.obj((b, o))
    for bb in range(b):
        for oo in range(o):
            acc = F(0)
            for ii in range(i):
                acc = acc + series(w[oo, ii], n, xa[bb, ii], length)
            exp[bb, oo] = acc
    h.close(y, exp, "Fourier layer", tol=F(1, 500))


def periodic(h, n, i, o, length, kind="fc"):
    """Shifting an input by whole periods changes nothing."""
    from high_order_layers_torch.layers import high_order_convolution_layers, high_order_fc_layers

    if kind == "fc":
        L = high_order_fc_layers(layer_type="fourier", n=n, in_features=i, out_features=o, length=float(length))
        shape = (1, i)
    else:
        L = high_order_convolution_layers(layer_type="fourier" + kind, n=n, in_channels=i, out_channels=o, kernel_size=1, length=float(length))
        shape = (1, i, 1) if kind == "1d" else (1, i, 1, 1)
    h.set([p for p in L.parameters() if p.ndim >= 3][0], "w", -1, 1)
    xa = h.elements("x", shape, -1, 1)
    xb = ref.obj(shape)
    for q, ix in enumerate(np.ndindex(*shape)):
        xb[ix] = xa[ix] + F(length) * (2 if q % 2 else -1)
    h.close(L(h.tensor(xb)), h.e(L(h.tensor(xa))), "periodic with the given length", tol=F(1, 500))


def conv(h, kind, n, ci, co, k, size, stride=1, pad=0, length=2, rescale=False, b=1, dil=1, mode="zeros"):
    from high_order_layers_torch.layers import high_order_convolution_layers

    kw = {k_: v for k_, v, d in (("stride", stride, 1), ("padding", pad, 0), ("dilation", dil, 1), ("padding_mode", mode, "zeros"), ("rescale_output", rescale, None)) if v != d}
    if length is not None:
        kw["length"] = float(length)
    length = 2 if length is None else length
    L = high_order_convolution_layers(layer_type=kind, n=n, in_channels=ci, out_channels=co, kernel_size=k, segments=2, periodicity=None, **kw)
    ps = list(L.parameters())
    if len(ps) != 1:
        h.fail(f"{len(ps)} parameters")
    dims = size if isinstance(size, tuple) else (size,) * (2 if kind.endswith("2d") else 1)
    h.same_shape(ps[0], (co, ci * n) + (k,) * len(dims), "coefficients")
    h.set(ps[0], "w", -1, 1)
    x = h.real("x", (b, ci) + dims, -F(length) * F(5, 4), F(length) * F(5, 4))
    y = L(x)
    scale = F(1, ci * k ** len(dims)) if rescale else F(1)
    exp = window(h, h.e(ps[0]), h.e(x), n, lambda w, v: series(w, n, v, length), k, stride, pad, dil, scale, mode)
    h.same_shape(y, exp.shape, "output")
    h.close(y, exp, "Fourier convolution", tol=F(1, 500))


def jobs(tier):
    J = []
    for n, i, o, b, Ln in [(1, 2, 1, 1, 2), (2, 1, 1, 1, 2), (3, 2, 2, 2, 2), (4, 3, 1, 1, 1), (5, 1, 2, 2, 3), (7, 2, 1, 1, 2), (6, 2, 2, 1, 4)]:
        J.append(job(f"fc n={n} {b}x{i}->{o} length={Ln}", fc, n=n, i=i, o=o, b=b, length=Ln))
        J.append(job(f"fc periodic n={n} length={Ln}", periodic, n=n, i=i, o=o, length=Ln))
    for d in ("1d", "2d"):
        J.append(job(f"fourier{d} periodic", periodic, n=4, i=2, o=2, length=2, kind=d))
        J.append(job(f"fourier{d} periodic length 3", periodic, n=5, i=1, o=1, length=3, kind=d))
        for n, ci, co, k, sz, st, pad, Ln, rs in [(3, 1, 1, 1, 2, 1, 0, 2, False), (3, 2, 2, 2, 3, 1, 0, 2, False), (5, 1, 1, 2, 3, 2, 1, 2, False), (2, 2, 1, 3, 3, 1, 1, 1, False),
                                                   (4, 1, 2, 2, 2, 1, 0, 3, True), (3, 2, 1, 2, 2, 1, 0, 2, True), (1, 1, 1, 2, 2, 1, 0, 2, False)]:
            J.append(job(f"fourier{d} n={n} {ci}->{co} k={k} stride={st} pad={pad} length={Ln} rescale={rs}", conv, kind="fourier" + d, n=n, ci=ci, co=co, k=k,
                         size=sz, stride=st, pad=pad, length=Ln, rescale=rs))
    ok = lambda kind, n, ci, co, k, stride, pad, dil, length, rescale, b, size, mode: not (pad > min(size[:1 if kind.endswith("1d") else 2]) - 1
        or min(size[:1 if kind.endswith("1d") else 2]) + 2 * pad < dil * (k - 1) + 1 or (mode != "zeros" and not pad))
    for q, c in enumerate(covering(2, ok, kind=("fourier1d", "fourier2d"), n=(3, 2, 4, 1, 6), ci=(2, 1, 3), co=(2, 1, 3), k=(2, 3, 1), stride=(2, 1, 3), pad=(1, 0, 2), dil=(1, 2), length=(None, 1, 3),
                                   rescale=(None, True, False), b=(1, 2), size=((3, 4), (4, 3), (5, 3)), mode=("zeros", "circular", "reflect", "replicate"))):
        if c["kind"].endswith("1d"):
            c["size"] = c["size"][:1]
        J.append(job(f"settings {q}: {c['kind']}", conv, **c))
    for q, c in enumerate(covering(2, n=(3, 2, 5, 1, 9), i=(2, 1, 5), o=(2, 1, 4), b=(2, 1, 3), length=(None, 1, 3, F(1, 2)))):
        J.append(job(f"fc settings {q}", fc, **c))
    if tier == "thorough":
        for n in range(1, 12):
            J.append(job(f"thorough fc n={n}", fc, n=n, i=4, o=3, b=3, length=2, cost=10))
            J.append(job(f"thorough fourier2d n={n}", conv, kind="fourier2d", n=n, ci=2, co=2, k=2, size=4, stride=2, pad=1, cost=10))
    return J
