"""C14: mirror periodicity: inputs are folded back into one period by reflection
at its ends, for every distance from the origin."""
from fractions import Fraction as F

import numpy as np
import torch

from engine import alg

from . import ref
from .common import covering
from .c11 import fold
from .ref import job

BOUNDS = ("make_periodic: real inputs within 3 periods of the origin plus a symbolic whole number of double periods in [-1000,1000], periods "
          "{1/2,1,2,3,25/16,10}, tensors up to 3 dimensions; layers: every fully connected kind that takes a period, orders n<=4, segments<=4, "
          "lengths {1,2,4}, coefficients in [-1,1], any symbolic number of double periods up to 1000, every pair of "
          "settings together; 1d, 2d and transposed convolutions (also C11, C12).")
OUTSIDE = "inputs so large that float32 no longer separates neighbouring positions of a period"


def value(h, per, shape=(1,), reach=3):
    """Equals the reflection of the input into [-P/2, P/2]."""
    from high_order_layers_torch.utils import make_periodic

    P = F(per)
    x = h.real("x", shape, -P * reach, P * reach)
    y = make_periodic(x, float(P))
    h.same_shape(y, shape, "folded")
    xa = h.e(x)
    exp = ref.obj(shape)
    for ix in np.ndindex(*shape):
        exp[ix] = fold(xa[ix], P)
    h.close(y, exp, "mirror image")
    h.le(y, P / 2, "inside the period", slack=F(1, 1000))
    h.le(-h.e(y), P / 2, "inside the period", slack=F(1, 1000))


def shifts(h, per):
    """Period 2P and mirror symmetry about both ends, any number of periods away."""
    from high_order_layers_torch.utils import make_periodic

    P = F(per)
    k = h.integer("k", -1000, 1000)
    x = h.scalar("x", -P, P)
    t = lambda v: h.e(make_periodic(h.tensor(np.array([v], dtype=object), torch.float64), float(P)))
    y = t(x)
    h.close(t(x + 2 * P * k), y, "period 2P", tol=F(1, 100))
    h.close(t(P - x + 2 * P * k), y, "mirrored at the upper end", tol=F(1, 100))
    h.close(t(-P - x - 2 * P * k), y, "mirrored at the lower end", tol=F(1, 100))


def layer(h, kind, n, S, i, o, per, length=2, b=1, wide=0, default=False):
    """A periodic layer is the same layer without a period at the folded input."""
    from high_order_layers_torch.layers import high_order_fc_layers

    def make(p):
        kw = {} if default and p is None else {"periodicity": p}
        L = high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, length=float(length), **kw)
        for q, w in enumerate(L.parameters()):
            h.set(w, f"w{q}", -1, 1)
        return L

    P = F(per)
    A, B = make(float(P)), make(None)
    xa = ref.obj((b, i))
    wid = min(F(length) / S, P / 8)
    for q, ix in enumerate(np.ndindex(b, i)):
        # one input over several periods, the others inside one segment near different periods
        at = P * ((5 * q) % 7 - 3) + F(1, 4) * wid
        xa[ix] = h.scalar(f"x_{q}", -P * F(9, 4), P * F(9, 4)) if q == wide % (b * i) else h.scalar(f"x_{q}", at, at + wid / 4)
    xf = ref.obj((b, i))
    for ix in np.ndindex(b, i):
        xf[ix] = fold(xa[ix], P)
    h.close(A(h.tensor(xa)), h.e(B(h.tensor(xf))), "periodic layer", tol=F(1, 200))


def far(h, kind, n, S, per, length=2):
    """A whole number of double periods away the output is the same."""
    from high_order_layers_torch.layers import high_order_fc_layers

    L = high_order_fc_layers(layer_type=kind, n=n, in_features=1, out_features=1, segments=S, length=float(length), periodicity=float(per))
    for q, w in enumerate(L.parameters()):
        h.set(w, f"w{q}", -1, 1)
    P = F(per)
    k = h.integer("k", -64, 64)
    x = h.scalar("x", -P * F(1, 3), P * F(1, 4))
    t = lambda v: h.e(L(h.tensor(np.array([[v]], dtype=object))))
    y = t(x)
    h.close(t(x + 2 * P * k), y, "shifted by double periods", tol=F(1, 50))
    h.close(t(P - x + 2 * P * k), y, "mirrored", tol=F(1, 50))


def image(h, kind, n, S, per, length=2, **kw):
    """A periodic convolution is the same convolution without a period at the folded pixels."""
    from high_order_layers_torch import layers as LL

    def make(p):
        if kind == "transpose":
            L = LL.high_order_convolution_transpose_layers(layer_type="continuous2d", n=n, in_channels=1, out_channels=1, kernel_size=2, segments=S, length=float(length), periodicity=p, **kw)
        else:
            L = LL.high_order_convolution_layers(layer_type=kind, n=n, in_channels=1, out_channels=1, kernel_size=2, segments=S, length=float(length), periodicity=p, **kw)
        for q, w in enumerate(L.parameters()):
            h.set(w, f"w{q}", -1, 1)
        return L

    P = F(per)
    A, B = make(float(P)), make(None)
    shape = (1, 1, 2, 2) if not kind.endswith("1d") else (1, 1, 3)
    xa, xf = ref.obj(shape), ref.obj(shape)
    wid = min(F(length) / S, P / 8)
    for q, ix in enumerate(np.ndindex(*shape)):
        at = P * ((5 * q) % 7 - 3) + F(1, 4) * wid
        xa[ix] = h.scalar(f"x_{q}", -P * F(9, 4), P * F(9, 4)) if q == 1 else h.scalar(f"x_{q}", at, at + wid / 4)
        xf[ix] = fold(xa[ix], P)
    h.close(A(h.tensor(xa)), h.e(B(h.tensor(xf))), "periodic convolution", tol=F(1, 200))


def jobs(tier):
    J = []
    for per in (F(1, 2), 1, 2, 3, F(25, 16), 10):
        J.append(job(f"value P={per}", value, per=per))
        J.append(job(f"shifts P={per}", shifts, per=per))
    J.append(job("value 2d", value, per=2, shape=(1, 2), reach=1))
    J.append(job("value 3d", value, per=1, shape=(1, 1, 2), reach=1))
    kinds = ["continuous", "continuous_prod", "discontinuous", "discontinuous_prod", "polynomial", "polynomial_prod", "product"]
    for kind in kinds:
        pw = "continuous" in kind
        for n, S, i, o, per, Ln in [(2, 2, 1, 1, 2, 2), (3, 2, 2, 1, 1, 2), (2, 3, 1, 2, 2, 4), (4, 1, 1, 1, 1, 1), (2, 4, 1, 1, 3, 2)]:
            if not pw and S > 2:
                continue
            J.append(job(f"{kind} n={n} S={S} {i}->{o} P={per} length={Ln}", layer, cost=3, kind=kind, n=n, S=S, i=i, o=o, per=per, length=Ln))
    J.append(job("value 0d", value, per=2, shape=(), reach=2))
    J.append(job("value 4d", value, per=3, shape=(1, 2, 1, 1), reach=1))
    for kind in kinds:
        J.append(job(f"far {kind}", far, cost=3, kind=kind, n=2, S=2 if "continuous" in kind else 1, per=2))
    J.append(job("far length 4 period 1", far, cost=3, kind="continuous", n=2, S=3, per=1, length=4))
    ok = lambda kind, n, S, i, b, o, **k: ("continuous" in kind or S == 1) and not ("prod" in kind and n * i > 6) and n * i * b * o <= 24
    for q, c in enumerate(covering(3 if tier == "thorough" else 2, ok, kind=kinds, n=(2, 3, 5), S=(2, 1, 3, 4), i=(1, 2, 3), o=(1, 2), per=(2, 1, 3, F(1, 2)), length=(2, 1, 4), b=(1, 2), wide=(0, 1, 2), default=(False, True))):
        J.append(job(f"settings {q}: {c}", layer, cost=4, **c))
    for q, c in enumerate(covering(2, lambda kind, S, **k: "continuous" in kind or kind == "transpose" or S == 1, kind=["continuous1d", "continuous2d", "discontinuous1d", "discontinuous2d", "polynomial1d", "polynomial2d", "transpose"],
                                   n=(2, 3), S=(2, 1, 3), per=(2, 1, 3), length=(2, 4), padding=(0, 1), rescale_output=(False, True))):
        J.append(job(f"convolution {q}: {c}", image, cost=4, **c))
    if tier == "thorough":
        for kind in kinds:
            for n in (2, 3, 4, 5):
                for S in (1, 2, 3, 5):
                    for per in (1, 2):
                        J.append(job(f"thorough {kind} n={n} S={S} P={per}", layer, cost=10, kind=kind, n=n, S=S, i=2, o=2, per=per))
    return J
