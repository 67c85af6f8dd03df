"""Compositional checking of networks: every elementary layer is a cut point.

While the network runs, each call of an elementary layer is recorded and its
output replaced by fresh solver variables.  What a layer computes is compared
with the reference of its kind; what it is given is compared with the reference
composition of the previous outputs.  Both hold for every value of the fresh
variables, so the composition is the documented one for every parameter and
input (assume/guarantee at the cut points)."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .c11 import fold
from .c13 import series
from .c15 import expected as normref
from .common import pinned


class Cut:
    """Records (module, input elements, output elements) per call."""

    def __init__(self, h, net, S=1, half=F(1), free=None, kinds=None, cutting=True, cells=None, inputs=False):
        from high_order_layers_torch.PolynomialLayers import Function, Piecewise, PiecewiseDiscontinuous
        from high_order_layers_torch.ProductLayer import Product

        self.h, self.S, self.half, self.free = h, cells or S, half, free
        self.calls = []
        self.args = []
        self.inputs = inputs
        self.handles = []
        kinds = kinds or (Function, Piecewise, PiecewiseDiscontinuous, Product, torch.nn.Linear)
        seen = set()
        for m in net.modules():
            if isinstance(m, kinds) and id(m) not in seen:
                seen.add(id(m))
                self.wrap(m)
        self.cutting = cutting

    def wrap(self, m):
        """Every evaluation of m passes through hook, however it is called."""
        inner = m.forward

        def forward(x, *a, **k):
            arg = self.argument(x)
            out = inner(arg, *a, **k)
            self.args.append(self.h.e(arg).copy())
            new = self.hook(m, (x,), out)
            return out if new is None else new

        m.forward = forward
        self.handles.append(m)

    def argument(self, x):
        """With `inputs`, what a layer is given is a cut point as well."""
        if not (self.inputs and self.cutting):
            return x
        k = len(self.calls)
        shape = tuple(x.shape)
        free = ((0,) * len(shape),) if self.free is not None and self.free + 1 == k else ()
        return self.h.tensor(pinned(self.h, f"arg{k}", shape, self.S, self.half, free, F(1, 8), pick=k), x.dtype)

    def hook(self, mod, args, out):
        h = self.h
        k = len(self.calls)
        shape = tuple(out.shape)
        xin = h.e(args[0]).copy()
        yout = h.e(out).copy()
        if not self.cutting:
            self.calls.append((mod, xin, yout, yout))
            return None
        free = ((0,) * len(shape),) if self.free == k else ()
        new = pinned(h, f"cut{k}", shape, self.S, self.half, free, F(1, 8), pick=k)
        self.calls.append((mod, xin, yout, new))
        return h.tensor(new, out.dtype)

    def close(self):
        for m in self.handles:
            del m.forward


def fill(h, net, tag="w", lo=-1, hi=1):
    for q, p in enumerate(net.parameters()):
        h.set(p, f"{tag}{q}", lo, hi)


def registered(h, net, mods):
    ids = {id(p) for p in net.parameters()}
    for m in mods:
        if not all(id(p) in ids for p in m.parameters()):
            h.fail(f"coefficients of a {type(m).__name__} are not parameters of the network")
    h.true([True], "all coefficients are parameters of the network")


def coeffs(h, mod, kind, n, S, i, o):
    """The coefficient tensor of an elementary layer, its size checked."""
    if kind in ("linear", "product"):
        w = [p for p in mod.parameters() if p.ndim == 2]
        if len(w) != 1:
            h.fail(f"{len(w)} weight matrices")
        h.same_shape(w[0], (o, i), "weights")
        b = [p for p in mod.parameters() if p.ndim == 1]
        return h.e(w[0]), (h.e(b[0]) if b else None)
    w = [p for p in mod.parameters() if p.ndim == 3]
    if len(w) != 1:
        h.fail(f"{len(w)} coefficient tensors")
    N = {"continuous": (n - 1) * S + 1, "discontinuous": n * S}.get(kind.replace("_prod", ""), n)
    h.same_shape(w[0], (o, i, N), f"coefficients of a {kind} layer with n={n}, segments={S}")
    return h.e(w[0]), None


def layer_ref(h, mod, kind, n, S, i, o, xa, half=F(1), per=None):
    """Reference output of one elementary layer at the input elements xa [b, i]."""
    w, bias = coeffs(h, mod, kind, n, S, i, o)
    if tuple(xa.shape[1:]) != (i,):
        h.fail(f"layer input has shape {xa.shape}, expected (*, {i})")
    multiply = kind.endswith("_prod") or kind == "product"
    out = ref.obj((xa.shape[0], o))
    for b in range(xa.shape[0]):
        for q in range(o):
            acc, prod = F(0), F(1)
            for k in range(i):
                x = xa[b, k]
                if per is not None and kind != "fourier":
                    x = fold(x, per)
                if kind in ("linear", "product"):
                    f = w[q, k] * x
                elif kind.startswith("polynomial"):
                    f = ref.poly(w[q, k], n, x, half)
                elif kind == "fourier":
                    f = series(w[q, k], n, x, 2 * half)
                else:
                    f = ref.piecewise(w[q, k], n, S, x, half, kind.startswith("continuous"))
                acc = acc + f
                if multiply:
                    prod = prod * (1 + f)
            if multiply:
                acc = prod - 1
            if bias is not None:
                acc = acc + bias[q]
            out[b, q] = acc
    return out


def relu(a):
    out = ref.obj(a.shape)
    for ix in np.ndindex(*a.shape):
        out[ix] = F(0) if a[ix] < 0 else a[ix]
    return out


def after(a, norm, act):
    """normalisation, then nonlinearity"""
    if norm is not None:
        a = normref(norm, a, 1, F(1, 10**6))
    if act:
        a = relu(a)
    return a


NORMS = {"max_abs": "MaxAbsNormalization", "max_center": "MaxCenterNormalization", "l2": "L2Normalization"}


def norm_class(norm):
    from high_order_layers_torch import layers as LL

    return None if norm is None else getattr(LL, NORMS[norm])


# -- convolutions --------------------------------------------------------------------
def conv_kinds():
    from high_order_layers_torch import FunctionalConvolution as FC
    from high_order_layers_torch import FunctionalConvolutionTranspose as FT

    return (FC.FourierConvolution, FC.PolynomialConvolution, FC.PiecewisePolynomialConvolution,
            FC.PiecewiseDiscontinuousPolynomialConvolution, FT.PiecewisePolynomialConvolutionTranspose)


def folded(xa, per):
    if per is None:
        return xa
    out = ref.obj(xa.shape)
    for q in np.ndindex(*xa.shape):
        out[q] = fold(xa[q], per)
    return out


def conv_ref(h, mod, kind, n, S, ci, co, k, stride, pad, xa, per=None, rescale=False):
    from .c11 import link, window

    N, f = link(kind, n, S, F(1))
    if kind.startswith("fourier"):
        N, f = n, lambda w, x: series(w, n, x, 2)
        per = None
    nd = 2 if kind.endswith("2d") else 1
    ps = [p for p in mod.parameters()]
    if len(ps) != 1:
        h.fail(f"{len(ps)} parameters")
    h.same_shape(ps[0], (co, ci * N) + (k,) * nd, f"coefficients of a {kind} layer with n={n}, segments={S}, kernel {k}")
    if xa.ndim != nd + 2 or xa.shape[1] != ci:
        h.fail(f"layer input has shape {xa.shape}")
    return window(h, h.e(ps[0]), folded(xa, per), N, f, k, stride, pad, 1, F(1, ci * k**nd) if rescale else F(1))


def tconv_ref(h, mod, n, S, ci, co, k, stride, pad, xa, per=None, rescale=False):
    from .c11 import link

    N, f = link("continuous2d", n, S, F(1))
    ps = [p for p in mod.parameters()]
    if len(ps) != 1:
        h.fail(f"{len(ps)} parameters")
    h.same_shape(ps[0], (ci * N, co, k, k), f"coefficients of a transposed layer with n={n}, segments={S}, kernel {k}")
    if xa.ndim != 4 or xa.shape[1] != ci:
        h.fail(f"layer input has shape {xa.shape}")
    w, xf = h.e(ps[0]), folded(xa, per)
    dims = xa.shape[2:]
    od = tuple((d - 1) * stride - 2 * pad + k for d in dims)
    exp = ref.obj((xa.shape[0], co) + od)
    for ix in np.ndindex(*exp.shape):
        exp[ix] = F(0)
    scale = F(1, ci * k * k) if rescale else F(1)
    for ix in np.ndindex(*xa.shape):
        b, c, q = ix[0], ix[1], ix[2:]
        for d in np.ndindex(k, k):
            p = (q[0] * stride + d[0] - pad, q[1] * stride + d[1] - pad)
            if 0 <= p[0] < od[0] and 0 <= p[1] < od[1]:
                for o in range(co):
                    exp[(b, o) + p] = exp[(b, o) + p] + scale * f(w[(slice(c * N, (c + 1) * N), o) + d], xf[ix])
    return exp


class Mark(torch.nn.Module):
    """Stand-in for a normalisation: one trainable factor per channel."""

    made = []

    def __init__(self, channels):
        super().__init__()
        self.weight = torch.nn.Parameter(torch.ones(channels))
        Mark.made.append(self)

    def forward(self, x):
        return x * self.weight.view((1, -1) + (1,) * (x.ndim - 2))


def marked(h, mark, a):
    w = h.e(mark.weight)
    if len(w) != a.shape[1]:
        h.fail(f"normalisation built for {len(w)} channels, used on {a.shape[1]}")
    out = ref.obj(a.shape)
    for ix in np.ndindex(*a.shape):
        out[ix] = a[ix] * w[ix[1]]
    return out
