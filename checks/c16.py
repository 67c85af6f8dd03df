"""C16: every sample of a batch is treated on its own."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .c10 import ref_rand
from .common import covering, pinned
from .ref import job

BOUNDS = ("every fully connected and convolution layer kind, normalisation, embedding, attention and network class; batches of 2..4, feature "
          "counts<=3, images<=3x3, orders n<=4, segments<=4, every pair of settings of the fully connected and "
          "convolution layers together, batches of 130 of every layer kind; symbolic parameters and inputs (networks with several segments: fixed parameters).")
OUTSIDE = "batch normalisation and dropout in training mode, which couple samples by design"


def layer_net(kind):
    from high_order_layers_torch import layers as LL
    from high_order_layers_torch import networks as NN

    return LL, NN


def fc(kind, n=3, S=2, i=2, o=2, **kw):
    def build():
        from high_order_layers_torch.layers import high_order_fc_layers

        return high_order_fc_layers(layer_type=kind, n=n, segments=S, in_features=i, out_features=o, **kw), (i,), S

    return build


def conv(kind, n=2, S=2, ci=1, co=2, k=2, size=2, **kw):
    def build():
        from high_order_layers_torch.layers import high_order_convolution_layers

        d = 2 if kind.endswith("2d") else 1
        return high_order_convolution_layers(layer_type=kind, n=n, segments=S, in_channels=ci, out_channels=co, kernel_size=k, **{"length": 2.0, **kw}), (ci,) + (size,) * d, S

    return build


def tconv(n=2, S=2, ci=2, co=1, k=2, size=2, **kw):
    def build():
        from high_order_layers_torch.layers import high_order_convolution_transpose_layers

        return high_order_convolution_transpose_layers(layer_type="continuous2d", n=n, segments=S, in_channels=ci, out_channels=co, kernel_size=k, **kw), (ci, size, size), S

    return build


def named(name, shape, S=1, **kw):
    def build():
        from high_order_layers_torch import layers as LL

        return getattr(LL, name)(**kw), shape, S

    return build


def network(name, shape, S=1, norm=None, **kw):
    def build():
        from high_order_layers_torch import layers as LL
        from high_order_layers_torch import networks as NN

        if norm:
            kw["normalization"] = getattr(LL, norm)
        return getattr(NN, name)(**kw), shape, S

    return build


def attention(name, shapes, **kw):
    def build():
        from high_order_layers_torch import attentions as AA

        return getattr(AA, name)(**kw), shapes, 1

    return build


def embedding(name, **kw):
    def build():
        from high_order_layers_torch import positional_embeddings as EE

        return getattr(EE, name)(**kw), (), 1

    return build


def nd(kind, n, S=None, dims=2, i=1, o=2):
    def build():
        from high_order_layers_torch.layers import high_order_fc_layers

        kw = {} if S is None else {"segments": list(S)}
        return high_order_fc_layers(layer_type=kind, n=list(n), in_features=i, out_features=o, **kw), (i, dims), 1

    return build


def switch(kind, norm=None, **kw):
    def build():
        from high_order_layers_torch import layers as LL

        nz = getattr(LL, norm)() if norm else None
        return LL.SwitchLayer(layer_type=kind, normalization=nz, **kw), (kw["in_features"],), kw.get("segments") or 1

    return build


def summed(kinds, n, S, i, o):
    def build():
        from high_order_layers_torch.layers import SumLayer, high_order_fc_layers

        return SumLayer(layer_list=[high_order_fc_layers(layer_type=k, n=n, segments=S, in_features=i, out_features=o) for k in kinds]), (i,), S

    return build


class Chain(torch.nn.Module):
    """Adapter: an attention that also takes masks or a missing alignment."""

    def __init__(self, m, fn):
        super().__init__()
        self.m, self.fn = m, fn

    def forward(self, *a):
        return self.fn(self.m, *a)


def adapted(name, shapes, fn, **kw):
    def build():
        from high_order_layers_torch import attentions as AA

        return Chain(getattr(AA, name)(**kw), fn), shapes, 1

    return build


def transformed(low, **kw):
    def build():
        from high_order_layers_torch import networks as NN

        return (NN.transform_low_mlp if low else NN.transform_mlp)(**kw), (kw["in_width"],), 1

    return build


def alone(h, build, b, free=((0, 0),), concrete=False, lo=None, hi=None, reach=F(1, 8), tol=F(1, 200), first=False, scale=1, rows=None, width=None, half=F(1), cells=None):
    """Row r of the result for a batch equals the result for row r alone."""
    L, shape, S = build()
    shape, S = shape if width is None else width, cells or S
    L.eval()
    for q, p in enumerate(L.parameters()):
        if concrete:
            h.assign(p, ref_rand(np.random.RandomState(11 * q + 3), tuple(p.shape)) * F(scale))
        else:
            h.set(p, f"w{q}", -1, 1)
    multi = len(shape) > 0 and isinstance(shape[0], tuple)
    ins = []
    for q, sh in enumerate(shape if multi else [shape]):
        full = (b,) + tuple(sh)
        if lo is not None:
            ins.append(h.elements(f"x{q}", full, lo, hi))
        else:
            flat = pinned(h, f"x{q}", (b, int(np.prod(sh, dtype=int)) if sh else 1), S, half=half, free=free, reach=reach)
            ins.append(flat.reshape(full))
    both = lambda r: tuple(r if isinstance(r, tuple) else (r,))[: 1 if first else None]
    y = both(L(*[h.tensor(a) for a in ins]))
    order = list(range(1, b)) + [0]
    yp = both(L(*[h.tensor(a[order].copy()) for a in ins]))
    for r in rows or range(b):
        yr = both(L(*[h.tensor(a[r : r + 1].copy()) for a in ins]))
        for k, (t, u, v) in enumerate(zip(y, yr, yp)):
            if t.shape[0] != b or u.shape[0] != 1:
                h.fail(f"output {k}: batch size {t.shape[0]} / {u.shape[0]}")
            h.close(t[r : r + 1], h.e(u), f"output {k}, sample {r} alone", tol=tol)
            h.close(v[order.index(r)], h.e(t[r]), f"output {k}, batch reordered", tol=tol)
    h.close(h.tensor(ins[0]), ins[0], "input unchanged")


def base(tier):
    J = []

    def add(name, build, b=2, cost=3, **k):
        J.append(job(name, alone, build=build, b=b, cost=cost, **k))

    for kind in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "polynomial", "polynomial_prod", "product", "fourier",
                 "baseline", "baseline_relu", "switch_continuous", "switch_discontinuous"):
        S = 3 if "continuous" in kind else 1
        add(f"{kind} b=2", fc(kind, S=S))
        add(f"{kind} b=3 last free", fc(kind, n=2, S=S, i=1, o=3), b=3, free=((2, 0),))
        if "continuous" in kind:
            add(f"{kind} b=4", fc(kind, n=2, S=4, i=3, o=1), b=4, free=((1, 2),))
        if "prod" in kind or kind in ("continuous", "discontinuous", "polynomial"):
            add(f"{kind} period", fc(kind, n=2, S=S, i=2, o=1, periodicity=2.0), b=2)
    for kind in ("continuous", "discontinuous", "polynomial", "fourier"):
        for d in ("1d", "2d"):
            S = 2 if "continuous" in kind else 1
            add(f"{kind}{d}", conv(kind + d, S=S), b=2)
            add(f"{kind}{d} b=3 stride", conv(kind + d, S=S, ci=2, co=1, k=2, size=3, stride=2, padding=1), b=3, free=((1, 3),))
    add("transpose", tconv(), b=2)
    add("transpose b=3", tconv(ci=1, stride=2), b=3, free=((2, 1),))
    for name in ("MaxAbsNormalization", "MaxAbsNormalizationLast", "MaxAbsNormalizationND", "MaxCenterNormalization", "MaxCenterNormalizationLast",
                 "MaxCenterNormalizationND", "L2Normalization"):
        add(f"{name}", named(name, (2,)), b=2, lo=F(-1), hi=F(1)) if name != "L2Normalization" else add(name, named(name, (2,)), b=2, lo=F(1, 4), hi=F(1))
        add(f"{name} images", named(name, (2, 2)), b=2, lo=F(1, 4), hi=1) if "ND" not in name else add(f"{name} images", named(name, (1, 2)), b=3, lo=F(1, 4), hi=1)
    add("layer norm", named("LazyLayerNormLastDim", (2,)), b=2, lo=F(1, 4), hi=1)
    for kind in ("continuous", "discontinuous", "polynomial"):
        add(f"MLP {kind}", network("HighOrderMLP", (2,), layer_type=kind, n=2, in_width=2, out_width=1, hidden_width=2, hidden_layers=1, in_segments=1, out_segments=1, hidden_segments=1), b=2)
        add(f"MLP {kind} segments", network("HighOrderMLP", (2,), S=2, layer_type=kind, n=2, in_width=2, out_width=1, hidden_width=2, hidden_layers=0, in_segments=2, out_segments=2), b=2, concrete=True, scale=F(1, 4), free=((1, 0),)) if kind != "polynomial" else None
    add("MLP norm resnet", network("HighOrderMLP", (1,), norm="MaxAbsNormalization", layer_type="continuous", n=2, in_width=1, out_width=1, hidden_width=2, hidden_layers=0, in_segments=1, out_segments=1), b=2, concrete=True, lo=F(1, 8), hi=F(1, 4))
    add("MLP resnet", network("HighOrderMLP", (1,), layer_type="continuous", n=2, in_width=1, out_width=1, hidden_width=1, hidden_layers=3, in_segments=1, out_segments=1, hidden_segments=1, resnet=True), b=2, concrete=True)
    add("MLP list", network("HighOrderMLPList", (2,), layer_type=["continuous", "polynomial"], n=[2, 3], width=[2, 2, 1], segments=[1, 1]), b=2)
    add("low order MLP", network("LowOrderMLP", (2,), norm="MaxAbsNormalization", in_width=2, out_width=2, hidden_layers=1, hidden_width=2, non_linearity=torch.nn.ReLU()), b=2, concrete=True)
    add("conv network 1d", network("HighOrderFullyConvolutionalNetwork", (1, 3), S=2, layer_type="continuous1d", n=[2, 2], channels=[1, 2, 1], segments=[2, 1], kernel_size=[2, 1], pooling="1d"), b=2, concrete=True, scale=F(1, 4))
    add("conv network 2d", network("HighOrderFullyConvolutionalNetwork", (1, 2, 2), layer_type="polynomial2d", n=[2, 3], channels=[1, 2, 1], segments=[1, 1], kernel_size=[2, 1], pooling="2d"), b=2)
    add("deconv network", network("HighOrderFullyDeconvolutionalNetwork", (2, 1, 1), layer_type="continuous2d", n=[2, 2], channels=[2, 1, 1], segments=[1, 1], kernel_size=[2, 1]), b=2, concrete=True, scale=F(1, 4))
    add("tail focus", network("HighOrderTailFocusNetwork", (1, 4), S=2, layer_type="continuous1d", n=[2, 2], channels=[1, 2, 1], segments=[2, 1], kernel_size=[2, 2], stride=[1, 1], focus=[2, 1]), b=2, concrete=True, scale=F(1, 4))
    add("scaled dot product", attention("ScaledDotProductAttention", ((2, 2), (2, 2), (2, 1)), dim=2), b=2, lo=-1, hi=1)
    add("dot product", attention("DotProductAttention", ((2, 2), (3, 2)), hidden_dim=2), b=2, lo=-1, hi=1)
    add("additive", attention("AdditiveAttention", ((1, 2), (2, 2), (2, 2)), hidden_dim=2), b=2, lo=-1, hi=1)
    add("multi head", attention("MultiHeadAttention", ((1, 2), (2, 2), (2, 2)), d_model=2, num_heads=2), b=2, lo=-1, hi=1, concrete=True, first=True)
    add("relative multi head", attention("RelativeMultiHeadAttention", ((2, 2), (2, 2), (2, 2), (2, 2)), d_model=2, num_heads=2), b=2, lo=-1, hi=1, concrete=True)
    add("sinusoidal embedding", embedding("ClassicSinusoidalEmbedding", dim=4), b=3, lo=0, hi=20)
    if tier == "thorough":
        for kind in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod"):
            for n in (2, 3, 4):
                for f in ((0, 0), (2, 1), (3, 2)):
                    add(f"thorough {kind} n={n} free={f}", fc(kind, n=n, S=5, i=3, o=3), b=4, free=(f,), cost=20)
    return J


def location(m, q, v, a):
    """CustomizingAttention takes the previous alignment head by head."""
    return m(q, v, a.permute(1, 0, 2).reshape(-1, a.shape[-1]))


def jobs(tier):
    J = base(tier)
    T = tier == "thorough"

    def add(name, build, b=2, cost=3, **k):
        J.append(job(name, alone, build=build, b=b, cost=cost, **k))

    for b, kind, n, S in ((2, "polynomial_2d", (2, 3), None), (3, "polynomial_3d", (2, 1, 2), None), (2, "continuous_nd", (2, 2), (2, 1)), (3, "continuous_nd", (2, 3), (1, 3))):
        add(f"{kind} {n} {S} b={b}", nd(kind, n, S, dims=len(n), i=2 if b == 2 else 1), b=b, lo=F(1, 8), hi=F(1, 2))
    for kind in ("continuous", "discontinuous", "polynomial", "baseline"):
        add(f"switch {kind}", switch(kind, n=2, in_features=2, out_features=2, segments=2, num_input_layers=3))
    add("switch with normalisation", switch("continuous", norm="MaxAbsNormalizationLast", n=2, in_features=1, out_features=2, segments=1), concrete=True, b=2)
    add("sum", summed(("continuous", "baseline", "polynomial", "discontinuous"), 3, 2, 2, 2), b=3)
    for sm in (True, False):
        add(f"location smoothing={sm}", attention("LocationAwareAttention", ((1, 2), (2, 2), (2,)), hidden_dim=2, smoothing=sm), lo=0, hi=1)
        add(f"location smoothing={sm} first step", adapted("LocationAwareAttention", ((1, 1), (3, 1)), lambda m, q, v: m(q, v, None), hidden_dim=1, smoothing=sm), lo=-1, hi=1, b=3)
    add("multi location", attention("MultiHeadLocationAwareAttention", ((1, 2), (2, 2), (2, 2)), hidden_dim=2, num_heads=2, conv_out_channel=2), lo=0, hi=1, concrete=True, first=True)
    add("multi location first step", adapted("MultiHeadLocationAwareAttention", ((1, 2), (2, 2)), lambda m, q, v: m(q, v, None), hidden_dim=2, num_heads=1, conv_out_channel=2), lo=-1, hi=1, concrete=True, first=True, b=3)
    add("customizing", adapted("CustomizingAttention", ((2, 2), (2, 2), (2, 2)), location, hidden_dim=2, num_heads=2, conv_out_channel=1), lo=0, hi=1, concrete=True, first=True)
    add("customizing first step", adapted("CustomizingAttention", ((1, 2), (2, 2)), lambda m, q, v: m(q, v, None), hidden_dim=2, num_heads=2, conv_out_channel=1), lo=-1, hi=1, concrete=True, first=True, b=3)
    add("relative b=3", attention("RelativeMultiHeadAttention", ((2, 2), (2, 2), (2, 2), (2, 2)), d_model=2, num_heads=1), b=3, lo=-1, hi=1, concrete=True)
    add("multi network", network("HighOrderMultiMLP", (2,), layer_type="continuous", n=2, in_width=2, out_width=1, hidden_width=2, hidden_layers=1, in_segments=1, out_segments=1, hidden_segments=1, replicas=2),
        lo=-1, hi=1, concrete=True)
    add("transformed network", transformed(False, layer_type="polynomial", n=2, n_in=None, n_hidden=None, n_out=None, in_width=2, hidden_width=1, out_width=1, in_segments=1, hidden_segments=1,
                                           out_segments=1, hidden_layers=0, rotations=2, periodicity=None), lo=F(1, 8), hi=F(1, 4), concrete=True)
    add("transformed low order network", transformed(True, in_width=2, hidden_width=2, out_width=1, hidden_layers=1, non_linearity=torch.nn.Tanh(), normalization=None, rotations=2), lo=F(1, 8), hi=F(1, 4), concrete=True)
    add("fourier embedding", embedding("FourierSeriesEmbedding", n=3, in_features=1, out_features=2), b=3, lo=-2, hi=2, width=(1,))
    add("continuous embedding", embedding("PiecewisePolynomialEmbedding", n=3, in_features=1, out_features=2, segments=2), b=2, lo=-1, hi=1, width=(1,))
    add("discontinuous embedding", embedding("PiecewiseDiscontinuousPolynomialEmbedding", n=3, in_features=1, out_features=2, segments=2), b=2, lo=-1, hi=1, width=(1,))
    for q, c in enumerate(covering(3 if T else 2, lambda kind, n, i, **k: not ("prod" in kind and n * i > 6), kind=("continuous", "discontinuous", "continuous_prod", "discontinuous_prod"), n=(2, 3, 5), S=(1, 2, 5), i=(1, 2, 3), o=(1, 2, 4),
                                   b=(2, 3, 5), length=(None, 1, 4), per=(None, 2, "length"))):
        length, per, b = c.pop("length"), c.pop("per"), c.pop("b")
        kw = {"length": float(length)} if length else {}
        if per:
            kw["periodicity"] = float((length or 2) if per == "length" else per)
        half = F(length or 2) / 2
        if per and F(kw["periodicity"]) < 2 * half:
            half, cells = F(kw["periodicity"]) / 2, c["S"] * int(2 * half / F(kw["periodicity"]))
        else:
            cells = c["S"]
        add(f"fc settings {q}: {c} {kw} b={b}", fc(**c, **kw), b=b, free=((q % b, q % c["i"]),), half=half, cells=cells)
    for q, c in enumerate(covering(3 if T else 2, lambda k, dilation, size, **_: (k - 1) * dilation < size, kind=("continuous", "discontinuous", "polynomial", "fourier", "transpose"), d=("1d", "2d"), n=(2, 3), S=(1, 2, 3), ci=(1, 2), co=(1, 2),
                                   k=(1, 2), size=(2, 3), stride=(1, 2), padding=(0, 1), dilation=(1, 2), rescale_output=(False, True), periodicity=(None, 2.0), length=(2.0, 4.0), b=(2, 3))):
        kind, d, b = c.pop("kind"), c.pop("d"), c.pop("b")
        if kind == "fourier":
            c.pop("periodicity")
        if kind in ("fourier", "polynomial"):
            c["S"] = 1
        add(f"conv settings {q}: {kind}{d} {c} b={b}", tconv(**c) if kind == "transpose" else conv(kind + d, **c), b=b, free=((q % b, 0),), half=F(1 if c.get("periodicity") else c["length"] / 2), cells=c["S"] * (2 if c.get("periodicity") and c["length"] == 4 else 1))
    # batches large enough for any blocking
    rows = (0, 1, 31, 32, 63, 64, 65, 127, 128, 129)
    for kind in ("continuous", "discontinuous", "polynomial", "product", "continuous_prod", "fourier", "baseline"):
        add(f"{kind} b=130", fc(kind, n=2, S=2 if "continuous" in kind else 1, i=1, o=1), b=130, free=((70, 0),), rows=rows, cost=9)
    for kind in ("continuous1d", "discontinuous2d", "polynomial2d"):
        add(f"{kind} b=130", conv(kind, n=2, S=1 if kind[0] == "p" else 2, k=1, size=1, co=1), b=130, free=((70, 0),), rows=rows, cost=9)
    add("transpose b=130", tconv(n=2, S=2, ci=1, k=1, size=1), b=130, free=((70, 0),), rows=rows, cost=9)
    return J
