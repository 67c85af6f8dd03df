"""C23: convolutional networks are the documented chain of convolutions; the tail
focus network collects the tail of every level, and announces its sizes."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering, pinned
from .netlib import Cut, Mark, conv_kinds, conv_ref, fill, marked, registered, tconv_ref
from .ref import job

BOUNDS = ("fully convolutional (1d, 2d), deconvolutional (2d) and tail focus (1d) networks: 1..3 layers, channels<=3, orders n<=3, segments<=3, kernels<=3, strides<=3 "
          "and padding<=2 chosen per layer (scalars or lists), images up to 5x5 / length 9, batch<=2, focus 1..12; every convolution is a cut point with symbolic coefficients; "
          "compute_sizes: every input length up to 2000 (symbolic integer).")
OUTSIDE = "3d pooling (there is no 3d layer), focus=0 or None"
TOL = F(1, 200)


def at(v, k):
    return v[k] if isinstance(v, (list, tuple)) else v


def run(h, net, shape, S, free):
    net.eval()
    fill(h, net)
    xa = pinned(h, "x", shape, S, F(1), ((0,) * len(shape),) if free is None else (), F(1, 8), pick=3)
    c = Cut(h, net, S=S, free=free, kinds=conv_kinds(), inputs=bool(Mark.made))
    y = net(h.tensor(xa))
    c.close()
    return xa, c, y


def chain(h, c, layers, xa, marks, per, rescale, transpose=False):
    """Checks the calls; returns the value after every layer."""
    if len(c.calls) != len(layers):
        h.fail(f"{len(c.calls)} layers were evaluated, expected {len(layers)}")
    cur = xa
    vals = []
    for k, (kind, n, S, ci, co, ks, st, pad) in enumerate(layers):
        mod, xin, yout, new = c.calls[k]
        h.close(xin, cur, f"input of layer {k}", tol=TOL)
        if transpose:
            exp = tconv_ref(h, mod, n, S, ci, co, ks, st, pad, c.args[k], per, rescale)
        else:
            exp = conv_ref(h, mod, kind, n, S, ci, co, ks, st, pad, c.args[k], per, rescale)
        h.close(yout, exp, f"output of layer {k}", tol=TOL)
        cur = marked(h, marks[k], new) if marks else new
        vals.append(cur)
    return vals


def build(cls, kind, n, channels, S, kernel, stride, pad, norm, per=None, rescale=False, **kw):
    from high_order_layers_torch import networks as NN

    Mark.made = []
    if stride is not None:
        kw["stride"] = stride
    if pad:
        kw["padding"] = pad
    if norm:
        kw["normalization"] = Mark
    if per:
        kw["periodicity"] = per
    if rescale:
        kw["rescale_output"] = True
    return getattr(NN, cls)(layer_type=kind, n=n, channels=channels, segments=S, kernel_size=kernel, **kw)


def layers_of(kind, n, channels, S, kernel, stride, pad):
    return [(at(kind, k), at(n, k), at(S, k), channels[k], channels[k + 1], kernel[k], 1 if stride is None else at(stride, k), pad)
            for k in range(len(kernel))]


def top(S):
    return max(S) if isinstance(S, (list, tuple)) else S


def conv(h, kind, n, channels, S, kernel, size, stride=None, pad=0, norm=False, pooling=None, b=1, free=None, per=None, rescale=False):
    kw = {"pooling": pooling} if pooling else {}
    net = build("HighOrderFullyConvolutionalNetwork", kind, n, channels, S, kernel, stride, pad, norm, per, rescale, **kw)
    marks = list(Mark.made)
    two = at(kind, 0).endswith("2d")
    shape = (b, channels[0]) + ((size, size) if two else (size,))
    xa, c, y = run(h, net, shape, top(S), free)
    vals = chain(h, c, layers_of(kind, n, channels, S, kernel, stride, pad), xa, marks, per, rescale)
    z = vals[-1]
    if pooling in (None, "1d", "2d"):
        exp = ref.obj((b, channels[-1]))
        for ix in np.ndindex(b, channels[-1]):
            tot, cnt = F(0), 0
            for v in z[ix].flat:
                tot, cnt = tot + v, cnt + 1
            exp[ix] = tot * F(1, cnt)
        if net.output_size != channels[-1]:
            h.fail(f"output_size is {net.output_size}")
    else:
        exp = z.reshape(b, -1)
    h.same_shape(y, exp.shape, "output")
    h.close(y, exp, "pooled and flattened output", tol=TOL)
    registered(h, net, [k[0] for k in c.calls] + marks)


def deconv(h, n, channels, S, kernel, size, stride=None, pad=0, norm=False, b=1, free=None, per=None, rescale=False, kind="continuous2d"):
    net = build("HighOrderFullyDeconvolutionalNetwork", kind, n, channels, S, kernel, stride, pad, norm, per, rescale)
    marks = list(Mark.made)
    xa, c, y = run(h, net, (b, channels[0], size, size), top(S), free)
    vals = chain(h, c, layers_of(kind, n, channels, S, kernel, stride, pad), xa, marks, per, rescale, transpose=True)
    h.same_shape(y, vals[-1].shape, "output")
    h.close(y, vals[-1], "output", tol=TOL)
    if net.in_channels != channels[0]:
        h.fail(f"in_channels is {net.in_channels}")
    registered(h, net, [k[0] for k in c.calls] + marks)


def tail(h, kind, n, channels, S, kernel, size, focus, stride=None, pad=0, norm=False, b=1, free=None, per=None, rescale=False):
    net = build("HighOrderTailFocusNetwork", kind, n, channels, S, kernel, stride, pad, norm, per, rescale, focus=focus)
    marks = list(Mark.made)
    xa, c, y = run(h, net, (b, channels[0], size), top(S), free)
    vals = chain(h, c, layers_of(kind, n, channels, S, kernel, stride, pad), xa, marks, per, rescale)
    parts = []
    for k, v in enumerate([xa] + vals[:-1]):
        f = at(focus, k)
        parts.append(v[:, :, max(0, v.shape[2] - f) :].reshape(b, -1))
    parts.append(vals[-1].reshape(b, -1))
    h.same_shape(y, (b, sum(p.shape[1] for p in parts)), "output")
    h.close(y, np.concatenate(parts, axis=1), "tails of every level, then the whole last level", tol=TOL)
    widths, sizes = net.compute_sizes(size)
    if list(widths) != [v.shape[2] for v in [xa] + vals]:
        h.fail(f"compute_sizes widths {widths}")
    if list(sizes) != [p.shape[1] for p in parts]:
        h.fail(f"compute_sizes output sizes {sizes}")
    registered(h, net, [k[0] for k in c.calls] + marks)


def sizes(h, channels, kernel, focus, stride, pad, top=2000):
    """compute_sizes for every input length: the sizes of the convolutions and tails."""
    L = len(kernel)
    net = build("HighOrderTailFocusNetwork", "polynomial1d", 2, channels, 1, kernel, stride, pad, False, focus=focus)
    low = 1
    for k in range(L - 1, -1, -1):
        low = max(1, (low - 1) * (1 if stride is None else stride[k]) + kernel[k] - 2 * pad)
    size = h.integer("size", low, top)
    widths, outs = net.compute_sizes(size)
    # w' is the number of window positions: the largest m with (m - 1) stride + kernel <= w + 2 padding
    if len(widths) != L + 1 or len(outs) != L + 1:
        h.fail(f"compute_sizes gives {len(widths)} widths and {len(outs)} sizes")
    h.true([widths[0] == size], "first width")
    for k in range(L):
        s, m, w = 1 if stride is None else stride[k], widths[k + 1], widths[k] + 2 * pad
        h.true([(m - 1) * s + kernel[k] <= w, m * s + kernel[k] > w], f"width {k + 1}")
        keep = widths[k] if widths[k] < focus[k] else focus[k]
        h.true([outs[k] == keep * channels[k]], f"tail size {k}")
    h.true([outs[L] == widths[L] * channels[L]], "size of the last level")


def refuses(h, cls, what, ok=False):
    from high_order_layers_torch import networks as NN

    kw = dict(layer_type=["continuous1d" if "Tail" in cls else "continuous2d"] * 2, n=[2, 2], channels=[1, 2, 1], segments=[1, 1], kernel_size=[1, 1])
    if "Tail" in cls:
        kw["focus"] = [1, 1]
    kw.update(what)
    refused = False
    try:
        getattr(NN, cls)(**kw)
    except ValueError:
        refused = True
    h.true([refused != ok], f"{cls} with {what}: {'accepted' if ok else 'refused'}")


def jobs(tier):
    J = []
    A = lambda name, fn, **k: J.append(job(name, fn, cost=4, **k))
    C, D, T = "continuous2d", "discontinuous2d", "continuous1d"
    A("conv 2d", conv, kind=[C, D], n=[2, 3], channels=[1, 2, 1], S=[2, 1], kernel=[2, 1], size=3)
    A("conv 2d free second", conv, kind=[C, D], n=[3, 2], channels=[2, 1, 2], S=[1, 3], kernel=[1, 2], size=3, free=0)
    A("conv 2d scalars", conv, kind=C, n=2, channels=[1, 2, 1], S=2, kernel=[2, 1], size=3, stride=2)
    A("conv 2d strides", conv, kind=C, n=2, channels=[1, 1, 2], S=1, kernel=[2, 1], size=5, stride=[1, 2])
    A("conv 2d padding", conv, kind="polynomial2d", n=2, channels=[1, 1], S=1, kernel=[3], size=3, pad=1)
    A("conv 2d padding twice", conv, kind=C, n=2, channels=[1, 1, 1], S=[2, 1], kernel=[2, 1], size=2, pad=1)
    A("conv 2d norm", conv, kind=[C, C], n=2, channels=[1, 3, 2], S=1, kernel=[1, 2], size=2, norm=True)
    A("conv 2d period", conv, kind=[C], n=2, channels=[1, 2], S=2, kernel=[2], size=2, per=2.0)
    A("conv 2d rescale", conv, kind=[C, D], n=2, channels=[2, 1, 1], S=[1, 1], kernel=[2, 1], size=3, rescale=True)
    A("conv 2d batch", conv, kind=[C], n=2, channels=[1, 2], S=2, kernel=[2], size=2, b=2)
    A("conv 2d three layers", conv, kind=[C, "polynomial2d", D], n=[2, 3, 2], channels=[1, 2, 1, 2], S=[1, 1, 2], kernel=[2, 1, 2], size=3, free=1)
    A("conv 2d not pooled", conv, kind=[C], n=2, channels=[1, 2], S=2, kernel=[2], size=3, pooling="none")
    A("conv 1d", conv, kind=[T, "discontinuous1d"], n=[3, 2], channels=[2, 1, 2], S=[2, 3], kernel=[3, 2], size=6, pooling="1d", stride=[2, 1])
    A("conv 1d fourier", conv, kind=["fourier1d", "polynomial1d"], n=[3, 2], channels=[1, 2, 1], S=1, kernel=[2, 2], size=4, pooling="1d")
    A("conv 2d fourier", conv, kind=["fourier2d"], n=[2], channels=[1, 2], S=1, kernel=[2], size=2)
    A("deconv", deconv, n=[2, 3], channels=[1, 2, 1], S=[2, 1], kernel=[2, 1], size=1)
    A("deconv stride free second", deconv, n=[3, 2], channels=[2, 1, 1], S=[1, 3], kernel=[2, 2], size=1, stride=[1, 2], free=0)
    A("deconv scalars", deconv, n=2, channels=[1, 1, 2], S=2, kernel=[2, 2], size=1, stride=2)
    A("deconv padding norm", deconv, n=2, channels=[1, 2], S=2, kernel=[3], size=2, pad=1, norm=True, stride=2)
    A("deconv three layers", deconv, n=2, channels=[2, 1, 2, 1], S=1, kernel=[1, 2, 1], size=1, norm=True)
    A("deconv period rescale", deconv, n=2, channels=[2, 1], S=2, kernel=[2], size=1, per=2.0, rescale=True)
    for norm in (True, False):
        A(f"tail norm={norm}", tail, kind=[T, T], n=[2, 3], channels=[2, 1, 3], S=[2, 1], kernel=[2, 3], size=6, focus=[2, 1], stride=[1, 2], norm=norm)
        A(f"tail three levels norm={norm}", tail, kind=T, n=2, channels=[1, 2, 1, 2], S=1, kernel=[2, 2, 2], size=7, focus=[3, 2, 1], norm=norm, b=2)
        A(f"tail one level norm={norm}", tail, kind=["discontinuous1d"], n=[2], channels=[1, 2], S=[2], kernel=[3], size=5, focus=[2], stride=[2], norm=norm)
        A(f"tail padding norm={norm}", tail, kind=T, n=2, channels=[1, 1, 1], S=[2, 1], kernel=[2, 3], size=4, focus=2, stride=2, pad=1, norm=norm)
        A(f"tail long focus norm={norm}", tail, kind=T, n=2, channels=[1, 2, 1], S=1, kernel=[2, 2], size=5, focus=[9, 12], norm=norm)
    A("tail free second", tail, kind=["discontinuous1d", T], n=[2, 3], channels=[1, 2, 1], S=[1, 3], kernel=[1, 2], size=3, focus=[1, 2], free=0, stride=1)
    A("tail polynomial stride 3 padding 2", tail, kind="polynomial1d", n=2, channels=[1, 1], S=1, kernel=[3], size=6, focus=[4], stride=[3], pad=2)
    for name, k in [("one", dict(channels=[2, 3], kernel=[3], focus=[5], stride=[1], pad=0)), ("stride", dict(channels=[1, 2, 3], kernel=[3, 5], focus=[2, 30], stride=[2, 3], pad=0)),
                    ("no stride", dict(channels=[1, 2, 3], kernel=[3, 2], focus=[2, 3], stride=None, pad=0)), ("padding", dict(channels=[3, 2, 1], kernel=[4, 3], focus=[7, 3], stride=[3, 2], pad=2)),
                    ("three", dict(channels=[3, 2, 1, 4], kernel=[7, 3, 5], focus=[1, 2, 3], stride=[2, 2, 2], pad=1))]:
        J.append(job(f"sizes {name}", sizes, **k))
    for cls in ("HighOrderFullyConvolutionalNetwork", "HighOrderFullyDeconvolutionalNetwork", "HighOrderTailFocusNetwork"):
        k = "continuous1d" if "Tail" in cls else "continuous2d"
        J.append(job(f"{cls} consistent", refuses, cls=cls, what={}, ok=True))
        J.append(job(f"{cls} scalars", refuses, cls=cls, what=dict(layer_type=k, n=2, segments=1, stride=1), ok=True))
        for bad in (dict(n=[2]), dict(n=[2, 2, 2]), dict(segments=[1]), dict(segments=[1, 1, 1]), dict(kernel_size=[1, 1, 1]), dict(layer_type=[k] * 3), dict(channels=[1, 2]), dict(channels=[1, 2, 1, 1]), dict(channels=[1])):
            J.append(job(f"{cls} refuses {bad}", refuses, cls=cls, what=bad))

    def shrink(size, kernel, stride, pad):
        for k in range(len(kernel)):
            size = (size + 2 * pad - kernel[k]) // (1 if stride is None else at(stride, k)) + 1
            if size < 1:
                return 0
        return size

    L2 = dict(kind=[["continuous2d", "discontinuous2d"], ["polynomial2d", "continuous2d"], "discontinuous2d", "continuous2d"], n=[2, [2, 3], [3, 2]], channels=[[1, 2, 1], [2, 1, 1], [1, 1, 2]],
              S=[1, [2, 1], [1, 2]], kernel=[[1, 2], [2, 1], [3, 1]], size=[2, 3], stride=[None, 1, 2, [2, 1]], pad=[0, 1], norm=[False, True], pooling=[None, "2d", "none"], b=[1, 2],
              free=[None, 0], per=[None, 2.0], rescale=[False, True])
    for q, c in enumerate(covering(valid=lambda size, kernel, stride, pad, **k: 1 <= shrink(size, kernel, stride, pad) <= 3, **L2)):
        A(f"conv settings {q} {c}", conv, **c)
    L1 = dict(L2, kind=[["continuous1d", "discontinuous1d"], ["polynomial1d", "continuous1d"], "fourier1d", "discontinuous1d"], size=[4, 5], pooling=["1d", "none"])
    for q, c in enumerate(covering(valid=lambda kind, size, kernel, stride, pad, per, **k: 1 <= shrink(size, kernel, stride, pad) <= 5 and (per is None or kind != "fourier1d"), **L1)):
        A(f"conv 1d settings {q} {c}", conv, **c)
    LD = {k: v for k, v in L2.items() if k not in ("kind", "pooling")}
    LD.update(size=[1, 2], kernel=[[1, 2], [2, 1], [2, 3]])

    def grow(size, kernel, stride, pad):
        for k in range(2):
            size = (size - 1) * (1 if stride is None else at(stride, k)) - 2 * pad + kernel[k]
            if size < 1:
                return 0
        return size

    for q, c in enumerate(covering(valid=lambda size, kernel, stride, pad, **k: 1 <= grow(size, kernel, stride, pad) <= 5, **LD)):
        A(f"deconv settings {q} {c}", deconv, **c)
    LT = {k: v for k, v in L1.items() if k != "pooling"}
    LT.update(focus=[1, [2, 1], [1, 9]], size=[4, 6])
    for q, c in enumerate(covering(valid=lambda kind, size, kernel, stride, pad, per, **k: 1 <= shrink(size, kernel, stride, pad) and (per is None or kind != "fourier1d"), **LT)):
        A(f"tail settings {q} {c}", tail, **c)
    if tier == "thorough":
        for f in (None, 0, 1):
            for n in (2, 3):
                A(f"thorough conv 2d {f} {n}", conv, kind=[C, D, C], n=n, channels=[2, 2, 2, 1], S=[2, 3, 2], kernel=[2, 2, 1], size=4, free=f, norm=True)
                A(f"thorough tail {f} {n}", tail, kind=T, n=n, channels=[2, 2, 2, 2], S=[2, 3, 2], kernel=[2, 3, 2], size=9, focus=[2, 3, 1], free=f, stride=[1, 2, 1], pad=1)
                A(f"thorough deconv {f} {n}", deconv, n=n, channels=[2, 2, 1, 1], S=[2, 3, 2], kernel=[2, 1, 2], size=2, free=f, stride=[1, 2, 1])
    return J
