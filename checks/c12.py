"""C12: the transposed convolution spreads every pixel's link functions over the
output positions its kernel reaches."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .c11 import fold, link, pixels
from .common import covering, reach_for
from .ref import job

BOUNDS = ("2d continuous; orders n<=5, segments<=5, channels<=2, kernels 1..3, inputs up to 3x3, strides 1..3, padding 0..2, dilation 1..2, output padding "
          "0..2, batch<=2, lengths {1,2,4}, periods, precision: every pair of settings occurs together, defaults included; coefficients in [-1,1]; one or two pixels over all segments.")
OUTSIDE = "larger images; grouped transposed convolutions"


def tconv(h, n, S, ci, co, k, size, b=1, stride=1, pad=0, opad=0, dil=1, length=2, per=None, rescale=False, free=None, prep=None, dtype=torch.float32):
    from high_order_layers_torch.layers import high_order_convolution_transpose_layers

    kw = {} if length is None else {"length": float(length)}
    half = F(length or 2) / 2
    if opad:
        kw["output_padding"] = opad
    if per is not None:
        kw["periodicity"] = float(per)
    if rescale is not None:
        kw["rescale_output"] = rescale
    if stride is not None:
        kw["stride"] = stride
    stride = stride or 1
    if pad is not None:
        kw["padding"] = pad
    pad = pad or 0
    if dil != 1:
        kw["dilation"] = dil
    L = high_order_convolution_transpose_layers(layer_type="continuous2d", n=n, in_channels=ci, out_channels=co, kernel_size=k, segments=S, **kw)
    if dtype is torch.float64:
        L = L.double()
    ps = list(L.parameters())
    if len(ps) != 1:
        h.fail(f"{len(ps)} parameters")
    N, f = link("continuous2d", n, S, half)
    dims = size if isinstance(size, tuple) else (size, size)
    h.same_shape(ps[0], (ci * N, co, k, k), "coefficients")
    h.set(ps[0], "w", -1, 1)
    w = h.e(ps[0])
    shape = (b, ci) + dims
    if per is None:
        xa = pixels(h, shape, S, half, free or [(0, 0, dims[0] // 2, dims[1] // 2)], reach_for(n, S) if S > 1 else F(1, 8))
        xf = xa
    else:
        xa = pixels(h, shape, S, half, [], F(1, 8))
        xa[0, 0, 0, 0] = h.scalar("xp", -F(per) * F(5, 4), F(per) * F(5, 4))
        xf = ref.obj(shape)
        for q in np.ndindex(*shape):
            xf[q] = fold(xa[q], per)
    x = h.tensor(xa, dtype)
    if prep == "noncontiguous":
        x = h.tensor(np.swapaxes(xa, -1, 1).copy()).transpose(-1, 1)
    y = L(x)
    od = tuple((d - 1) * stride - 2 * pad + dil * (k - 1) + 1 + opad for d in dims)
    exp = ref.obj((b, co) + od)
    for ix in np.ndindex(*exp.shape):
        exp[ix] = F(0)
    scale = F(1, ci * k * k) if rescale else F(1)
    for bb in range(b):
        for c in range(ci):
            for q in np.ndindex(*dims):
                for d in np.ndindex(k, k):
                    p = (q[0] * stride + d[0] * dil - pad, q[1] * stride + d[1] * dil - pad)
                    if not (0 <= p[0] < od[0] and 0 <= p[1] < od[1]):
                        continue
                    for o in range(co):
                        exp[(bb, o) + p] = exp[(bb, o) + p] + scale * f(w[(slice(c * N, (c + 1) * N), o) + d], xf[(bb, c) + q])
    h.same_shape(y, exp.shape, "output")
    h.close(y, exp, "transposed convolution", tol=F(1, 300))


def jobs(tier):
    J = []

    def add(name, cost=3, **k):
        J.append(job(name, tconv, cost=cost, **k))

    add("n=2 k=1", n=2, S=2, ci=1, co=1, k=1, size=2)
    add("n=3 k=2", n=3, S=2, ci=2, co=2, k=2, size=2)
    add("n=2 k=3", n=2, S=3, ci=1, co=2, k=3, size=2)
    add("stride=2", n=3, S=2, ci=1, co=1, k=2, size=2, stride=2)
    add("stride=2 pad=1", n=2, S=2, ci=2, co=1, k=3, size=2, stride=2, pad=1)
    add("stride=2 pad=1 opad=1", n=2, S=2, ci=1, co=1, k=3, size=2, stride=2, pad=1, opad=1)
    add("stride=3", n=2, S=2, ci=1, co=1, k=2, size=2, stride=3)
    add("batch=2", n=3, S=2, ci=2, co=1, k=2, size=1, b=2, free=[(1, 1, 0, 0)])
    add("oblong", n=2, S=2, ci=1, co=2, k=2, size=(1, 3))
    add("length=1", n=3, S=2, ci=1, co=1, k=2, size=2, length=1)
    add("length=4", n=3, S=2, ci=1, co=1, k=2, size=2, length=4)
    add("rescale", n=2, S=2, ci=2, co=1, k=2, size=2, rescale=True)
    add("period=2", n=2, S=2, ci=1, co=1, k=2, size=1, per=2.0)
    add("period=1", n=3, S=2, ci=1, co=1, k=1, size=1, per=1.0)
    add("n=5 S=1", n=5, S=1, ci=1, co=1, k=2, size=1)
    add("n=2 S=5", n=2, S=5, ci=1, co=1, k=2, size=1)
    add("float64", n=3, S=3, ci=1, co=1, k=2, size=1, dtype=torch.float64)
    add("noncontiguous", n=2, S=2, ci=2, co=1, k=2, size=2, prep="noncontiguous")
    add("two free pixels", n=2, S=2, ci=2, co=1, k=2, size=2, free=[(0, 0, 0, 0), (0, 1, 1, 1)])
    for stride in (1, 2, 3):
        for pad in (0, 1, 2):
            for dil in (1, 2):
                for opad in range(max(stride, dil)):
                    for k in (2, 3) if dil == 1 else (2,):
                        size = 2
                        if (size - 1) * stride - 2 * pad + dil * (k - 1) + 1 + opad < 1:
                            size = 3
                        if (size - 1) * stride - 2 * pad + dil * (k - 1) + 1 + opad < 1:
                            continue
                        add(f"geometry stride={stride} pad={pad} dilation={dil} opad={opad} k={k}", n=2, S=2, ci=1, co=1, k=k, size=size, stride=stride, pad=pad, dil=dil, opad=opad)

    def valid(k, size, stride, pad, opad, dil, **_):
        st, pd = stride or 1, pad or 0
        return opad < max(st, dil) and all(1 <= (d - 1) * st - 2 * pd + dil * (k - 1) + 1 + opad <= 7 for d in size)

    F3 = dict(n=(2, 3, 4), S=(1, 2, 3), ci=(1, 2), co=(1, 2), k=(1, 2, 3), size=((1, 2), (2, 1), (2, 2), (3, 1)), b=(1, 2), stride=(None, 1, 2, 3), pad=(None, 0, 1), opad=(0, 1), dil=(1, 2),
              length=(None, 1, 4), per=(None, 2, F(3, 2)), rescale=(None, False, True), dtype=(torch.float32, torch.float64))
    for q, c in enumerate(covering(valid=valid, **F3)):
        add(f"settings {q} {c}", cost=5, **c)
    if tier == "thorough":
        for n in (2, 3, 4, 6):
            for S in (2, 4, 7):
                add(f"thorough n={n} S={S}", n=n, S=S, ci=2, co=2, k=3, size=3, stride=2, pad=1, cost=30)
    return J
