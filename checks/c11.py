"""C11: a convolution layer applies one link function per (output channel, input
channel, kernel position) and sums them over the window."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering, reach_for
from .ref import job

BOUNDS = ("1d and 2d, continuous / discontinuous / polynomial; orders n<=5, segments<=5, channels<=2 in and out, kernels 1..3, images up to "
          "4x4 / length 6 (a few of 7x5 / 40 with 17 segments), strides 1..3, padding 0..2 in every padding mode, dilation 1..2, batch<=2, lengths {1,2,4}, periods, coefficients in [-1,1]; one "
          "or two pixels range over the whole domain and beyond, the others are symbolic inside one segment.")
OUTSIDE = "larger images and kernels; grouped convolutions"


def pixels(h, shape, S, half, free, reach):
    """Input pixels; those in `free` range over every segment."""
    a = ref.obj(shape)
    wid = 2 * half / S
    free = {tuple(f) for f in free}
    for i, ix in enumerate(np.ndindex(*shape)):
        if ix in free:
            a[ix] = h.scalar(f"x_{i}", -half - wid * reach, half + wid * reach)
        else:
            k = (i * 3 + 1) % S
            lo = -half + wid * k
            a[ix] = h.scalar(f"x_{i}", lo + wid / 16, lo + wid * F(15, 16))
    return a


def link(kind, n, S, half):
    """(number of coefficients, function of (coefficients, x)) of one link."""
    if kind.startswith("polynomial"):
        return n, lambda w, x: ref.poly(w, n, x, half)
    cont = kind.startswith("continuous")
    return ((n - 1) * S + 1 if cont else n * S), lambda w, x: ref.piecewise(w, n, S, x, half, cont)


def fold(x, per):
    """Mirror periodic image of x (x within two periods of the origin)."""
    P = F(per)
    for k in range(-3, 4):
        # the period cell [P(k-1/2), P(k+1/2)]
        if k == 3 or x < P * (F(k) + F(1, 2)):
            return (x - P * k) if k % 2 == 0 else (P * k - x)


def source(q, d, mode):
    """Index read for position q of an axis of d entries (None: nothing)."""
    if 0 <= q < d:
        return q
    if mode == "zeros":
        return None
    if mode == "circular":
        return q % d
    if mode == "replicate":
        return 0 if q < 0 else d - 1
    return -q if q < 0 else 2 * (d - 1) - q  # reflect


def window(h, w, xa, N, f, ksize, stride, pad, dil, scale=F(1), mode="zeros"):
    """Reference convolution; padded positions contribute nothing, or what the padding mode reads there."""
    B, C = xa.shape[:2]
    dims = xa.shape[2:]
    out_dims = tuple((d + 2 * pad - dil * (ksize - 1) - 1) // stride + 1 for d in dims)
    O = w.shape[0]
    exp = ref.obj((B, O) + out_dims)
    memo = {}
    for b in range(B):
        for o in range(O):
            for p in np.ndindex(*out_dims):
                acc = F(0)
                for c in range(C):
                    for d in np.ndindex(*([ksize] * len(dims))):
                        q = tuple(p[a] * stride + d[a] * dil - pad for a in range(len(dims)))
                        q = tuple(source(q[a], dims[a], mode) for a in range(len(dims)))
                        if None in q:
                            continue
                        acc = acc + f(w[(o, slice(c * N, (c + 1) * N)) + d], xa[(b, c) + q])
                exp[(b, o) + p] = acc * scale
    return exp


def conv(h, kind, n, S, ci, co, k, size, b=1, stride=1, pad=0, dil=1, length=2, per=None, rescale=False, free=None, prep=None, dtype=torch.float32, mode="zeros", many=False):
    from high_order_layers_torch.layers import high_order_convolution_layers

    half = F(2 if length is None else length) / 2
    two = kind.endswith("2d")
    kw = {}
    if dil != 1:
        kw["dilation"] = dil
    if mode != "zeros":
        kw["padding_mode"] = mode
    if length is not None:
        kw["length"] = float(length)
    if stride is not None:
        kw["stride"] = stride
    if pad is not None:
        kw["padding"] = pad
    if per is not None:
        kw["periodicity"] = per
    if rescale is not None:
        kw["rescale_output"] = rescale
    stride, pad = stride or 1, pad or 0
    L = high_order_convolution_layers(layer_type=kind, n=n, in_channels=ci, out_channels=co, kernel_size=k, segments=S, **kw)
    if dtype is torch.float64:
        L = L.double()
    ps = list(L.parameters())
    if len(ps) != 1:
        h.fail(f"{len(ps)} parameters")
    N, f = link(kind, n, S, half)
    dims = (size if isinstance(size, tuple) else (size,) * (2 if two else 1))
    h.same_shape(ps[0], (co, ci * N) + (k,) * len(dims), "coefficients")
    h.set(ps[0], "w", -1, 1)
    w = h.e(ps[0])
    shape = (b, ci) + dims
    if per is None:
        free = free or [(0, 0) + tuple(d // 2 for d in dims)]
        xa = pixels(h, shape, S, half, free, reach_for(n, S) if S > 1 else F(1, 8))
        xf = xa
    else:
        xa = ref.obj(shape)
        wid, P = 2 * half / S, F(per)
        safe = [c for c in (-half + wid * (k + F(j, 16)) for k in range(S) for j in (3, 5, 9, 11)) if abs(c) < P / 2 - wid / 32]
        for q, p in enumerate(np.ndindex(*shape)):
            c = safe[(3 * q + 1) % len(safe)]
            xa[p] = h.scalar(f"x_{q}", c - wid / 32, c + wid / 32)
        ix = (0, 0) + tuple(d // 2 for d in dims)
        xa[ix] = h.scalar("xp", -F(per) * F(5, 4), F(per) * F(5, 4))
        xf = ref.obj(shape)
        for q in np.ndindex(*shape):
            xf[q] = fold(xa[q], per)
    x = h.tensor(xa, dtype)
    if prep == "noncontiguous":
        x = h.tensor(np.swapaxes(xa, -1, 1).copy()).transpose(-1, 1)
    y = L(x)
    scale = F(1, ci * k ** len(dims)) if rescale else F(1)
    exp = window(h, w, xf, N, f, k, stride, pad, dil, scale, mode)
    h.same_shape(y, exp.shape, "output")
    h.close(y, exp, "convolution = sum of link functions over the window", tol=F(1, 300))


def jobs(tier):
    J = []

    def add(name, cost=3, **k):
        J.append(job(name, conv, cost=cost, **k))

    for fam in ("continuous", "discontinuous", "polynomial"):
        pw = fam != "polynomial"
        S2, S3 = (2, 3) if pw else (1, 1)
        for d, sz in (("1d", 4), ("2d", 3)):
            k = fam + d
            add(f"{k} n=2 k=1", kind=k, n=2, S=S2, ci=1, co=1, k=1, size=sz)
            add(f"{k} n=3 k=2", kind=k, n=3, S=S2, ci=2, co=2, k=2, size=sz)
            add(f"{k} n=2 k=3 pad=1", kind=k, n=2, S=S3, ci=1, co=2, k=3, size=sz, pad=1)
            add(f"{k} n=4 stride=2", kind=k, n=4, S=S2, ci=1, co=1, k=2, size=4, stride=2)
            add(f"{k} n=3 stride=2 pad=1", kind=k, n=3, S=S2, ci=2, co=1, k=2, size=3, stride=2, pad=1)
            add(f"{k} stride=3 pad=2", kind=k, n=2, S=S2, ci=1, co=1, k=2, size=4, stride=3, pad=2)
            add(f"{k} dilation=2", kind=k, n=2, S=S2, ci=1, co=2, k=2, size=4, dil=2)
            add(f"{k} batch=2", kind=k, n=3, S=S2, ci=2, co=1, k=2, size=2, b=2, free=[(1, 1) + (1,) * (2 if d == "2d" else 1)])
            for Ln in (1, 4):
                add(f"{k} length={Ln}", kind=k, n=3, S=S2, ci=1, co=1, k=2, size=2, length=Ln)
            add(f"{k} rescale", kind=k, n=2, S=S2, ci=2, co=1, k=2, size=3, rescale=True)
            add(f"{k} period=2", kind=k, n=2, S=S2, ci=1, co=1, k=2, size=2, per=2.0)
            add(f"{k} period=1", kind=k, n=3, S=S2, ci=1, co=1, k=1, size=2, per=1.0)
            add(f"{k} noncontiguous", kind=k, n=2, S=S2, ci=2, co=1, k=2, size=3, prep="noncontiguous")
            add(f"{k} float64", kind=k, n=3, S=S2, ci=1, co=1, k=2, size=2, dtype=torch.float64)
            add(f"{k} two free pixels", kind=k, n=2, S=S2, ci=2, co=1, k=2, size=2, free=[(0, 0) + (0,) * (1 if d == "1d" else 2), (0, 1) + (1,) * (1 if d == "1d" else 2)])
            if pw:
                add(f"{k} n=5 S=1", kind=k, n=5, S=1, ci=1, co=1, k=2, size=2)
                add(f"{k} n=2 S=5", kind=k, n=2, S=5, ci=1, co=1, k=1, size=2)
                if fam == "discontinuous":
                    add(f"{k} n=1 S=3", kind=k, n=1, S=3, ci=1, co=2, k=2, size=2)
        add(f"{fam}2d oblong", kind=fam + "2d", n=2, S=S2, ci=2, co=2, k=2, size=(2, 4))
        add(f"{fam}2d oblong stride 2", kind=fam + "2d", n=3, S=S2, ci=1, co=1, k=2, size=(4, 3), stride=2, pad=1)
    kinds = [f + d for f in ("continuous", "discontinuous", "polynomial") for d in ("1d", "2d")]
    ok = lambda kind, n, S, ci, co, k, stride, pad, dil, length, per, rescale, b, size, mode: not (
        (n == 1 and not kind.startswith("disc")) or (S > 1 and kind[0] == "p") or (pad or 0) > min(size[:1 if kind.endswith("1d") else 2]) - 1
        or min(size[:1 if kind.endswith("1d") else 2]) + 2 * (pad or 0) < dil * (k - 1) + 1 or (mode != "zeros" and not pad)
        or (kind.endswith("2d") and n * S * ci * co * k * k * b > 160) or (per is not None and (n > 3 or ci * co * b > 2)))
    for q, c in enumerate(covering(2, ok, kind=kinds, n=(3, 2, 4, 1), S=(3, 2, 1), ci=(2, 1, 3), co=(2, 1, 3), k=(2, 3, 1), stride=(2, None, 1, 3), pad=(1, None, 2, 0), dil=(1, 2), length=(None, 1, 3),
                                   per=(None, 1, F(1, 2)), rescale=(None, True, False), b=(1, 2), size=((3, 4), (4, 3), (5, 3)), mode=("zeros", "circular", "reflect", "replicate"))):
        if c["kind"].endswith("1d"):
            c["size"] = c["size"][:1]
        if c["per"] is not None:
            c["per"] = float((c["length"] or 2) * c["per"])
        elif q % 2:
            c["free"] = [(c["b"] - 1, c["ci"] - 1) + tuple(s - 1 for s in c["size"])]
        add(f"settings {q}: {c['kind']}", **c)
    for d, size, free in (("1d", (40,), (1, 0, 39)), ("2d", (7, 5), (0, 1, 6, 4))):
        for fam in ("continuous", "discontinuous"):
            add(f"large {fam}{d}", kind=fam + d, n=2, S=17, ci=2, co=1, k=2, size=size, b=2, free=[free], cost=40)
    if tier == "thorough":
        for fam in ("continuous", "discontinuous"):
            for d in ("1d", "2d"):
                for n in (2, 3, 4, 6):
                    for S in (2, 4, 7):
                        add(f"thorough {fam}{d} n={n} S={S}", kind=fam + d, n=n, S=S, ci=2, co=2, k=2, size=4, stride=2, pad=1, cost=30)
    return J
