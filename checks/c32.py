"""C32: autograd delivers the derivative of the function a module computes."""
from fractions import Fraction as F

import numpy as np
import torch

from . import c16, ref
from .c10 import ref_rand
from .c16 import adapted, nd, summed, switch, transformed
from .common import covering, pinned
from .ref import job

BOUNDS = ("every module kind of property C16 (layers, convolutions, normalisations, networks, attentions, embeddings), the n dimensional layers, sums and switches, the loss of the "
          "variational autoencoder; every input and parameter symbolic (networks with several segments and multi head attentions: symbolic inputs and one symbolic element per parameter "
          "in an interval around fixed values), fixed generic upstream gradients; points where the function is differentiable.")
OUTSIDE = "points on a segment boundary, ties of a maximum and kinks of a rectifier; dropout and batch normalisation in training mode; second derivatives"


def derivative(h, build, b, free=((0, 0),), concrete=False, lo=None, hi=None, reach=F(1, 8), tol=F(1, 100), first=False, params=False, seed=3, scale=1, rows=None):
    """params: only the parameters vary (one element of each), the inputs are fixed."""
    L, shape, S = build()
    L.eval()
    multi = len(shape) > 0 and isinstance(shape[0], tuple)
    xs = []
    for q, sh in enumerate(shape if multi else [shape]):
        full = (b,) + tuple(sh)
        if params:
            a = np.array([F(int(v), 16) for v in np.random.RandomState(seed + q).randint(-14, 15, int(np.prod(full, dtype=int)))], dtype=object).reshape(full)
            xs.append(a if lo is None else np.vectorize(lambda v: F(lo) + (v + 1) / 2 * (F(hi) - F(lo)), otypes=[object])(a))
        elif lo is not None:
            xs.append(h.elements(f"x{q}", full, lo, hi))
        else:
            xs.append(pinned(h, f"x{q}", (b, int(np.prod(sh, dtype=int)) if sh else 1), S, free=free, reach=reach).reshape(full))
    xs = [h.tensor(a) for a in xs]
    L(*[x.detach().clone() for x in xs])  # lazy parameters
    for q, p in enumerate(L.parameters()):
        if concrete or params:
            rng = np.random.RandomState(11 * q + seed)
            a = ref_rand(rng, tuple(p.shape))
            if params:
                flat = a.reshape(-1)
                for k in sorted(set(rng.randint(0, len(flat), 2))):
                    flat[k] = h.scalar(f"w{q}_{k}", flat[k] - F(1, 64), flat[k] + F(1, 64))
                a = flat.reshape(a.shape)
            h.assign(p, a)
        else:
            h.set(p, f"w{q}", -1, 1)
    h.gradients(lambda M, X: outputs(M(*X), first), L, xs, "module", tol=tol)


def outputs(r, first):
    r = list(r if isinstance(r, (tuple, list)) else (r,))
    return r[:1] if first else r


def loss(h, b, shape, latent, weight):
    """Gradient of the autoencoder's loss with respect to reconstruction, mean and log variance."""
    from high_order_layers_torch.networks import VanillaVAE

    xs = [h.real("r", (b,) + shape, -1, 1), h.real("x", (b,) + shape, -1, 1), h.real("mu", (b, latent), -1, 1), h.real("lv", (b, latent), -1, 1)]
    fn = VanillaVAE.loss_function
    h.gradients(lambda M, X: fn(None, *X, M_N=float(weight))["loss"], torch.nn.Module(), xs, "loss", params=False)


def jobs(tier):
    J = []
    T = tier == "thorough"
    A = lambda name, build, b=1, cost=3, **k: J.append(job(name, derivative, build=build, b=b, cost=cost, **k))
    for j in c16.base(tier):
        cfg = dict(j["cfg"])
        if j["name"] == "baseline_relu b=3 last free":
            continue  # 2^9 sign patterns; b=2 covers the adapter
        if j["name"] == "low order MLP":
            cfg["b"] = 1
        J.append(job(j["name"], derivative, cost=j["cost"], **cfg))
        if cfg.get("concrete"):
            for s in range(6 if T else 2):
                J.append(job(f"{j['name']} parameters {s}", derivative, cost=j["cost"], **{**cfg, "params": True, "seed": 3 + 10 * s}))
    A("polynomial 2d", nd("polynomial_2d", (2, 3)), b=2)
    A("continuous nd", nd("continuous_nd", (2, 2), (2, 1)), lo=F(1, 8), hi=F(1, 2))
    for q, c in enumerate(covering(3 if T else 2, kind=("continuous", "discontinuous", "continuous_prod", "discontinuous_prod"), n=(2, 3, 4), S=(1, 2, 5), i=(1, 2), o=(1, 2), b=(1, 2), length=(None, 1, 4),
                                   per=(None, 2, "length"))):
        length, per = c.pop("length"), c.pop("per")
        kw = {"length": float(length)} if length else {}
        if per:
            kw["periodicity"] = float((length or 2) if per == "length" else per)
        b = c.pop("b")
        if c["n"] == 4 and "prod" in c["kind"]:
            c["i"], b = 1, 1
        half = F(length or 2) / 2
        # one segment per sample is enough here: C05 walks over all of them
        A(f"fc settings {q}: {c} {kw} b={b}", c16.fc(**c, **kw), b=b, lo=F(-half), hi=F(-half) + 2 * half / c["S"] * F(5, 4)) if not per else \
            A(f"fc settings {q}: {c} {kw} b={b}", c16.fc(**c, **kw), b=b, lo=half * F(9, 8), hi=half * F(9, 8) + half / 16)
    for q, c in enumerate(covering(3 if T else 2, lambda k, dilation, size, **_: (k - 1) * dilation < size, kind=("continuous", "discontinuous", "polynomial", "fourier", "transpose"), d=("1d", "2d"), n=(2, 3), S=(1, 2), ci=(1, 2), co=(1, 2),
                                   k=(1, 2), size=(2, 3), stride=(1, 2), padding=(0, 1), dilation=(1, 2), rescale_output=(False, True), periodicity=(None, 2.0), length=(2.0, 4.0))):
        kind, d = c.pop("kind"), c.pop("d")
        if kind == "fourier":
            c.pop("periodicity")
            c["S"] = 1
        if kind == "polynomial":
            c["S"] = 1
        if kind == "transpose":
            build = c16.tconv(**c)
        else:
            build = c16.conv(kind + d, **c)
        A(f"conv settings {q}: {kind}{d} {c}", build, lo=F(-1, 2), hi=F(-1, 4))
    for kind in ("continuous", "discontinuous", "polynomial", "baseline"):
        A(f"switch {kind}", switch(kind, n=2, in_features=2, out_features=2, segments=2, num_input_layers=3))
    A("switch with normalisation", switch("continuous", norm="MaxAbsNormalizationLast", n=2, in_features=1, out_features=2, segments=1), concrete=True)
    A("sum", summed(("continuous", "baseline", "polynomial", "discontinuous"), 3, 2, 2, 2), b=2)
    for sm in (True, False):
        A(f"location smoothing={sm}", c16.attention("LocationAwareAttention", ((1, 1), (2, 1), (2,)), hidden_dim=1, smoothing=sm), lo=0, hi=1)
        A(f"location smoothing={sm} first step", adapted("LocationAwareAttention", ((1, 1), (2, 1)), lambda m, q, v: m(q, v, None), hidden_dim=1, smoothing=sm), lo=-1, hi=1)
    for s in range(2):
        A(f"multi location {s}", c16.attention("MultiHeadLocationAwareAttention", ((1, 2), (2, 2), (2, 2)), hidden_dim=2, num_heads=2, conv_out_channel=2), lo=0, hi=1, params=bool(s), concrete=True)
        A(f"customizing {s}", adapted("CustomizingAttention", ((1, 2), (2, 2)), lambda m, q, v: m(q, v, None), hidden_dim=2, num_heads=2, conv_out_channel=1), lo=-1, hi=1, params=bool(s), concrete=True)
        mask = torch.tensor([[[0, 1], [0, 0]]], dtype=torch.bool)
        A(f"multi head mask {s}", adapted("MultiHeadAttention", ((2, 2), (2, 2), (2, 2)), lambda m, q, k, v: m(q, k, v, mask), d_model=2, num_heads=2), lo=-1, hi=1, params=bool(s), concrete=True)
        A(f"relative mask {s}", adapted("RelativeMultiHeadAttention", ((2, 2), (2, 2), (2, 2), (2, 2)), lambda m, q, k, v, e: m(q, k, v, e, mask), d_model=2, num_heads=2), lo=-1, hi=1, params=bool(s), concrete=True)
        A(f"multi network {s}", c16.network("HighOrderMultiMLP", (2,), layer_type="continuous", n=2, in_width=2, out_width=1, hidden_width=2, hidden_layers=1, in_segments=1, out_segments=1,
                                            hidden_segments=1, replicas=2), lo=-1, hi=1, params=bool(s), concrete=True)
        A(f"transformed network {s}", transformed(False, layer_type="polynomial", n=2, n_in=None, n_hidden=None, n_out=None, in_width=2, hidden_width=1, out_width=1, in_segments=1, hidden_segments=1,
                                                  out_segments=1, hidden_layers=0, rotations=2, periodicity=None), lo=F(1, 8), hi=F(1, 4), params=bool(s), concrete=True)
        A(f"transformed low order network {s}", transformed(True, in_width=2, hidden_width=2, out_width=1, hidden_layers=1, non_linearity=torch.nn.Tanh(), normalization=None, rotations=2), lo=F(1, 8), hi=F(1, 4),
          params=bool(s), concrete=True)
    for b, sh, l in [(1, (2,), 1), (2, (1, 1, 2), 2)]:
        for wt in (F(0), F(1, 2)):
            J.append(job(f"autoencoder loss b={b} {sh} latent={l} weight={wt}", loss, b=b, shape=sh, latent=l, weight=wt))
    return J
