"""C07: linear initialisation makes every link one straight line across all
segments, slope and offset within the requested limits."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering, pinned
from .ref import job

BOUNDS = ("every draw in [0,1] of the generator (symbolic), every previous coefficient value in [-1,1]; orders n<=6, segments<=6, "
          "inputs<=3, outputs<=3; slopes {1,2}, offsets {0,1,0.5}, lengths {1,2,4}, two-layer networks with slope scaling 1/inputs.")
OUTSIDE = "the distribution of slopes and offsets"


def line(h, w, n, S, half, cont, slope, offset, what):
    """w[o, i, :] lies on a line a*x+b with |a|<=slope and |b|<=offset."""
    pos = ref.node_positions(n, S, half, cont)
    N = len(pos)
    if w.shape[2] != N:
        h.fail(f"{what}: {w.shape[2]} coefficients, expected {N}")
    for oo in range(w.shape[0]):
        for ii in range(w.shape[1]):
            r = w[oo, ii]
            a = (r[N - 1] - r[0]) * (1 / (pos[N - 1] - pos[0]))
            b = r[0] - a * pos[0]
            for j in range(N):
                h.close([r[j]], [a * pos[j] + b], f"{what}: link ({oo},{ii}) is a straight line", tol=F(1, 5000))
            h.le([a, -a], [F(slope)] * 2, f"{what}: slope limit", slack=F(1, 5000))
            h.le([b, -b], [F(offset)] * 2, f"{what}: offset limit", slack=F(1, 5000))


def varied(h, w, what):
    """Every link has its own slope (draws are independent)."""
    h.distinct(w[..., -1] - w[..., 0], f"{what}: slopes of different links")


def layer(h, kind, n, S, i, o, slope, offset, length=2, b=1):
    from high_order_layers_torch.layers import high_order_fc_layers
    from high_order_layers_torch.PolynomialLayers import initialize_polynomial_layer

    L = high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, length=float(length))
    h.set(L.w, "w", -1, 1)
    with h.randomness():
        initialize_polynomial_layer(L, max_slope=float(slope), max_offset=float(offset))
    half = F(length) / 2
    w = h.e(L.w)
    line(h, w, n, S, half, kind.startswith("continuous"), slope, offset, "layer")
    varied(h, w, "layer")
    xa = pinned(h, "x", (b, i), S, half, ((0, 0),), F(1, 8))
    y = L(h.tensor(xa))
    pos = ref.node_positions(n, S, half, kind.startswith("continuous"))
    exp = ref.obj((b, o))
    for bb in range(b):
        for oo in range(o):
            acc = F(0)
            for ii in range(i):
                a = (w[oo, ii, len(pos) - 1] - w[oo, ii, 0]) * (1 / (pos[-1] - pos[0]))
                acc = acc + w[oo, ii, 0] + a * (xa[bb, ii] - pos[0])
            exp[bb, oo] = acc
    h.close(y, exp, "the layer computes the lines", tol=F(1, 500))


def network(h, kind, n, S, widths, slope, offset, scaled, hidden=1, norm=False, resnet=False, scale=2):
    from high_order_layers_torch.layers import MaxAbsNormalizationLast
    from high_order_layers_torch.networks import HighOrderMLP, initialize_network_polynomial_layers

    net = HighOrderMLP(layer_type=kind, n=n, in_width=widths[0], hidden_width=widths[1], out_width=widths[2], hidden_layers=hidden,
                       in_segments=S, hidden_segments=S + 1, out_segments=S, resnet=resnet, scale=float(scale), **({"normalization": MaxAbsNormalizationLast} if norm else {}))
    ps = {k: p for k, p in net.named_parameters()}
    seen = []
    for q, p in enumerate(net.parameters()):
        h.set(p, f"w{q}", -1, 1)
    with h.randomness():
        kw = {"scale_slope": (lambda s: 1.0 / s)} if scaled else {}
        initialize_network_polynomial_layers(net, max_slope=float(slope), max_offset=float(offset), **kw)
    if not ps:
        h.fail("network has no parameters")
    for q, (name, p) in enumerate(ps.items()):
        w = h.e(p)
        i = w.shape[1]
        N = w.shape[2]
        s = next((s for s in (S, S + 1) if N == ((n - 1) * s + 1 if "discontinuous" not in kind else n * s)), None)
        if s is None:
            h.fail(f"{name}: {N} coefficients")
        line(h, w, n, s, F(scale) / 2, "discontinuous" not in kind, F(slope) / i if scaled else F(slope), offset, name)
        varied(h, w, name)


def switch(h, kind, n, S, i, o, k, slope, offset, length):
    """The method of the switch layer initialises every child."""
    from high_order_layers_torch.layers import high_order_fc_layers

    L = high_order_fc_layers(layer_type="switch_" + kind, n=n, in_features=i, out_features=o, segments=S, length=float(length), num_input_layers=k)
    ps = dict(L.named_parameters())
    if len(ps) != k:
        h.fail(f"{len(ps)} children")
    for q, p in enumerate(ps.values()):
        h.set(p, f"w{q}", -1, 1)
    with h.randomness():
        L.initialize(max_slope=float(slope), max_offset=float(offset))
    for name, p in ps.items():
        w = h.e(p)
        line(h, w, n, S, F(length) / 2, kind == "continuous", slope, offset, name)
        varied(h, w, name)


def jobs(tier):
    J = []
    for kind in ("continuous", "discontinuous"):
        for n, S, i, o, sl, of in [(2, 1, 1, 1, 1, 0), (2, 3, 2, 2, 2, 1), (3, 2, 2, 3, 1, F(1, 2)), (4, 2, 3, 1, 1, 0), (5, 3, 1, 2, 2, 1), (6, 2, 1, 1, 1, 1), (3, 6, 1, 2, 1, 0)]:
            J.append(job(f"{kind} n={n} S={S} {i}->{o} slope={sl} offset={of}", layer, kind=kind, n=n, S=S, i=i, o=o, slope=sl, offset=of))
        for Ln in (1, 4):
            J.append(job(f"{kind} length={Ln}", layer, kind=kind, n=3, S=2, i=2, o=1, slope=1, offset=1, length=Ln))
        for scaled in (False, True):
            J.append(job(f"network {kind} scaled={scaled}", network, kind=kind, n=3, S=2, widths=(2, 3, 1), slope=1, offset=F(1, 2), scaled=scaled, cost=5))
            J.append(job(f"network switch_{kind} scaled={scaled}", network, kind="switch_" + kind, n=3, S=1, widths=(1, 2, 1), slope=2, offset=1, scaled=scaled, cost=5))
    T = tier == "thorough"
    for q, c in enumerate(covering(3 if T else 2, kind=("continuous", "discontinuous", "discontinuous_prod"), n=(2, 3, 5), S=(1, 2, 4), i=(1, 2), o=(1, 3), slope=(1, F(1, 2), 3),
                                   offset=(0, F(1, 4), 2), length=(2, 1, 4))):
        fn = layer if "prod" not in c["kind"] else layer_prod
        J.append(job(f"settings {q}: " + " ".join(f"{a}={v}" for a, v in c.items()), fn, **c))
    for q, c in enumerate(covering(3 if T else 2, lambda kind, resnet, hidden, norm, **_: (not resnet or hidden > 1) and not (resnet and "switch" in kind),
                                   kind=("continuous", "discontinuous", "switch_continuous", "switch_discontinuous"), n=(2, 3), S=(1, 2), widths=((1, 2, 1), (2, 3, 1), (2, 1, 2)),
                                   slope=(1, 2), offset=(0, F(1, 2), 1), scaled=(False, True), hidden=(0, 1, 2), norm=(False, True), resnet=(False, True), scale=(2, 4))):
        J.append(job(f"network settings {q}: " + " ".join(f"{a}={v}" for a, v in c.items()), network, cost=5, **c))
    for q, c in enumerate(covering(2, kind=("continuous", "discontinuous"), n=(2, 3), S=(1, 3), i=(1, 2), o=(1, 2), k=(1, 2, 3), slope=(1, 2), offset=(0, F(1, 2), 2), length=(2, 4))):
        J.append(job(f"switch layer {q}: " + " ".join(f"{a}={v}" for a, v in c.items()), switch, **c))
    J.append(job("discontinuous_prod", layer_prod, kind="discontinuous_prod", n=3, S=2))
    return J


def layer_prod(h, kind, n, S, i=2, o=2, slope=1, offset=F(1, 2), length=2):
    from high_order_layers_torch.layers import high_order_fc_layers
    from high_order_layers_torch.PolynomialLayers import initialize_polynomial_layer

    L = high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, length=float(length))
    h.set(L.w, "w", -1, 1)
    with h.randomness():
        initialize_polynomial_layer(L, max_slope=float(slope), max_offset=float(offset))
    line(h, h.e(L.w), n, S, F(length) / 2, kind.startswith("continuous"), slope, offset, "product layer")
