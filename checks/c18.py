"""C18: smoothing a discontinuous layer moves both sides of every interior boundary
towards each other and touches nothing else."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering
from .ref import job

BOUNDS = ("orders 2<=n<=6 (9 at most), segments 1..40, inputs and outputs<=3, product and plain discontinuous layers with any period, length, node spacing and "
          "precision, lengths {1/2,1,2,4}, factors {0,1/4,1/2,1,3/2} and every factor in [-2,2] at once, 1..3 applications, all coefficients in [-4,4]; networks with up "
          "to 4 discontinuous layers next to other layers, nested modules, a layer used twice.")
OUTSIDE = "order one, whose only node belongs to both boundaries of its segment"


def smooth_ref(w, n, S, f):
    w = w.copy()
    for k in range(S - 1):
        a, b = (k + 1) * n - 1, (k + 1) * n
        for oi in np.ndindex(*w.shape[:2]):
            l, r = w[oi + (a,)], w[oi + (b,)]
            w[oi + (a,)] = l - (l - r) * f * F(1, 2)
            w[oi + (b,)] = r + (l - r) * f * F(1, 2)
    return w


def layer(h, kind, n, S, i, o, f, times=1, length=2):
    from high_order_layers_torch.layers import high_order_fc_layers
    from high_order_layers_torch.PolynomialLayers import smooth_discontinuous_layer

    L = high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, length=float(length))
    h.set(L.w, "w", -4, 4)
    exp = h.e(L.w).copy()
    for t in range(times):
        smooth_discontinuous_layer(L, float(f))
        exp = smooth_ref(exp, n, S, F(f))
        h.close(L.w, exp, f"coefficients after application {t + 1}")
    if not L.w.requires_grad:
        h.fail("coefficients no longer trainable")


def gap(h, n, S, f):
    """Through the forward pass: the jump at each boundary shrinks to (1 - factor) of itself."""
    from high_order_layers_torch.layers import high_order_fc_layers
    from high_order_layers_torch.PolynomialLayers import smooth_discontinuous_layer

    L = high_order_fc_layers(layer_type="discontinuous", n=n, in_features=1, out_features=1, segments=S)
    h.set(L.w, "w", -4, 4)
    w0 = h.e(L.w).copy()
    smooth_discontinuous_layer(L, float(f))
    x = h.scalar("x", -F(9, 8), F(9, 8))
    w1 = smooth_ref(w0, n, S, F(f))
    h.close(h.e(L(h.tensor(np.array([[x]], dtype=object)))).reshape(-1), [ref.piecewise(w1[0, 0], n, S, x, continuous=False)], "smoothed function", tol=F(1, 100))
    wb = h.e(L.w)[0, 0]
    for k in range(S - 1):
        a, b = (k + 1) * n - 1, (k + 1) * n
        h.close(wb[a] - wb[b], (w0[0, 0, a] - w0[0, 0, b]) * (1 - F(f)), f"jump {k}")


def network(h, kinds, n, S, f, norm=None):
    from high_order_layers_torch import layers as LL
    from high_order_layers_torch.networks import HighOrderMLP, smooth_discontinuous_network

    kw = {"normalization": getattr(LL, norm)} if norm else {}
    net = HighOrderMLP(layer_type=kinds[1], layer_type_in=kinds[0], n=n, in_width=1, hidden_width=2, out_width=1, hidden_layers=1, in_segments=S,
                       hidden_segments=S + 1, out_segments=S, **kw)
    exp = {}
    for q, (name, p) in enumerate(net.named_parameters()):
        h.set(p, f"w{q}", -1, 1)
        w = h.e(p)
        N = w.shape[2] if w.ndim == 3 else 0
        disc = w.ndim == 3 and N % n == 0 and N // n in (S, S + 1)
        exp[name] = smooth_ref(w, n, N // n, F(f)) if disc else w.copy()
    if not any("discontinuous" in k for k in kinds):
        exp = {k: h.e(p).copy() for k, p in net.named_parameters()}
    smooth_discontinuous_network(net, float(f))
    for name, p in net.named_parameters():
        h.close(p, exp[name], f"{name}")


def any_factor(h, kind, n, S, i, o, times=1, per=None, length=2, double=False):
    """The factor itself is an unknown; a saved copy of the coefficients is left alone."""
    from high_order_layers_torch.layers import high_order_fc_layers
    from high_order_layers_torch.PolynomialLayers import smooth_discontinuous_layer

    kw = {} if per is None else {"periodicity": float(per)}
    L = high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, length=float(length), **kw)
    if double:
        L = L.double()
    other = high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, length=float(length), **kw)
    h.set(L.w, "w", -4, 4)
    h.set(other.w, "v", -4, 4)
    kept, exp = h.e(other.w).copy(), h.e(L.w).copy()
    for t in range(times):
        f = h.scalar(f"f{t}", -2, 2)
        smooth_discontinuous_layer(L, h.tensor(np.array(f, dtype=object), L.w.dtype))
        exp = smooth_ref(exp, n, S, f)
    h.close(L.w, exp, "coefficients")
    h.close(other.w, kept, "coefficients of another layer")


class Nested(torch.nn.Module):
    def __init__(self, model):
        super().__init__()
        self.model = model


def nested(h, n, S, f, twice=False):
    """Discontinuous layers at any depth of the network, each exactly once."""
    from high_order_layers_torch.layers import SwitchLayer, high_order_fc_layers
    from high_order_layers_torch.networks import smooth_discontinuous_network

    mk = lambda kind, i, o, s: high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=s)
    a, b, c, d = mk("discontinuous", 2, 1, S), mk("discontinuous_prod", 1, 2, S + 1), mk("continuous", 2, 2, S), mk("discontinuous", 2, 2, S + 2)
    lin = torch.nn.Linear(2, 2)
    inner = torch.nn.Sequential(lin, torch.nn.ModuleDict({"d": d, "again": a if twice else torch.nn.Identity()}))
    net = Nested(torch.nn.Sequential(a, torch.nn.ReLU(), torch.nn.ModuleList([b, inner]), c, *([a, b] if twice else [])))
    exp = []
    for q, m in enumerate((a, b, c, d)):
        h.set(m.w, f"w{q}", -1, 1)
        s = {0: S, 1: S + 1, 3: S + 2}.get(q)
        exp.append((m.w, h.e(m.w).copy() if s is None else smooth_ref(h.e(m.w), n, s, F(f)), f"layer {q}"))
    h.set(lin.weight, "lw", -1, 1)
    h.set(lin.bias, "lb", -1, 1)
    exp += [(lin.weight, h.e(lin.weight).copy(), "linear weight"), (lin.bias, h.e(lin.bias).copy(), "linear bias")]
    smooth_discontinuous_network(net, float(f))
    for w, e, what in exp:
        h.close(w, e, what)


def jobs(tier):
    J = []
    for n, S, i, o, f, t, Ln in [(2, 1, 1, 1, F(1, 2), 1, 2), (2, 2, 1, 1, F(1, 2), 1, 2), (2, 3, 2, 1, 1, 1, 2), (3, 2, 1, 3, F(1, 4), 2, 2), (3, 4, 2, 2, F(1, 2), 3, 1),
                                 (5, 2, 1, 1, F(3, 2), 1, 4), (4, 3, 1, 2, 0, 1, 2), (6, 7, 1, 1, F(1, 2), 1, 2), (2, 6, 3, 3, F(1, 4), 2, 2)]:
        for kind in ("discontinuous", "discontinuous_prod"):
            J.append(job(f"{kind} n={n} S={S} {i}->{o} f={f} x{t} length={Ln}", layer, kind=kind, n=n, S=S, i=i, o=o, f=f, times=t, length=Ln))
    for n, S, f in [(2, 2, F(1, 2)), (3, 3, F(1, 4)), (4, 2, 1)]:
        J.append(job(f"jump n={n} S={S} f={f}", gap, n=n, S=S, f=f))
    J.append(job("network discontinuous", network, kinds=("discontinuous", "discontinuous"), n=3, S=2, f=F(1, 2)))
    J.append(job("network switch", network, kinds=("switch_discontinuous", "switch_discontinuous"), n=3, S=2, f=F(1, 2)))
    J.append(job("network mixed", network, kinds=("continuous", "discontinuous"), n=3, S=2, f=F(1, 4)))
    J.append(job("network mixed norm", network, kinds=("discontinuous", "continuous"), n=3, S=2, f=1, norm="MaxAbsNormalization"))
    J.append(job("network products", network, kinds=("discontinuous_prod", "discontinuous"), n=4, S=2, f=F(1, 2)))
    J.append(job("network without discontinuous layers", network, kinds=("continuous", "continuous"), n=3, S=2, f=F(1, 2)))
    for q, c in enumerate(covering(kind=("discontinuous", "discontinuous_prod"), n=(2, 3, 4, 5, 9), S=(1, 2, 3, 8), i=(1, 2, 3), o=(1, 2, 3), times=(1, 2), per=(None, 2, F(3, 2)),
                                   length=(2, F(1, 2), 4), double=(False, True))):
        J.append(job(f"any factor {q} {c}", any_factor, **c))
    J.append(job("any factor S=40", any_factor, kind="discontinuous", n=3, S=40, i=1, o=1))
    for n, S, f, tw in [(2, 2, F(1, 2), False), (3, 1, F(1, 4), True), (4, 2, 1, True)]:
        J.append(job(f"nested n={n} S={S} f={f} twice={tw}", nested, n=n, S=S, f=f, twice=tw))
    if tier == "thorough":
        for n in range(2, 9):
            for S in range(1, 12, 2):
                J.append(job(f"thorough n={n} S={S}", layer, kind="discontinuous", n=n, S=S, i=2, o=2, f=F(1, 4), times=3))
    return J
