"""C10: network refinement: every piecewise layer of the target network gets the
source layer's function; a target of higher order (and subdivided segments)
computes the same outputs; the source network is untouched."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering
from .c08 import expected
from .ref import job

BOUNDS = ("networks with up to 3 hidden layers, widths<=3, orders 2..5, segments<=4, different per layer; all parameters of both networks "
          "in [-1,1]; output equality: symbolic inputs in [-1,1] with single-segment hidden layers and symbolic weights, and with "
          "several segments at fixed weights.")
OUTSIDE = "networks whose layers are not piecewise polynomials (their parameters have no finer target)"


def build(kind, n, S, widths, hidden, seg_h=None, seg_o=None, **kw):
    from high_order_layers_torch.networks import HighOrderMLP

    return HighOrderMLP(layer_type=kind, n=n, in_width=widths[0], hidden_width=widths[1], out_width=widths[2], hidden_layers=hidden,
                        in_segments=S, hidden_segments=seg_h or S, out_segments=seg_o or S, **kw)


def fill(h, net, tag, concrete=False):
    for q, p in enumerate(net.parameters()):
        if concrete:
            g = np.random.RandomState(hash((tag, q)) % 1000 if False else 17 * q + len(tag))
            h.assign(p, ref_rand(g, tuple(p.shape)))
        else:
            h.set(p, f"{tag}{q}", -1, 1)


def ref_rand(g, shape):
    a = ref.obj(shape)
    for ix in np.ndindex(*shape):
        a[ix] = F(int(g.randint(-24, 25)), 32)
    return a


NORM = {
    None: {},
    "max_abs": "MaxAbsNormalization",
}


def params(h, how, kind, n1, n2, S1, S2, widths, hidden, seg_h=(None, None), seg_o=(None, None), norm=None, resnet=False, dropout=0.0, kind_in=None, per=None):
    from high_order_layers_torch import layers as LL
    from high_order_layers_torch import networks as NN

    kw = {}
    if norm:
        kw["normalization"] = getattr(LL, NORM[norm])
    if resnet:
        kw["resnet"] = True
    if dropout:
        kw["dropout"] = dropout
    if kind_in:
        kw["layer_type_in"] = kind_in
    if per:
        kw["periodicity"] = per
    A = build(kind, n1, S1, widths, hidden, seg_h[0], seg_o[0], **kw)
    B = build(kind, n2, S2, widths, hidden, seg_h[1], seg_o[1], **kw)
    fill(h, A, "a")
    fill(h, B, "b")
    pa, pb = dict(A.named_parameters()), dict(B.named_parameters())
    wa = {k: h.e(p).copy() for k, p in pa.items()}
    if how == "p":
        NN.interpolate_high_order_mlp(A, B)
    else:
        NN.hp_refine_high_order_mlp(A, B)
    if set(pa) != set(pb) or not pa:
        h.fail("parameters of the two networks differ")
    for k, p in pa.items():
        h.close(p, wa[k], f"source parameter {k} unchanged")
    for k, p in pb.items():
        w = h.e(p)
        N1, N2 = wa[k].shape[2], w.shape[2]
        # with mixed kinds (n1=3, two segments) the coefficient count tells them apart
        cont = N1 % n1 != 0 if kind_in else "discontinuous" not in kind
        s1 = (N1 - 1) // (n1 - 1) if cont else N1 // n1
        s2 = (N2 - 1) // (n2 - 1) if cont else N2 // n2
        pos = ref.node_positions(n2, s2)
        for oo in range(w.shape[0]):
            for ii in range(w.shape[1]):
                if how == "p":
                    exp = expected(wa[k][oo, ii], n1, n2, s1, F(1), cont)
                else:
                    exp = [ref.piecewise(wa[k][oo, ii], n1, s1, q, F(1)) for q in pos]
                h.close(w[oo, ii], exp, f"parameter {k} link ({oo},{ii})")


def settings(h, how, kind, kind_in, na, nb, Sa, Sb, widths, hidden, norm, nonlin, resnet, dropout, scale, per):
    """Orders and segments (input, hidden, output) of the two networks; every other option."""
    from high_order_layers_torch import layers as LL
    from high_order_layers_torch import networks as NN

    def mk(n, S):
        kw = {}
        if norm:
            kw["normalization"] = getattr(LL, norm)
        if nonlin:
            kw["non_linearity"] = torch.nn.ReLU()
        if scale is not None:
            kw["scale"] = float(scale)
        return NN.HighOrderMLP(layer_type=kind, layer_type_in=kind_in, n=7, n_in=n[0], n_hidden=n[1], n_out=n[2], in_segments=S[0], hidden_segments=S[1], out_segments=S[2],
                               in_width=widths[0], hidden_width=widths[1], out_width=widths[2], hidden_layers=hidden, resnet=resnet, dropout=dropout, periodicity=per, **kw)

    half = F(2 if scale is None else scale) / 2
    A, B = mk(na, Sa), mk(nb, Sb)
    fill(h, A, "a")
    fill(h, B, "b")
    pa, pb = list(A.model.parameters()), list(B.model.parameters())
    if len(pa) != len(pb):
        h.fail("parameters of the two networks differ")
    wa = [h.e(p).copy() for p in pa]
    (NN.interpolate_high_order_mlp if how == "p" else NN.hp_refine_high_order_mlp)(A, B)
    for q, p in enumerate(pa):
        h.close(p, wa[q], f"source parameter {q} unchanged")
    kinds = [kind_in or kind] + [kind] * (hidden + 1)
    place = [0] + [1] * hidden + [2]
    owner = [q for q, k in enumerate(kinds) for _ in range(2 if k.startswith("switch") else 1)]
    if len(owner) != len(pa):
        h.fail(f"{len(pa)} parameters, expected {len(owner)}")
    for q, p in enumerate(pb):
        w, l = h.e(p), owner[q]
        cont = "discontinuous" not in kinds[l]
        n1, n2, s1, s2 = (v[place[l]] for v in (na, nb, Sa, Sb))
        pos = ref.node_positions(n2, s2, half)
        for ix in np.ndindex(*w.shape[:2]):
            v = wa[q][ix]
            h.close(w[ix], expected(v, n1, n2, s1, half, cont) if how == "p" else [ref.piecewise(v, n1, s1, t, half) for t in pos], f"parameter {q} link {ix}")


def outputs(h, how, kind, n1, n2, S1, S2, widths, hidden, concrete, b=1, norm=None, resnet=False):
    from high_order_layers_torch import layers as LL
    from high_order_layers_torch import networks as NN

    kw = {}
    if norm:
        kw["normalization"] = getattr(LL, NORM[norm])
    if resnet:
        kw["resnet"] = True
    A = build(kind, n1, S1, widths, hidden, **kw)
    B = build(kind, n2, S2, widths, hidden, **kw)
    fill(h, A, "a", concrete)
    fill(h, B, "b", concrete)
    if how == "p":
        NN.interpolate_high_order_mlp(A, B)
    else:
        NN.hp_refine_high_order_mlp(A, B)
    x = h.real("x", (b, widths[0]), -1, 1)
    h.close(B(x), h.e(A(x)), "same network output", tol=F(1, 50))


def jobs(tier):
    J = []
    P = lambda name, **k: J.append(job(name, params, cost=4, **k))
    for kind in ("continuous", "discontinuous"):
        P(f"p {kind} 2->3", how="p", kind=kind, n1=2, n2=3, S1=2, S2=2, widths=(1, 2, 1), hidden=1)
        P(f"p {kind} 3->5 hidden=2", how="p", kind=kind, n1=3, n2=5, S1=2, S2=2, widths=(2, 1, 3), hidden=2)
        P(f"p {kind} 4->2 hidden=0", how="p", kind=kind, n1=4, n2=2, S1=3, S2=3, widths=(3, 2, 1), hidden=0)
        P(f"p {kind} per-layer segments", how="p", kind=kind, n1=2, n2=4, S1=1, S2=1, seg_h=(3, 3), seg_o=(2, 2), widths=(1, 2, 2), hidden=2)
        P(f"p {kind} norm", how="p", kind=kind, n1=2, n2=3, S1=2, S2=2, widths=(1, 2, 1), hidden=2, norm="max_abs")
        P(f"p {kind} resnet norm", how="p", kind=kind, n1=2, n2=3, S1=2, S2=2, widths=(1, 2, 1), hidden=3, norm="max_abs", resnet=True)
        P(f"p {kind} resnet", how="p", kind=kind, n1=2, n2=3, S1=1, S2=1, widths=(1, 2, 1), hidden=3, resnet=True)
        P(f"p {kind} dropout", how="p", kind=kind, n1=2, n2=3, S1=2, S2=2, widths=(2, 1, 1), hidden=1, dropout=0.25)
        P(f"p switch_{kind}", how="p", kind="switch_" + kind, n1=2, n2=4, S1=2, S2=2, widths=(1, 2, 1), hidden=1)
    P("p continuous input, discontinuous rest", how="p", kind="discontinuous", kind_in="continuous", n1=3, n2=4, S1=2, S2=2, widths=(1, 1, 2), hidden=1)
    P("p periodic", how="p", kind="continuous", n1=3, n2=4, S1=2, S2=2, widths=(1, 1, 2), hidden=1, per=2.0)
    for n1, n2, S1, S2, hid in [(2, 2, 1, 2, 1), (3, 3, 2, 4, 2), (2, 3, 2, 3, 1), (3, 2, 3, 1, 0)]:
        P(f"hp n {n1}->{n2} S {S1}->{S2} hidden={hid}", how="hp", kind="continuous", n1=n1, n2=n2, S1=S1, S2=S2, widths=(2, 1, 2), hidden=hid)
    P("hp per-layer segments", how="hp", kind="continuous", n1=2, n2=3, S1=1, S2=2, seg_h=(2, 3), seg_o=(1, 4), widths=(1, 2, 1), hidden=2)
    P("hp norm", how="hp", kind="continuous", n1=2, n2=2, S1=1, S2=2, widths=(1, 2, 1), hidden=2, norm="max_abs")
    P("hp resnet norm", how="hp", kind="continuous", n1=2, n2=2, S1=1, S2=3, widths=(1, 2, 1), hidden=3, norm="max_abs", resnet=True)
    P("hp switch", how="hp", kind="switch_continuous", n1=2, n2=3, S1=1, S2=2, widths=(1, 2, 1), hidden=1)
    P("hp periodic", how="hp", kind="continuous", n1=2, n2=3, S1=1, S2=2, widths=(1, 1, 1), hidden=1, per=2.0)
    ok = lambda how, kind, kind_in, S, **k: how == "p" and S < 3 or how == "hp" and "disc" not in kind and "disc" not in (kind_in or "")
    segs = [((2, 1, 3), (2, 1, 3)), ((1, 3, 2), (1, 3, 2)), ((1, 2, 2), (1, 2, 2)), ((1, 2, 3), (2, 4, 3)), ((2, 1, 1), (3, 1, 5)), ((2, 3, 4), (2, 6, 2))]
    for q, c in enumerate(covering(2, ok, how=("p", "hp"), kind=("continuous", "discontinuous", "switch_continuous", "switch_discontinuous"), kind_in=(None, "continuous", "discontinuous", "switch_continuous"),
                                   n=(((2, 3, 4), (3, 4, 5)), ((3, 2, 2), (4, 5, 3)), ((4, 3, 2), (2, 3, 4)), ((2, 2, 3), (2, 3, 3))), S=range(6), widths=((2, 1, 3), (1, 2, 1), (3, 2, 2)),
                                   hidden=(1, 0, 2, 3), norm=(None, "MaxAbsNormalization", "L2Normalization", "MaxCenterNormalization"), nonlin=(False, True), resnet=(False, True), dropout=(0.0, 0.5),
                                   scale=(None, 1, 4), per=(None, 2.0, 1.0))):
        na, nb = c.pop("n")
        Sa, Sb = segs[c.pop("S")]
        J.append(job(f"settings {q}: {c['how']} {c['kind_in'] or ''} {c['kind']} n {na}->{nb} S {Sa}->{Sb}", settings, cost=5, na=na, nb=nb, Sa=Sa, Sb=Sb, **c))
    O = lambda name, **k: J.append(job(name, outputs, cost=6, **k))
    O("outputs p symbolic weights", how="p", kind="continuous", n1=2, n2=3, S1=1, S2=1, widths=(1, 1, 1), hidden=1, concrete=False)
    O("outputs p symbolic weights wide", how="p", kind="discontinuous", n1=2, n2=3, S1=1, S2=1, widths=(2, 2, 1), hidden=0, concrete=False)
    O("outputs hp fixed weights", how="hp", kind="continuous", n1=2, n2=2, S1=2, S2=4, widths=(1, 1, 1), hidden=0, concrete=True)
    O("outputs p fixed weights", how="p", kind="continuous", n1=2, n2=3, S1=2, S2=2, widths=(1, 2, 1), hidden=0, concrete=True)
    if tier == "thorough":
        for kind in ("continuous", "discontinuous"):
            for n1 in (2, 3, 4):
                for n2 in (2, 3, 5):
                    for hid in (0, 1, 3):
                        P(f"thorough p {kind} {n1}->{n2} hidden={hid}", how="p", kind=kind, n1=n1, n2=n2, S1=3, S2=3, widths=(2, 2, 2), hidden=hid)
        O("thorough outputs p fixed weights", how="p", kind="continuous", n1=2, n2=4, S1=2, S2=2, widths=(1, 2, 1), hidden=1, concrete=True)
    return J
