"""C22: fully connected networks are the documented chain of layers."""
import math
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering, pinned
from .netlib import Cut, after, fill, layer_ref, norm_class, registered
from .ref import job

BOUNDS = ("HighOrderMLP, HighOrderMLPList, HighOrderMultiMLP, LowOrderMLP: up to 3 hidden layers, widths<=3, orders n<=4 and segments<=3 chosen per layer, "
          "scales {1,2,4}, normalisation, nonlinearity, residual and dropout (evaluation mode) options; every layer is a cut point with symbolic "
          "coefficients in [-1,1] and symbolic inputs (one element over all segments, the others inside one).")
OUTSIDE = "dropout in training mode; networks on other devices"
TOL = F(1, 200)


def start(h, net, b, i, S, half, free, norm=None, act=False, per=None):
    net.eval()
    fill(h, net)
    if per:
        # elements of periodic layers sit inside the period and inside one segment
        q = F(per) / 2 / half
        S = S * q.numerator if q <= 1 else S
        half = min(half, F(per) / 2)
    if act:
        S = 2 * S  # pinned elements keep their sign
    xa = pinned(h, "x", (b, i), S, half, ((0, 0),) if free is None else (), F(1, 8), pick=3)
    # with a normalisation the pinned elements sit in small cells, which fixes most of their order
    c = Cut(h, net, S=S, half=half, free=free, cells=8 * S if norm else None, inputs=bool(norm))
    y = net(h.tensor(xa))
    c.close()
    return xa, c, y


def walk(h, c, spec, xa, half, per, norm, act, resnet=(), pos=0, last=True, tail=False):
    """Check calls pos.. against spec; returns (position, value after the chain)."""
    cur = xa
    for k, (kind, n, S, i, o) in enumerate(spec):
        if pos >= len(c.calls):
            h.fail(f"only {len(c.calls)} layers were evaluated")
        mod, xin, yout, new = c.calls[pos]
        h.close(xin, cur, f"input of layer {pos}", tol=TOL)
        if xin.shape != cur.shape:
            h.fail(f"input of layer {pos} has shape {xin.shape}")
        h.close(yout, layer_ref(h, mod, kind, n, S, i, o, c.args[pos], half, per), f"output of layer {pos}", tol=TOL)
        out = new
        if k in resnet:
            out = ref.obj(new.shape)
            for ix in np.ndindex(*new.shape):
                out[ix] = new[ix] + xin[ix]
        end = k == len(spec) - 1
        nk = norm[k] if isinstance(norm, list) else norm
        ak = act[k] if isinstance(act, list) else act
        cur = out if end and not tail else after(out, nk, ak)
        pos += 1
    return pos, cur


def finish(h, net, c, pos, cur, y):
    if pos != len(c.calls):
        h.fail(f"{len(c.calls)} layers were evaluated, expected {pos}")
    h.close(y, cur, "network output", tol=TOL)
    mods = [k[0] for k in c.calls]
    if len({id(m) for m in mods}) != len(mods):
        h.fail("a layer is used twice")
    registered(h, net, mods)


def mlp(h, kind, n, widths, hidden, S=(1, 1, 1), ns=(None, None, None), norm=None, act=False, resnet=False, dropout=0.0, scale=2, per=None,
        kind_in=None, b=1, free=None):
    from high_order_layers_torch.networks import HighOrderMLP

    kw = dict(zip(("n_in", "n_hidden", "n_out"), ns))
    kw = {k: v for k, v in kw.items() if v is not None}
    if norm:
        kw["normalization"] = norm_class(norm)
    if act:
        kw["non_linearity"] = torch.nn.ReLU()
    if resnet:
        kw["resnet"] = True
    if dropout:
        kw["dropout"] = dropout
    if per:
        kw["periodicity"] = float(per)
    if kind_in:
        kw["layer_type_in"] = kind_in
    if scale != 2:
        kw["scale"] = float(scale)
    a, w, o = widths
    net = HighOrderMLP(layer_type=kind, n=n, in_width=a, out_width=o, hidden_layers=hidden, hidden_width=w,
                       in_segments=S[0], hidden_segments=S[1], out_segments=S[2], **kw)
    half = F(scale) / 2
    xa, c, y = start(h, net, b, a, math.lcm(*S), half, free, norm, act, per)
    N = [v or n for v in ns]
    spec = [(kind_in or kind, N[0], S[0], a, w)] + [(kind, N[1], S[1], w, w)] * hidden + [(kind, N[2], S[2], w, o)]
    pos, cur = walk(h, c, spec, xa, half, per, norm, act, resnet=range(2, hidden + 1) if resnet else ())
    finish(h, net, c, pos, cur, y)


def mlplist(h, kinds, ns, widths, S, norm=None, act=None, scale=2, b=1, free=None, per=None):
    from high_order_layers_torch.networks import HighOrderMLPList

    kw = {}
    if norm:
        kw["normalization"] = [norm_class(v) for v in norm]
    if act:
        kw["non_linearity"] = [torch.nn.ReLU() if v else None for v in act]
    if scale != 2:
        kw["scale"] = float(scale)
    if per:
        kw["periodicity"] = float(per)
    net = HighOrderMLPList(layer_type=list(kinds), n=list(ns), width=list(widths), segments=list(S), **kw)
    half = F(scale) / 2
    xa, c, y = start(h, net, b, widths[0], math.lcm(*S), half, free, norm, act, per)
    spec = [(kinds[k], ns[k], S[k], widths[k], widths[k + 1]) for k in range(len(kinds))]
    pos, cur = walk(h, c, spec, xa, half, per, norm or None, act or False)
    finish(h, net, c, pos, cur, y)


def refuses(h, kinds, widths):
    from high_order_layers_torch.networks import HighOrderMLPList

    bad = False
    try:
        HighOrderMLPList(layer_type=["continuous"] * kinds, n=[2] * kinds, width=[1] * widths, segments=[1] * kinds)
    except ValueError:
        bad = True
    h.true([bad == (widths != kinds + 1)], f"{kinds} layers with {widths} widths")


def multi(h, kind, n, replicas, widths, hidden, S=(1, 1, 1), ns=(None, None, None), norm=None, act=False, scale=2, b=1, free=None, dropout=0.0):
    from high_order_layers_torch.networks import HighOrderMultiMLP

    kw = dict(zip(("n_in", "n_hidden", "n_out"), ns))
    kw = {k: v for k, v in kw.items() if v is not None}
    if norm:
        kw["normalization"] = norm_class(norm)
    if act:
        kw["non_linearity"] = torch.nn.ReLU()
    if dropout:
        kw["dropout"] = dropout
    if scale != 2:
        kw["scale"] = float(scale)
    a, w, o = widths
    net = HighOrderMultiMLP(layer_type=kind, n=n, replicas=replicas, in_width=a, out_width=o, hidden_layers=hidden, hidden_width=w,
                            in_segments=S[0], hidden_segments=S[1], out_segments=S[2], **kw)
    half = F(scale) / 2
    xa, c, y = start(h, net, b, a, math.lcm(*S), half, free, norm, act)
    N = [v or n for v in ns]
    pos, cur = walk(h, c, [(kind, N[0], S[0], a, w)], xa, half, None, norm, act, tail=True)
    tot = None
    for _ in range(replicas):
        pos, r = walk(h, c, [(kind, N[1], S[1], w, w)] * (hidden + 2), cur, half, None, norm, act, pos=pos)
        if tot is None:
            tot = r
        else:
            s = ref.obj(r.shape)
            for ix in np.ndindex(*r.shape):
                s[ix] = tot[ix] + r[ix]
            tot = s
    pos, cur = walk(h, c, [(kind, N[2], S[2], w, o)], after(tot, norm, act), half, None, norm, act, pos=pos)
    finish(h, net, c, pos, cur, y)


def low(h, widths, hidden, norm=None, act=False, b=1):
    from high_order_layers_torch.networks import LowOrderMLP

    a, w, o = widths
    kw = {}
    if norm:
        kw["normalization"] = norm_class(norm)
    if act:
        kw["non_linearity"] = torch.nn.ReLU()
    net = LowOrderMLP(in_width=a, out_width=o, hidden_layers=hidden, hidden_width=w, **kw)
    xa, c, y = start(h, net, b, a, 1, F(1), None, norm)
    spec = [("linear", 0, 0, a, w)] + [("linear", 0, 0, w, w)] * hidden + [("linear", 0, 0, w, o)]
    pos, cur = walk(h, c, spec, xa, F(1), None, norm, act)
    finish(h, net, c, pos, cur, y)


def initial(h, kind, how, n, S, widths, hidden):
    """The requested initialisation reaches every layer."""
    from high_order_layers_torch.networks import HighOrderMLP

    h.fresh_memory()
    a, w, o = widths
    with h.randomness():
        net = HighOrderMLP(layer_type=kind, n=n, in_width=a, out_width=o, hidden_layers=hidden, hidden_width=w,
                           in_segments=S, hidden_segments=S, out_segments=S, initialization=how)
    seen = []
    for p in net.parameters():
        if p.ndim != 3:
            continue
        e = h.e(p)
        i = e.shape[1]
        if how == "uniform":
            h.le(e, F(1, i), "uniform coefficient", slack=F(1, 10**5))
            h.le(-e, F(1, i), "uniform coefficient", slack=F(1, 10**5))
            seen += list(e.flat)
        else:
            h.le(e, F(1, i), "constant", slack=F(1, 10**5))
            h.le(-e, 0, "constant", slack=F(1, 10**5))
            for r in e.reshape(-1, e.shape[-1]):
                h.close(r[1:], [r[0]] * (len(r) - 1), "one constant per link", tol=F(1, 10**6))
                seen.append(r[0])
    if not seen:
        h.fail("no coefficients")
    h.distinct(seen, "initial values")


def jobs(tier):
    J = []
    M = lambda name, **k: J.append(job("mlp " + name, mlp, cost=4, **k))
    for kind in ("continuous", "discontinuous"):
        M(f"{kind} plain", kind=kind, n=3, widths=(2, 2, 1), hidden=1, S=(2, 2, 2))
        for f in (0, 1, 2):
            M(f"{kind} per layer orders and segments, free after {f}", kind=kind, n=5, ns=(2, 3, 4), widths=(2, 3, 1), hidden=2, S=(1, 3, 2), free=f)
        M(f"{kind} per layer, free input", kind=kind, n=5, ns=(4, 2, 3), widths=(1, 2, 2), hidden=1, S=(3, 1, 2))
        M(f"{kind} no hidden", kind=kind, n=3, ns=(None, None, 2), widths=(2, 2, 2), hidden=0, S=(2, 1, 3), free=0)
        M(f"{kind} only n_hidden", kind=kind, n=3, ns=(None, 2, None), widths=(1, 2, 1), hidden=2, S=(1, 2, 1), free=1)
        M(f"{kind} norm act", kind=kind, n=2, widths=(1, 2, 1), hidden=2, S=(1, 2, 1), norm="max_abs", act=True)
        M(f"{kind} resnet", kind=kind, n=2, widths=(1, 2, 1), hidden=3, S=(1, 1, 1), resnet=True)
        M(f"{kind} resnet norm", kind=kind, n=2, widths=(1, 2, 2), hidden=3, S=(1, 1, 1), resnet=True, norm="max_abs")
        M(f"{kind} dropout", kind=kind, n=2, widths=(2, 2, 2), hidden=2, S=(2, 1, 1), dropout=0.5)
        M(f"{kind} scale 4", kind=kind, n=3, widths=(1, 2, 1), hidden=1, S=(2, 2, 2), scale=4)
        M(f"{kind} scale 1", kind=kind, n=2, widths=(2, 1, 1), hidden=1, S=(2, 3, 2), scale=1, free=0)
        M(f"{kind} period", kind=kind, n=3, widths=(1, 2, 1), hidden=1, S=(2, 2, 2), per=2)
    M("continuous_prod", kind="continuous_prod", n=2, widths=(2, 2, 1), hidden=1, S=(2, 1, 2))
    M("discontinuous_prod", kind="discontinuous_prod", n=2, widths=(1, 2, 2), hidden=1, S=(2, 1, 2))
    M("polynomial", kind="polynomial", n=3, ns=(2, 3, 4), widths=(2, 2, 1), hidden=2)
    M("polynomial norm", kind="polynomial", n=2, widths=(2, 2, 2), hidden=1, norm="max_abs")
    M("polynomial_prod", kind="polynomial_prod", n=2, widths=(2, 2, 1), hidden=1)
    M("fourier", kind="fourier", n=3, ns=(2, 3, 4), widths=(2, 2, 1), hidden=1)
    M("product", kind="product", n=2, widths=(2, 3, 1), hidden=2)
    M("continuous input", kind="discontinuous", kind_in="continuous", n=3, widths=(2, 2, 1), hidden=1, S=(2, 2, 2))
    M("polynomial input", kind="continuous", kind_in="polynomial", n=3, widths=(2, 2, 1), hidden=0, S=(1, 2, 2), free=0)
    M("l2 norm batch", kind="continuous", n=2, widths=(1, 2, 1), hidden=1, S=(1, 1, 1), norm="l2", b=2)
    M("max_center norm", kind="continuous", n=2, widths=(1, 2, 1), hidden=1, S=(1, 1, 1), norm="max_center", b=1)
    L = lambda name, **k: J.append(job("list " + name, mlplist, cost=4, **k))
    for f in (None, 0, 1):
        L(f"three kinds free={f}", kinds=("continuous", "discontinuous", "polynomial"), ns=(2, 3, 4), widths=(2, 3, 2, 1), S=(3, 2, 1), free=f)
    L("one layer", kinds=("continuous",), ns=(3,), widths=(2, 2), S=(2,))
    L("two layers scale", kinds=("discontinuous", "continuous"), ns=(2, 3), widths=(1, 2, 2), S=(2, 3), scale=4, free=0)
    L("norm and act", kinds=("continuous", "polynomial", "discontinuous"), ns=(2, 2, 3), widths=(1, 2, 2, 1), S=(1, 1, 2), norm=["max_abs", None, None], act=[False, True, False])
    L("act", kinds=("polynomial", "polynomial"), ns=(2, 3), widths=(1, 2, 1), S=(1, 1), act=[True, False])
    L("period", kinds=("continuous", "continuous"), ns=(2, 3), widths=(1, 1, 1), S=(2, 2), per=2)
    for k, w in ((1, 2), (2, 2), (2, 3), (3, 5)):
        J.append(job(f"list widths {k}/{w}", refuses, kinds=k, widths=w))
    U = lambda name, **k: J.append(job("multi " + name, multi, cost=4, **k))
    U("two replicas", kind="continuous", n=2, replicas=2, widths=(2, 2, 1), hidden=1, S=(2, 1, 2))
    U("three replicas per layer", kind="discontinuous", n=5, ns=(2, 3, 4), replicas=3, widths=(1, 2, 2), hidden=0, S=(1, 2, 3), free=0)
    U("norm", kind="continuous", n=2, replicas=2, widths=(1, 2, 1), hidden=0, norm="max_abs")
    U("act", kind="polynomial", n=2, replicas=2, widths=(1, 2, 1), hidden=0, act=True)
    U("scale", kind="continuous", n=2, replicas=1, widths=(1, 2, 1), hidden=1, S=(2, 2, 2), scale=4, dropout=0.5)
    for hid, norm, act in ((0, None, False), (2, None, True), (1, "max_abs", False), (1, "max_abs", True), (3, None, False)):
        J.append(job(f"low hidden={hid} norm={norm} act={act}", low, widths=(2, 2, 1), hidden=hid, norm=norm, act=act))
    for kind in ("continuous", "discontinuous", "polynomial"):
        for how in ("uniform", "constant_random"):
            J.append(job(f"initial {kind} {how}", initial, kind=kind, how=how, n=3, S=1 if kind[0] == "p" else 2, widths=(2, 3, 1), hidden=1))
    fit = lambda kind, ns, S: not kind.startswith("polynomial") or S == (1, 1, 1)
    ok = lambda kind, ns, widths, hidden, S, norm, act, resnet, per, scale, b, free, kind_in, **k: (
        fit(kind, ns, S) and not (kind_in and kind_in.startswith("polynomial") and S[0] > 1)
        and not (norm and (b > 1 or norm != "max_abs" and widths[1] > 2 or act and free is not None))
        and not (resnet and hidden > 1 and (norm or act or b * widths[1] > 2 or kind.endswith("prod")))
        and not (kind.endswith("prod") and (max(widths[:2]) > 2 or max(ns, key=lambda v: v or 0) == 4 or b > 1))
        and not (free is not None and free > hidden) and not (act and free is not None and b > 1))
    for q, c in enumerate(covering(2, ok, kind=("continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "polynomial_prod"), n=(3, 2),
                                   ns=((None, None, None), (2, 3, 4), (4, 2, 3), (3, None, 2), (None, 4, None)), widths=((2, 2, 1), (1, 3, 2), (3, 1, 1), (1, 2, 3)), hidden=(1, 0, 2, 3),
                                   S=((1, 1, 1), (1, 2, 3), (3, 1, 2), (2, 3, 1)), norm=(None, "max_abs", "l2", "max_center"), act=(False, True), resnet=(False, True), dropout=(0.0, 0.5),
                                   scale=(2, 1, 4), per=(None, 2, 1), kind_in=(None, "discontinuous", "continuous", "polynomial"), b=(1, 2), free=(None, 0, 1, 2))):
        M(f"options {q}", **c)
    okl = lambda kinds, S, norm, act, b, per, free, widths, **k: (
        len(widths) == len(kinds) + 1 and not any(k == "polynomial" and s > 1 for k, s in zip(kinds, S)) and not (norm and (b > 1 or act and free is not None)) and not (free is not None and free >= len(kinds) - 1 and free > 0))
    for q, c in enumerate(covering(2, okl, kinds=(("continuous", "discontinuous", "polynomial"), ("discontinuous", "continuous_prod", "continuous"), ("polynomial", "continuous"), ("discontinuous", "discontinuous")),
                                   ns=((2, 3, 4), (4, 2, 3), (3, 4, 2)), widths=((2, 1, 2, 1), (1, 2, 2, 2), (2, 2, 1), (1, 2, 3)), S=((3, 2, 1), (1, 3, 2), (1, 1, 1)), norm=(None, ["max_abs", None, None], [None, "l2", None]),
                                   act=(None, [True, False, False], [False, True, False]), scale=(2, 1, 4), per=(None, 2, 1), b=(1, 2), free=(None, 0, 1))):
        m = len(c["kinds"])
        for k in ("norm", "act"):
            if c[k]:
                c[k] = c[k][:m]
        c["ns"], c["S"] = c["ns"][:m], c["S"][:m]
        L(f"options {q}", **c)
    oku = lambda kind, S, norm, act, b, free, widths, replicas, hidden, **k: fit(kind, None, S) and not (norm and (b > 1 or act)) and not (act and replicas > 2) and not (kind.endswith("prod") and widths[1] > 2)
    for q, c in enumerate(covering(2, oku, kind=("continuous", "discontinuous", "polynomial", "continuous_prod"), n=(3, 2), ns=((None, None, None), (2, 3, 4), (4, 2, 3), (3, None, 2)), replicas=(2, 1, 3),
                                   widths=((2, 2, 1), (1, 3, 2), (3, 1, 1)), hidden=(0, 1), S=((1, 1, 1), (1, 2, 3), (3, 1, 2)), norm=(None, "max_abs", "l2"), act=(False, True), scale=(2, 1, 4),
                                   b=(1, 2), free=(None, 0, 1), dropout=(0.0, 0.5))):
        U(f"options {q}", **c)
    if tier == "thorough":
        for kind in ("continuous", "discontinuous"):
            for hid in (0, 1, 2, 3):
                for f in [None] + list(range(hid + 1)):
                    M(f"thorough {kind} {hid} {f}", kind=kind, n=5, ns=(3, 4, 2), widths=(3, 2, 3), hidden=hid, S=(2, 4, 3), free=f, b=2)
                    M(f"thorough {kind} norm {hid} {f}", kind=kind, n=3, widths=(2, 3, 1), hidden=hid, S=(2, 2, 2), free=f, norm="max_abs", act=True)
    return J
