"""C25: switch layers multiply, sum layers add the outputs of their children."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering, pinned
from .netlib import Cut, after, fill, layer_ref, norm_class, registered, relu
from .ref import job

BOUNDS = ("SwitchLayer over continuous, discontinuous, polynomial, product and linear children, 1..3 children, orders n<=4, segments<=4, lengths {1,2,4}, "
          "inputs<=2, outputs<=2, batches<=2, with and without normalisation; SumLayer over 1..4 children of mixed kinds; coefficients symbolic in [-1,1], "
          "one input element over all segments. Gradients: every coefficient and the input, upstream gradients symbolic. "
          "Every pair of settings occurs together, with up to 3 inputs, outputs and samples and 4 children; a batch of 130.")
OUTSIDE = "the period of a switch layer, which its children do not use"
TOL = F(1, 200)


def kid(kind):
    return {"baseline": "linear", "baseline_relu": "linear"}.get(kind, kind)


def child_ref(h, mod, kind, n, S, i, o, xa, half):
    r = layer_ref(h, mod, kid(kind), n, S, i, o, xa, half)
    return relu(r) if kind == "baseline_relu" else r


def combine(vals, mul):
    out = ref.obj(vals[0].shape)
    for ix in np.ndindex(*out.shape):
        acc = vals[0][ix]
        for v in vals[1:]:
            acc = acc * v[ix] if mul else acc + v[ix]
        out[ix] = acc
    return out


def children(L):
    """The children of a switch or sum layer, in order."""
    while True:
        kids = list(L.children())
        lists = [m for m in kids if isinstance(m, torch.nn.ModuleList)]
        if not lists:
            return kids
        L = lists[0]


def switch(h, kind, n, S, i, o, b, k=2, length=2, norm=None, via=None, dtype=torch.float32, free=(0, 0)):
    """The composition: children are cut points with arbitrary outputs."""
    from high_order_layers_torch.layers import SwitchLayer, high_order_fc_layers

    kw = dict(n=n, in_features=i, out_features=o, segments=S)
    if length is not None:
        kw["length"] = float(length)
    half = F(length or 2) / 2
    if k != 2:
        kw["num_input_layers"] = k
    if norm:
        kw["normalization"] = norm_class(norm)()
    L = high_order_fc_layers(layer_type=via, **kw) if via else SwitchLayer(layer_type=kind, **kw)
    L.eval()
    if dtype is torch.float64:
        L = L.double()
    fill(h, L)
    xa = pinned(h, "x", (b, i), S, half, (free,))
    x = h.tensor(xa, dtype)
    c = Cut(h, L, S=1, half=F(1))
    y = L(x)
    c.close()
    if len(c.calls) != k:
        h.fail(f"{len(c.calls)} children were evaluated, expected {k}")
    vals = []
    for q, (mod, xin, yout, new) in enumerate(c.calls):
        h.close(xin, xa, f"input of child {q}")
        h.close(yout, layer_ref(h, mod, kid(kind), n, S, i, o, xa, half), f"output of child {q}", tol=TOL)
        vals.append(relu(new) if kind == "baseline_relu" else new)
    if len({id(m[0]) for m in c.calls}) != k:
        h.fail("two children are the same layer")
    registered(h, L, [m[0] for m in c.calls])
    h.close(y, after(combine(vals, True), norm, False), "switch output", tol=TOL)
    h.close(x, xa, "input left as it was")


def direct(h, kind, n, S, i, o, k=2):
    """Without cut points: the product of the children's functions of the input."""
    from high_order_layers_torch.layers import SwitchLayer

    kw = {} if k == 2 else {"num_input_layers": k}
    L = SwitchLayer(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, **kw)
    fill(h, L)
    xa = pinned(h, "x", (1, i), S, F(1), ((0, 0),))
    for t in range(2):
        y = L(h.tensor(xa))
        vals = [child_ref(h, elem(m), kind, n, S, i, o, xa, F(1)) for m in children(L)]
        h.close(y, combine(vals, True), f"switch output, evaluation {t + 1}", tol=TOL)


def elem(m):
    """The elementary layer inside an adapter."""
    lin = [q for q in m.modules() if isinstance(q, torch.nn.Linear)]
    return lin[0] if lin else m


def added(h, kinds, n, S, i, o, b=1, length=2):
    from high_order_layers_torch.layers import SumLayer, high_order_fc_layers

    half = F(length) / 2
    ls = [high_order_fc_layers(layer_type=k, n=n, in_features=i, out_features=o, segments=S, length=float(length)) for k in kinds]
    L = SumLayer(layer_list=ls)
    fill(h, L)
    registered(h, L, ls)
    xa = pinned(h, "x", (b, i), S, half, ((0, 0),))
    x = h.tensor(xa)
    for t in range(2):
        y = L(x)
        vals = [child_ref(h, elem(m), k, n, S, i, o, xa, half) for m, k in zip(ls, kinds)]
        h.close(y, combine(vals, False), f"sum output, evaluation {t + 1}", tol=TOL)
    h.close(x, xa, "input left as it was")


def grads(h, kind, n, S, i, o, k=2, mul=True):
    """Gradients of a switch (sum) layer are those of the product (sum) of its children."""
    from high_order_layers_torch.layers import SumLayer, SwitchLayer, high_order_fc_layers

    if mul:
        L = SwitchLayer(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, num_input_layers=k)
    else:
        L = SumLayer(layer_list=[high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S) for _ in range(k)])
    fill(h, L)
    xa = pinned(h, "x", (1, i), S, F(1), ((0, 0),))
    x = h.tensor(xa).requires_grad_(True)
    g = h.real("g", (1, o), -1, 1)
    kids = children(L)
    used = [p for m in kids for p in m.parameters() if p.ndim >= 2]
    try:
        got = torch.autograd.grad(L(x), used + [x], grad_outputs=g)
    except RuntimeError as e:
        h.fail(f"gradient of the layer raised: {e}")
    # each child on its own (its gradients are property C05's)
    outs = [m(x) for m in kids]
    vals = [h.e(v) for v in outs]
    ga = h.e(g)
    tx = None
    for q, (m, v) in enumerate(zip(kids, outs)):
        up = ref.obj((1, o))
        for ix in np.ndindex(1, o):
            up[ix] = ga[ix]
            if mul:
                for r in range(k):
                    if r != q:
                        up[ix] = up[ix] * vals[r][ix]
        ps = [p for p in m.parameters() if p.ndim >= 2]
        part = torch.autograd.grad(v, ps + [x], grad_outputs=h.tensor(up), retain_graph=True)
        for p, e in zip(ps, part[:-1]):
            h.close(got[[id(u) for u in used].index(id(p))], h.e(e), f"gradient of the coefficients of child {q}", tol=TOL)
        e = h.e(part[-1])
        tx = e if tx is None else combine([tx, e], False)
    h.close(got[-1], tx, "gradient of the input", tol=TOL)


def jobs(tier):
    J = []
    deep = tier == "thorough"
    for kind, n, S, i, o, b, k, ln in [("continuous", 3, 3, 2, 2, 1, 2, 2), ("discontinuous", 2, 4, 2, 1, 2, 2, 4), ("polynomial", 4, 1, 2, 2, 1, 2, 2),
                                       ("continuous", 2, 2, 1, 2, 2, 3, 1), ("discontinuous", 3, 2, 1, 2, 1, 1, 2), ("continuous_prod", 2, 2, 2, 1, 1, 2, 2),
                                       ("baseline", 2, 1, 2, 2, 2, 2, 2), ("product", 2, 1, 2, 1, 1, 2, 2), ("polynomial", 3, 1, 1, 2, 2, 4, 4),
                                       ("baseline_relu", 2, 1, 1, 2, 1, 2, 2)]:
        J.append(job(f"switch {kind} n={n} S={S} {i}->{o} b={b} children={k} length={ln}", switch, kind=kind, n=n, S=S, i=i, o=o, b=b, k=k, length=ln))
    for norm in ("max_abs", "max_center", "l2"):
        J.append(job(f"switch continuous {norm}", switch, kind="continuous", n=2, S=2, i=1, o=2, b=1, norm=norm))
        J.append(job(f"switch discontinuous {norm} 3 children", switch, kind="discontinuous", n=2, S=2, i=2, o=2, b=1, k=3, norm=norm))
    for via, kind in (("switch_continuous", "continuous"), ("switch_discontinuous", "discontinuous")):
        for n, S, k, ln in [(3, 2, 2, 2), (2, 4, 3, 4)]:
            J.append(job(f"{via} n={n} S={S} children={k} length={ln}", switch, kind=kind, n=n, S=S, i=2, o=2, b=1, k=k, length=ln, via=via))
    for kind, n, S, i, o, k in [("continuous", 3, 3, 1, 1, 2), ("discontinuous", 3, 2, 2, 2, 2), ("continuous", 2, 3, 1, 2, 3), ("polynomial", 3, 1, 2, 1, 2)]:
        J.append(job(f"product of functions {kind} n={n} S={S} {i}->{o} children={k}", direct, kind=kind, n=n, S=S, i=i, o=o, k=k))
    for kinds, n, S, i, o in [(("continuous",), 3, 2, 2, 2), (("continuous", "discontinuous"), 2, 3, 2, 1), (("baseline", "continuous", "polynomial"), 3, 2, 2, 2),
                              (("discontinuous", "continuous", "baseline_relu", "polynomial"), 2, 2, 1, 2), (("product", "baseline"), 2, 1, 2, 2)]:
        J.append(job(f"sum of {'+'.join(kinds)} n={n} S={S}", added, kinds=kinds, n=n, S=S, i=i, o=o))
    for kind, n, S, i, o, k in [("continuous", 3, 2, 1, 2, 2), ("discontinuous", 2, 3, 2, 1, 3), ("polynomial", 3, 1, 2, 2, 2), ("baseline", 2, 1, 2, 2, 2), ("baseline_relu", 2, 1, 2, 1, 2)]:
        J.append(job(f"gradient of product {kind} children={k}", grads, kind=kind, n=n, S=S, i=i, o=o, k=k))
        J.append(job(f"gradient of sum {kind} children={k}", grads, kind=kind, n=n, S=S, i=i, o=o, k=k, mul=False))
    KD = ("continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "polynomial_prod", "baseline", "baseline_relu", "product")
    for q, c in enumerate(covering(kind=KD, n=(2, 3, 4), S=(1, 2, 3), i=(1, 2, 3), o=(1, 2, 3), b=(1, 2, 3), k=(1, 2, 3, 4), length=(None, 1, 4), norm=(None, "max_abs"), via=(False, True),
                                   dtype=(torch.float32, torch.float64), valid=lambda kind, via, i, k, n, norm, o, b, **_: (not via or kind in ("continuous", "discontinuous"))
                                   and (norm is None or b * o <= 2) and (kind != "baseline_relu" or k * o * b <= 6) and (not kind.endswith("_prod") or n ** i <= 9))):
        c["via"] = "switch_" + c["kind"] if c["via"] else None
        J.append(job(f"switch settings {q} {c}", switch, free=(c["b"] - 1, c["i"] - 1), **c))
    J.append(job("switch batch of 130", switch, kind="continuous", n=2, S=2, i=1, o=1, b=130, free=(129, 0)))
    for q, c in enumerate(covering(kinds=(("continuous", "continuous"), ("discontinuous", "baseline"), ("polynomial", "product", "continuous"), ("baseline_relu", "discontinuous", "polynomial")),
                                   n=(2, 3, 4), S=(1, 2, 3), i=(1, 2, 3), o=(1, 2, 3), b=(1, 2, 3), length=(1, 2, 4),
                                   valid=lambda kinds, o, b, **_: "baseline_relu" not in kinds or o * b <= 4)):
        J.append(job(f"sum settings {q} {c}", added, **c))
    if deep:
        for n in (2, 3, 4):
            for S in (1, 2, 4, 5):
                J.append(job(f"switch deep n={n} S={S}", direct, kind="continuous", n=n, S=S, i=2, o=2))
                J.append(job(f"switch deep disc n={n} S={S}", direct, kind="discontinuous", n=n, S=S, i=2, o=2, k=3))
    return J
