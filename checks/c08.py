"""C08: p-refinement of a layer: the target's coefficients are the source
function's values at the target's nodes; a target of at least the source's
order computes the same function; the source is untouched."""
from fractions import Fraction as F

import numpy as np
import torch

from . import c09, ref
from .common import covering, pinned
from .ref import job

BOUNDS = ("source and target orders 1..8, segments<=5, inputs<=3, outputs<=3, coefficients of the source and stale coefficients of the "
          "target in [-1,1], lengths {1,2,4}, periods; function equality for one input over all segments.")
OUTSIDE = "orders above 8"


def seg_value(w, n, S, k, t, half, cont):
    base = k * (n - 1) if cont else k * n
    L = ref.lagrange(n, t, half)
    acc = F(0)
    for j in range(n):
        acc = acc + L[j] * w[base + j]
    return acc


def expected(w, n1, n2, S, half, cont):
    """Coefficients of the target."""
    X2 = ref.nodes(n2, half)
    out = []
    for k in range(S):
        for j in range(n2):
            if cont and k and j == 0:
                continue
            out.append(seg_value(w, n1, S, k, X2[j], half, cont))
    return out


def pref(h, kind, n1, n2, S, i, o, length=2, per=None, tol=F(1, 1000), fwd=True):
    from high_order_layers_torch.layers import high_order_fc_layers

    half = F(2 if length is None else length) / 2
    opt = {} if length is None else {"length": float(length)}
    mk = lambda n: high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, periodicity=per, **opt)
    A, B = mk(n1), mk(n2)
    h.set(A.w, "a", -1, 1)
    h.set(B.w, "b", -1, 1)
    wa = h.e(A.w).copy()
    A.interpolate(B)
    cont = not kind.startswith("discontinuous")
    h.close(A.w, wa, "the source layer is unchanged")
    wb = h.e(B.w)
    for oo in range(o):
        for ii in range(i):
            h.close(wb[oo, ii], expected(wa[oo, ii], n1, n2, S, half, cont), f"target coefficients of link ({oo},{ii})", tol=tol)
    if n2 >= n1 and fwd:
        span = half if per is None else F(per) * F(3, 4)
        xa = pinned(h, "x", (1, i), S, half, (), F(1, 8))
        xa[0, 0] = h.scalar("x0", -span, span)
        x = h.tensor(xa)
        h.close(B(x), h.e(A(x)), "same function after p-refinement", tol=F(1, 200))


def guard(h, kind, s1, s2):
    """Different segment counts are refused."""
    from high_order_layers_torch.layers import high_order_fc_layers

    mk = lambda S: high_order_fc_layers(layer_type=kind, n=3, in_features=1, out_features=1, segments=S)
    A, B = mk(s1), mk(s2)
    h.set(A.w, "a", -1, 1)
    h.set(B.w, "b", -1, 1)
    try:
        A.interpolate(B)
    except ValueError:
        h.true([True], "refused")
        return
    h.fail("p-refinement between layers with different segment counts was accepted")


def jobs(tier):
    J = []
    for kind in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod"):
        cont = kind.startswith("continuous")
        lst = [(2, 3, 1, 1, 1), (2, 2, 3, 2, 1), (3, 5, 2, 2, 1), (2, 6, 3, 1, 3), (5, 3, 2, 1, 2), (4, 7, 2, 2, 3), (3, 4, 5, 3, 1), (6, 8, 1, 1, 1), (4, 2, 4, 2, 2), (3, 3, 2, 3, 2)]
        if not cont:
            lst += [(1, 3, 3, 1, 1), (1, 1, 2, 1, 2), (4, 1, 2, 1, 1)]
        if "prod" in kind:
            lst = lst[:5]
        for n1, n2, S, i, o in lst:
            J.append(job(f"{kind} {n1}->{n2} S={S} {i}->{o}", pref, kind=kind, n1=n1, n2=n2, S=S, i=i, o=o, cost=n1 * n2, fwd=("prod" not in kind or i < 3)))
        for Ln in (1, 4):
            J.append(job(f"{kind} length={Ln}", pref, kind=kind, n1=3, n2=4, S=2, i=1, o=2, length=Ln))
        if "prod" not in kind:
            J.append(job(f"{kind} period=2", pref, kind=kind, n1=2, n2=4, S=3, i=1, o=1, per=2))
            J.append(job(f"{kind} period=1", pref, kind=kind, n1=3, n2=4, S=2, i=1, o=1, per=1))
        J.append(job(f"{kind} mismatched segments", guard, kind=kind, s1=2, s2=3))
        J.append(job(f"{kind} mismatched segments 4/2", guard, kind=kind, s1=4, s2=2))
    for q, c in enumerate(covering(2, lambda kind, n1, n2, S, i, o, length, per: not (per and "prod" in kind) and not ("disc" not in kind and 1 in (n1, n2)), kind=("continuous", "continuous_prod", "discontinuous", "discontinuous_prod"),
                                   n1=(2, 3, 4, 1), n2=(3, 2, 5, 1), S=(2, 1, 3, 5), i=(2, 1, 3), o=(3, 1, 2), length=(None, 1, 3), per=(None, F(1, 2), 1, 2))):
        c["per"] = c["per"] and float(c["per"] * (c["length"] or 2))
        J.append(job(f"settings {q}: {c['kind']}", pref, cost=5, fwd="prod" not in c["kind"] or c["i"] < 3, **c))
    for kind in ("continuous", "discontinuous"):
        for n1, n2, S, layers in [(2, 3, 2, 2), (3, 5, 1, 3), (3, 2, 3, 1)]:
            J.append(job(f"switch {kind} n {n1}->{n2} S={S} children={layers}", c09.switch, kind=kind, n1=n1, S1=S, n2=n2, S2=S, i=2, o=1, layers=layers, how="p", length=layers))
    if tier == "thorough":
        for kind in ("continuous", "discontinuous"):
            for n1 in range(2, 8):
                for n2 in range(2, 9):
                    for S in (1, 3, 6):
                        J.append(job(f"thorough {kind} {n1}->{n2} S={S}", pref, kind=kind, n1=n1, n2=n2, S=S, i=2, o=2, cost=30, budget=900, tol=F(1, 500)))
    return J
