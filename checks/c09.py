"""C09: h-refinement (and hp) of a continuous layer: target coefficients are
the source function's values at the target's node positions; when the target's
segments subdivide the source's and its order is at least the source's, both
layers are the same function."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering, pinned
from .ref import job

BOUNDS = ("orders 2..6, segments 1..8 on both sides (multiples and non-multiples), inputs<=2, outputs<=3, all coefficients in [-1,1], "
          "lengths {1,2,4}, periods {length, shorter, longer}.")
OUTSIDE = "orders above 6; targets coarser than the source keep only the nodal values"


def href(h, kind, n1, S1, n2, S2, i, o, length=2, per=None, tol=F(1, 1000)):
    from high_order_layers_torch.layers import high_order_fc_layers

    half = F(2 if length is None else length) / 2
    opt = {} if length is None else {"length": float(length)}
    mk = lambda n, S: high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, periodicity=per, **opt)
    A, B = mk(n1, S1), mk(n2, S2)
    h.set(A.w, "a", -1, 1)
    h.set(B.w, "b", -1, 1)
    wa = h.e(A.w).copy()
    A.refine(B)
    h.close(A.w, wa, "the source layer is unchanged")
    wb = h.e(B.w)
    pos = ref.node_positions(n2, S2, half)
    for oo in range(o):
        for ii in range(i):
            h.close(wb[oo, ii], [ref.piecewise(wa[oo, ii], n1, S1, p, half) for p in pos], f"target coefficients of link ({oo},{ii})", tol=tol)
    if n2 >= n1 and S2 % S1 == 0:
        span = half if per is None else F(per) * F(3, 4)
        xa = pinned(h, "x", (1, i), S2, half, (), F(1, 8))
        xa[0, 0] = h.scalar("x0", -span, span)
        x = h.tensor(xa)
        h.close(B(x), h.e(A(x)), "same function after refinement", tol=F(1, 200))


def switch(h, n1, S1, n2, S2, i, o, layers, how, kind="continuous", length=2):
    """A switch layer refines each of its children into the corresponding one."""
    from high_order_layers_torch.layers import SwitchLayer

    half = F(length) / 2
    mk = lambda n, S: SwitchLayer(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, num_input_layers=layers, length=float(length))
    A, B = mk(n1, S1), mk(n2, S2)
    pa, pb = list(A.parameters()), list(B.parameters())
    if len(pa) != layers or len(pb) != layers:
        h.fail("one coefficient tensor per child")
    for q in range(layers):
        h.set(pa[q], f"a{q}", -1, 1)
        h.set(pb[q], f"b{q}", -1, 1)
    wa = [h.e(p).copy() for p in pa]
    A.refine(B) if how == "h" else A.interpolate(B)
    for q in range(layers):
        h.close(pa[q], wa[q], "the source layer is unchanged")
        w = h.e(pb[q])
        for ix in np.ndindex(o, i):
            v = wa[q][ix]
            if how == "h":
                exp = [ref.piecewise(v, n1, S1, p, half) for p in ref.node_positions(n2, S2, half)]
            else:
                from .c08 import expected

                exp = expected(v, n1, n2, S1, half, kind == "continuous")
            h.close(w[ix], exp, f"child {q} link {ix}")


def same_error(h, n, S1, S2):
    """Discontinuous layers: refused, not silently wrong."""
    from high_order_layers_torch.layers import high_order_fc_layers

    mk = lambda S: high_order_fc_layers(layer_type="discontinuous", n=n, in_features=1, out_features=1, segments=S)
    A, B = mk(S1), mk(S2)
    h.set(A.w, "a", -1, 1)
    h.set(B.w, "b", -1, 1)
    wa = h.e(A.w).copy()
    try:
        A.refine(B)
    except ValueError:
        h.true([True], "refused")
        return
    # an implementation that succeeds must produce the same function
    x = h.real("x", (1, 1), F(-31, 32), F(31, 32))
    h.close(B(x), h.e(A(x)), "same function after refinement", tol=F(1, 200))


def jobs(tier):
    J = []
    for kind in ("continuous", "continuous_prod"):
        lst = [(2, 1, 2, 2, 1, 1), (2, 1, 3, 3, 2, 1), (3, 2, 3, 4, 1, 2), (3, 2, 4, 6, 1, 1), (2, 3, 2, 3, 2, 3), (4, 1, 4, 2, 1, 1), (2, 2, 5, 2, 1, 3), (5, 1, 5, 3, 1, 1),
               (3, 3, 3, 2, 1, 1), (2, 3, 3, 5, 2, 1), (4, 2, 2, 3, 1, 2), (3, 4, 2, 1, 1, 1), (2, 4, 2, 8, 1, 1), (6, 1, 6, 2, 1, 1)]
        if "prod" in kind:
            lst = lst[:4]
        for n1, S1, n2, S2, i, o in lst:
            J.append(job(f"{kind} n {n1}->{n2} S {S1}->{S2} {i}->{o}", href, kind=kind, n1=n1, S1=S1, n2=n2, S2=S2, i=i, o=o, cost=n1 * n2 * S2))
        for Ln in (1, 4):
            J.append(job(f"{kind} length={Ln}", href, kind=kind, n1=3, S1=2, n2=3, S2=4, i=1, o=2, length=Ln))
    for Ln, per in [(2, 2), (2, 1), (2, 4), (4, 2), (4, 4)]:
        J.append(job(f"continuous length={Ln} period={per}", href, kind="continuous", n1=2, S1=2, n2=3, S2=4, i=1, o=1, length=Ln, per=per))
    for n, a, b in [(2, 1, 2), (3, 2, 4)]:
        J.append(job(f"discontinuous n={n} {a}->{b}", same_error, n=n, S1=a, S2=b))
    for q, c in enumerate(covering(2, lambda kind, n1, n2, S1, S2, i, o, length, per: not (per and "prod" in kind), kind=("continuous", "continuous_prod"), n1=(2, 3, 4), n2=(3, 2, 5), S1=(2, 1, 3), S2=(4, 3, 2, 6),
                                   i=(2, 1, 3), o=(3, 1, 2), length=(None, 1, 3), per=(None, F(1, 2), 1, 2))):
        c["per"] = c["per"] and float(c["per"] * (c["length"] or 2))
        J.append(job(f"settings {q}: {c['kind']}", href, cost=5, **c))
    for n1, S1, n2, S2, layers in [(2, 2, 3, 4, 2), (3, 1, 3, 2, 3), (3, 2, 2, 3, 1)]:
        J.append(job(f"switch n {n1}->{n2} S {S1}->{S2} children={layers}", switch, n1=n1, S1=S1, n2=n2, S2=S2, i=2, o=1, layers=layers, how="h", length=layers))
    if tier == "thorough":
        for n1 in range(2, 6):
            for n2 in range(2, 7):
                for S1, S2 in [(1, 2), (1, 5), (2, 4), (2, 6), (3, 6), (3, 4), (4, 3), (5, 2), (3, 9)]:
                    J.append(job(f"thorough n {n1}->{n2} S {S1}->{S2}", href, kind="continuous", n1=n1, S1=S1, n2=n2, S2=S2, i=2, o=2, cost=50, budget=900, tol=F(1, 500)))
    return J
