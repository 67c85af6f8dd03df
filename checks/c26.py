"""C26: which_segment, x_local and x_global address the segments of a piecewise layer consistently."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .c11 import fold
from .common import covering
from .ref import job

BOUNDS = ("continuous and discontinuous layers (plain and product), 1..1000 segments, lengths {1/2,1,2,3,4}, orders 2..4; positions up to four (some: 100000) lengths from the "
          "origin, symbolic segment index and local coordinate, tensors of several shapes; with a period: positions up to three periods; every pair of settings "
          "occurs together; the n dimensional piecewise layer with up to 16 segments in 1..3 dimensions.")
OUTSIDE = "positions beyond 2^62 segments from the origin, where the conversion to an integer overflows; positions within float rounding of a boundary"


def make(kind, n, S, length, per=None, i=1, o=1):
    from high_order_layers_torch.layers import high_order_fc_layers

    kw = {} if per is None else {"periodicity": float(per)}
    return high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, length=float(length), **kw)


def eta(k, S, half):
    return k * (2 * half / S) - half


def owner(h, kind, n, S, length, shape=(1, 1), per=None, turns=3, i=1, o=1, dtype=torch.float32, far=4):
    """The segment that owns a position contains it; outside the domain it is the first or last."""
    L = make(kind, n, S, length, per, i, o)
    half = F(length) / 2
    reach = far * F(length) if per is None else turns * F(per)
    xa = ref.obj(shape)
    for q, ix in enumerate(np.ndindex(*shape)):
        xa[ix] = h.scalar(f"x{q}", -reach, reach) if q == 0 else h.scalar(f"x{q}", half * F(q, 16), half * F(q, 16) + half / 32)
    seg = L.which_segment(h.tensor(xa, dtype))
    h.same_shape(seg, shape, "segment indices")
    if seg.is_floating_point():
        h.fail(f"segment indices have type {seg.dtype}")
    ka = h.e(seg)
    eps = half / 10**5
    for ix in np.ndindex(*shape):
        x, k = xa[ix], ka[ix]
        if per is not None:
            x = fold(x, per)
        h.true([k >= 0, k <= S - 1], "segment index in range")
        if x < -half + eps:
            h.true([k <= 0], "first segment owns everything to its left")
        elif x > half - eps:
            h.true([k >= S - 1], "last segment owns everything to its right")
        else:
            h.true([eta(k, S, half) <= x + eps, x <= eta(k + 1, S, half) + eps], "position lies inside its segment")


def boundary(h, kind, n, S, length):
    """An interior boundary belongs to the segment on its right, for every boundary."""
    L = make(kind, n, S, length)
    half = F(length) / 2
    k = h.integer("k", 1, S - 1)
    x = eta(k, S, half)  # exactly representable for the sizes used
    seg = h.e(L.which_segment(h.tensor(np.array([[x]], dtype=object))))
    h.close(seg, np.array([[k]], dtype=object), "segment of a boundary")


def maps(h, kind, n, S, length, shape=(1, 1), per=None, i=1, o=1, dtype=torch.float32):
    """x_local and x_global are inverse affine maps between segment k and the domain."""
    L = make(kind, n, S, length, per, i, o)
    half = F(length) / 2
    u = ref.obj(shape)
    k = ref.obj(shape)
    for q, ix in enumerate(np.ndindex(*shape)):
        u[ix] = h.scalar(f"u{q}", -2 * half, 2 * half)
        k[ix] = h.integer(f"k{q}", 0, S - 1)
    idx = h.tensor(k, torch.int64)
    tol = F(1, 500)
    g = L.x_global(h.tensor(u, dtype), idx)
    exp = ref.obj(shape)
    for ix in np.ndindex(*shape):
        exp[ix] = eta(k[ix], S, half) + (u[ix] + half) / S
    h.close(g, exp, "global position of a local coordinate", tol=tol)
    h.close(L.x_local(g, idx), u, "local coordinate of that position", tol=F(1, 50) if S <= 100 else F(1, 8))
    back = ref.obj(shape)
    for ix in np.ndindex(*shape):
        back[ix] = (u[ix] - eta(k[ix], S, half)) * S - half
    h.close(L.x_local(h.tensor(u, dtype), idx), back, "local coordinate of any position", tol=tol if S <= 20 else F(1, 50) if S <= 100 else F(1, 4))


def plain_index(h, kind, n, S, length):
    """The same with a Python integer as the index."""
    L = make(kind, n, S, length)
    half = F(length) / 2
    u = h.scalar("u", -half, half)
    t = h.tensor(np.array([[u], [u * F(1, 2)]], dtype=object))
    for k in range(S):
        g = L.x_global(t, k)
        h.close(g, np.array([[eta(k, S, half) + (u + half) / S], [eta(k, S, half) + (u * F(1, 2) + half) / S]], dtype=object), f"segment {k}", tol=F(1, 500))
        h.close(L.x_local(g, k), np.array([[u], [u * F(1, 2)]], dtype=object), f"back from segment {k}", tol=F(1, 100))


def agrees(h, kind, n, S, length):
    """The layer evaluates at x what its addressing functions say."""
    L = make(kind, n, S, length)
    half = F(length) / 2
    h.set(L.w, "w", -1, 1)
    w = h.e(L.w)[0, 0]
    x = h.scalar("x", -half * F(9, 8), half * F(9, 8))
    t = h.tensor(np.array([[x]], dtype=object))
    seg = L.which_segment(t)
    loc = h.e(L.x_local(t, seg))[0, 0]
    k = ref.segment(x, S, half)
    base = k * (n - 1) if kind.startswith("continuous") else k * n
    acc = F(0)
    for j, v in enumerate(ref.lagrange(n, loc, half)):
        acc = acc + v * w[base + j]
    h.close(L(t), np.array([[acc]], dtype=object), "value of the addressed segment", tol=F(1, 200))


def jobs(tier):
    J = []
    deep = tier == "thorough"
    kinds = ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod")
    for q, (S, ln) in enumerate([(1, 2), (2, 1), (3, 2), (5, 4), (7, 3), (16, F(1, 2)), (100, 2), (1000, 2)]):
        for kind in kinds if deep else kinds[:2] + (kinds[2 + q % 2],):
            J.append(job(f"owner {kind} S={S} length={ln}", owner, kind=kind, n=2 + q % 3, S=S, length=ln))
            J.append(job(f"maps {kind} S={S} length={ln}", maps, kind=kind, n=2 + q % 3, S=S, length=ln))
    for kind in kinds[:2]:
        J.append(job(f"owner {kind} shape (2,3)", owner, kind=kind, n=3, S=4, length=2, shape=(2, 3)))
        J.append(job(f"owner {kind} shape (3,1,2)", owner, kind=kind, n=2, S=4, length=4, shape=(3, 1, 2)))
        J.append(job(f"maps {kind} shape (2,2)", maps, kind=kind, n=3, S=4, length=2, shape=(2, 2)))
        for S, ln, per in [(4, 2, 2), (3, 4, 2), (5, 2, 3)]:
            J.append(job(f"owner {kind} S={S} length={ln} period={per}", owner, kind=kind, n=2, S=S, length=ln, per=per))
        for S, ln in [(2, 2), (4, 2), (8, 4), (64, 2), (32, 1)]:
            J.append(job(f"boundary {kind} S={S} length={ln}", boundary, kind=kind, n=3, S=S, length=ln))
        for S, ln in [(3, 2), (4, 1)]:
            J.append(job(f"integer index {kind} S={S} length={ln}", plain_index, kind=kind, n=3, S=S, length=ln))
        for n, S, ln in [(3, 3, 2), (2, 5, 4), (4, 2, 1)]:
            J.append(job(f"agrees {kind} n={n} S={S} length={ln}", agrees, kind=kind, n=n, S=S, length=ln))
        for S, far in [(1, 10**4), (3, 10**5), (10, 10**4)]:
            J.append(job(f"owner {kind} S={S} far={far}", owner, kind=kind, n=2, S=S, length=2, far=far))
    C = dict(kind=kinds, n=(1, 2, 3, 5) , S=(1, 2, 3, 10, 33), length=(F(1, 2), 1, 2, 3), shape=((1, 1), (2, 3), (2, 1, 2), (4,), ()), per=(None, 1, F(5, 2)), i=(1, 3), o=(1, 2),
             dtype=(torch.float32, torch.float64))
    for q, c in enumerate(covering(valid=lambda kind, n, **k: n > 1 or kind.startswith("disc"), **C)):
        J.append(job(f"owner settings {q} {c}", owner, turns=2, **c))
        J.append(job(f"maps settings {q} {c}", maps, **c))
    from .c27 import address

    for n, S, ln, shape in [((2,), (5,), None, (1, 1)), ((2, 3), (3, 4), 1, (1, 1)), ((3, 2), (1, 7), 4, (2, 1)), ((2, 2, 2), (2, 3, 4), 2, (1, 2)), ((2, 2), (16, 10), 3, (1, 1))]:
        J.append(job(f"n dimensional n={n} S={S} length={ln} shape={shape}", address, n=n, S=S, length=ln, shape=shape))
    return J
