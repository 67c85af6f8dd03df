"""C20: attention returns averages of the values, weighted by the softmax of the
documented scores."""
import math
from fractions import Fraction as F

import numpy as np
import torch

from engine import alg

from . import ref
from .ref import job

BOUNDS = ("batches<=2, 1..3 queries, 1..4 keys, dimensions<=3; inputs in [-1,1], projection parameters symbolic in [-1,1] (or fixed where stated); all 0/1 masks of the "
          "listed shapes leaving at least one key; exp, tanh and sigmoid are uninterpreted with their functional laws.")
OUTSIDE = "longer sequences; fully masked rows (0/0 by definition)"


def softmax(s):
    e = [alg.exp(v) for v in s]
    t = F(0)
    for v in e:
        t = t + v
    return [v / t for v in e]


def dot(a, b):
    acc = F(0)
    for x, y in zip(a, b):
        acc = acc + x * y
    return acc


def mix(w, v):
    """sum_k w[k] * v[k, :]"""
    return [dot(w, [v[k, d] for k in range(len(w))]) for d in range(v.shape[1])]


def linear(W, x, b=None):
    return [dot(W[o], x) + (b[o] if b is not None else F(0)) for o in range(W.shape[0])]


def any_mask(h, shape):
    """Every mask of this shape that leaves a key per row: (tensor, decided bits)."""
    from engine.harness import Skip

    t = h.real("mask", shape, -1, 1) > 0
    a = h.elements("mask", shape, -1, 1)
    bits = [[[bool(a[bb, i, j] > 0) for j in range(shape[2])] for i in range(shape[1])] for bb in range(shape[0])]
    if any(all(r) for m in bits for r in m):
        raise Skip("a row without keys")
    return t, bits


def scaled(h, b, q, k, d, dv, mask=None):
    from high_order_layers_torch.attentions import ScaledDotProductAttention

    A = ScaledDotProductAttention(d)
    Q, K, V = h.real("q", (b, q, d), -1, 1), h.real("k", (b, k, d), -1, 1), h.real("v", (b, k, dv), -1, 1)
    if mask == "any":
        m, mask = any_mask(h, (b, q, k))
    else:
        m = None if mask is None else torch.tensor(mask, dtype=torch.bool)
    ctx, att = A(Q, K, V) if m is None else A(Q, K, V, m)
    h.same_shape(ctx, (b, q, dv), "context")
    h.same_shape(att, (b, q, k), "attention")
    qa, ka, va = h.e(Q), h.e(K), h.e(V)
    r = ref.rat(1 / math.sqrt(d))
    for bb in range(b):
        for i in range(q):
            keep = [j for j in range(k) if mask is None or not mask[bb][i][j]]
            w = softmax([dot(qa[bb, i], ka[bb, j]) * r for j in keep])
            full = [F(0)] * k
            for j, v in zip(keep, w):
                full[j] = v
            h.close(att[bb, i], full, "weights", tol=F(1, 500))
            h.close(ctx[bb, i], mix(full, va[bb]), "context", tol=F(1, 500))


def plain(h, b, q, k, d):
    from high_order_layers_torch.attentions import DotProductAttention

    A = DotProductAttention(d)
    Q, V = h.real("q", (b, q, d), -1, 1), h.real("v", (b, k, d), -1, 1)
    ctx, att = A(Q, V)
    h.same_shape(ctx, (b, q, d), "context")
    h.same_shape(att, (b, q, k), "attention")
    qa, va = h.e(Q), h.e(V)
    for bb in range(b):
        for i in range(q):
            w = softmax([dot(qa[bb, i], va[bb, j]) for j in range(k)])
            h.close(att[bb, i], w, "weights", tol=F(1, 500))
            h.close(ctx[bb, i], mix(w, va[bb]), "context", tol=F(1, 500))


def setall(h, L, fixed=False, seed=5):
    """Parameters by name as element arrays."""
    out = {}
    for q, (n, p) in enumerate(L.named_parameters()):
        if fixed:
            from .c10 import ref_rand

            h.assign(p, ref_rand(np.random.RandomState(seed + q), tuple(p.shape)))
        else:
            h.set(p, f"w{q}", -1, 1)
        out[n] = h.e(p)
    return out


def additive(h, b, k, d, fixed):
    from high_order_layers_torch.attentions import AdditiveAttention

    A = AdditiveAttention(d)
    P = setall(h, A, fixed)
    Q, K, V = h.real("q", (b, 1, d), -1, 1), h.real("k", (b, k, d), -1, 1), h.real("v", (b, k, d), -1, 1)
    ctx, att = A(Q, K, V)
    h.same_shape(att, (b, k), "attention")
    h.same_shape(ctx, (b, 1, d), "context")
    qa, ka, va = h.e(Q), h.e(K), h.e(V)
    for bb in range(b):
        s = []
        qp = linear(P["query_proj.weight"], qa[bb, 0])
        for j in range(k):
            kp = linear(P["key_proj.weight"], ka[bb, j])
            t = [alg.tanh(kp[c] + qp[c] + P["bias"][c]) for c in range(d)]
            s.append(linear(P["score_proj.weight"], t, P["score_proj.bias"])[0])
        w = softmax(s)
        h.close(att[bb], w, "weights", tol=F(1, 500))
        h.close(ctx[bb, 0], mix(w, va[bb]), "context", tol=F(1, 500))


def location(h, b, k, d, smoothing, last, fixed=True):
    from high_order_layers_torch.attentions import LocationAwareAttention

    A = LocationAwareAttention(d) if smoothing is None else LocationAwareAttention(d, smoothing=smoothing)
    smoothing = True if smoothing is None else smoothing
    P = setall(h, A, fixed)
    Q, V = h.real("q", (b, 1, d), -1, 1), h.real("v", (b, k, d), -1, 1)
    la = h.real("last", (b, k), 0, 1) if last else None
    ctx, att = A(Q, V, la)
    h.same_shape(att, (b, k), "attention")
    h.same_shape(ctx, (b, d), "context")
    qa, va = h.e(Q), h.e(V)
    ea = h.e(la) if last else None
    cw, cb = P["conv1d.weight"], P["conv1d.bias"]
    for bb in range(b):
        s = []
        qp = linear(P["query_proj.weight"], qa[bb, 0])
        for j in range(k):
            vp = linear(P["value_proj.weight"], va[bb, j])
            t = []
            for c in range(d):
                loc = cb[c]
                for o in (-1, 0, 1):
                    if ea is not None and 0 <= j + o < k:
                        loc = loc + cw[c, 0, o + 1] * ea[bb, j + o]
                t.append(alg.tanh(qp[c] + vp[c] + loc + P["bias"][c]))
            s.append(linear(P["score_proj.weight"], t, P["score_proj.bias"])[0])
        if smoothing:
            g = [alg.sigmoid(v) for v in s]
            tot = F(0)
            for v in g:
                tot = tot + v
            w = [v / tot for v in g]
        else:
            w = softmax(s)
        h.close(att[bb], w, "weights", tol=F(1, 500))
        h.close(ctx[bb], mix(w, va[bb]), "context", tol=F(1, 500))


def average(h, kind, k):
    """Whatever the scores: weights are positive, sum to one, and the context lies
    between the smallest and the largest value."""
    from high_order_layers_torch import attentions as AA

    if kind == "scaled":
        A = AA.ScaledDotProductAttention(1)
        V = h.real("v", (1, k, 1), -1, 1)
        ctx, att = A(h.real("q", (1, 1, 1), -2, 2), h.real("k", (1, k, 1), -2, 2), V)
    elif kind == "plain":
        V = h.real("v", (1, k, 1), -1, 1)
        ctx, att = AA.DotProductAttention(1)(h.real("q", (1, 1, 1), -2, 2), V)
    a = h.e(att).reshape(-1)
    t = F(0)
    for v in a:
        t = t + v
    h.close([t], [F(1)], "weights sum to one", tol=F(1, 1000))
    h.le(a * -1, 0, "weights are not negative", slack=F(1, 10000))
    h.le(ctx, 1, "context at most the largest value", slack=F(1, 1000))
    h.le(-h.e(ctx), 1, "context at least the smallest value", slack=F(1, 1000))


def jobs(tier):
    J = []
    for b, q, k, d, dv in [(1, 1, 1, 1, 1), (1, 1, 2, 2, 1), (2, 2, 2, 1, 2), (1, 3, 2, 2, 2), (2, 1, 3, 3, 1), (1, 2, 4, 1, 1)]:
        J.append(job(f"scaled b={b} q={q} k={k} d={d} dv={dv}", scaled, b=b, q=q, k=k, d=d, dv=dv))
        J.append(job(f"dot b={b} q={q} k={k} d={d}", plain, b=b, q=q, k=k, d=d))
    J.append(job("scaled mask 1", scaled, b=1, q=2, k=2, d=1, dv=1, mask=[[[0, 1], [0, 0]]]))
    J.append(job("scaled mask 2", scaled, b=2, q=1, k=3, d=2, dv=2, mask=[[[1, 0, 0]], [[0, 1, 1]]]))
    J.append(job("scaled mask causal", scaled, b=1, q=3, k=3, d=1, dv=2, mask=[[[0, 1, 1], [0, 0, 1], [0, 0, 0]]]))
    J.append(job("scaled mask none set", scaled, b=1, q=1, k=2, d=1, dv=1, mask=[[[0, 0]]]))
    for b, q, k, d, dv in [(1, 1, 3, 2, 1), (2, 1, 2, 1, 2), (1, 2, 2, 2, 2), (2, 2, 2, 1, 1)]:
        J.append(job(f"scaled every mask b={b} q={q} k={k} d={d}", scaled, b=b, q=q, k=k, d=d, dv=dv, mask="any", cost=b * q * k))
    for b, k, d, fx in [(1, 1, 1, False), (1, 2, 1, False), (2, 2, 2, True), (1, 3, 2, True), (2, 1, 3, True)]:
        J.append(job(f"additive b={b} k={k} d={d}", additive, b=b, k=k, d=d, fixed=fx))
    for sm in (True, False):
        for b, k, d, la in [(1, 2, 1, True), (2, 3, 2, True), (2, 2, 2, False), (1, 1, 2, True), (1, 4, 1, True)]:
            J.append(job(f"location b={b} k={k} d={d} smoothing={sm} last={la}", location, b=b, k=k, d=d, smoothing=sm, last=la))
    J.append(job("location default smoothing", location, b=1, k=2, d=1, smoothing=None, last=True))
    for kind in ("scaled", "plain"):
        for k in (1, 2, 3):
            J.append(job(f"average {kind} k={k}", average, kind=kind, k=k, cost=5))
    if tier == "thorough":
        for b in (1, 3):
            for q in (1, 3):
                for k in (2, 5):
                    for d in (1, 4):
                        J.append(job(f"thorough scaled {b} {q} {k} {d}", scaled, b=b, q=q, k=k, d=d, dv=2, cost=10))
                        J.append(job(f"thorough dot {b} {q} {k} {d}", plain, b=b, q=q, k=k, d=d, cost=10))
    return J
