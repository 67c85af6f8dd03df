"""C21: multi-head attention: every head attends on its own slice of the projected
features, samples keep their own masks and alignments, heads are concatenated."""
import math
from fractions import Fraction as F

import numpy as np
import torch

from engine import alg

from . import ref
from .c20 import any_mask, dot, linear, mix, setall, softmax
from .ref import job

BOUNDS = ("batches<=2, 1..3 queries, 1..3 keys, 1..3 heads of dimension 1..2; inputs in [-1,1]; projection parameters fixed rationals or symbolic in [-1,1] "
          "as named in the job; masks of every listed pattern leaving a key per row; previous alignments in [0,1], None, or the returned one fed back; evaluation mode.")
OUTSIDE = "dropout of the relative attention in training mode; fully masked rows; relative attention with different query and key lengths"
TOL = F(1, 500)


def sl(v, n, d):
    return v[n * d : (n + 1) * d]


def multi(h, b, q, k, N, d, mask=None, fixed=True, default=False):
    from high_order_layers_torch.attentions import MultiHeadAttention

    D = N * d
    A = MultiHeadAttention(D) if default else MultiHeadAttention(D, N)
    A.eval()
    P = setall(h, A, fixed)
    Q, K, V = h.real("q", (b, q, D), -1, 1), h.real("k", (b, k, D), -1, 1), h.real("v", (b, k, D), -1, 1)
    if mask == "any":
        m, mask = any_mask(h, (b, q, k))
    elif mask is not None:
        m = torch.tensor(mask, dtype=torch.bool)
    ctx, att = A(Q, K, V) if mask is None else A(Q, K, V, m)
    h.same_shape(ctx, (b, q, D), "context")
    h.same_shape(att, (N * b, q, k), "attention")
    qa, ka, va = h.e(Q), h.e(K), h.e(V)
    r = ref.rat(1 / math.sqrt(d))
    for bb in range(b):
        pk = [linear(P["key_proj.weight"], ka[bb, j], P["key_proj.bias"]) for j in range(k)]
        pv = np.array([linear(P["value_proj.weight"], va[bb, j], P["value_proj.bias"]) for j in range(k)], dtype=object)
        for i in range(q):
            pq = linear(P["query_proj.weight"], qa[bb, i], P["query_proj.bias"])
            keep = [j for j in range(k) if mask is None or not mask[bb][i][j]]
            for n in range(N):
                w = softmax([dot(sl(pq, n, d), sl(pk[j], n, d)) * r for j in keep])
                full = [F(0)] * k
                for j, v in zip(keep, w):
                    full[j] = v
                h.close(att[n * b + bb, i], full, "weights", tol=TOL)
                h.close(ctx[bb, i, n * d : (n + 1) * d], mix(full, pv[:, n * d : (n + 1) * d]), "context", tol=TOL)


def mhloc(h, b, k, N, d, C, last, fixed=True, default=False):
    from high_order_layers_torch.attentions import MultiHeadLocationAwareAttention

    D = N * d
    A = MultiHeadLocationAwareAttention(D) if default else MultiHeadLocationAwareAttention(D, num_heads=N, conv_out_channel=C)
    P = setall(h, A, fixed)
    Q, V = h.real("q", (b, 1, D), -1, 1), h.real("v", (b, k, D), -1, 1)
    la = h.real("last", (b, N, k), 0, 1) if last else None
    ctx, att = A(Q, V, la)
    h.same_shape(ctx, (b, 1, D), "context")
    h.same_shape(att, (b, N, k), "attention")
    qa, va = h.e(Q), h.e(V)
    ea = h.e(la) if last else None
    cw, cb = P["conv1d.weight"], P["conv1d.bias"]
    for bb in range(b):
        pq = linear(P["query_proj.weight"], qa[bb, 0])
        pv = np.array([linear(P["value_proj.weight"], va[bb, j]) for j in range(k)], dtype=object)
        loc = []
        for j in range(k):
            f = []
            for c in range(C):
                s = cb[c]
                for o in (-1, 0, 1):
                    if ea is not None and 0 <= j + o < k:
                        for n in range(N):
                            s = s + cw[c, n, o + 1] * ea[bb, n, j + o]
                f.append(s)
            loc.append([alg.tanh(x) for x in linear(P["loc_proj.weight"], f)])
        for n in range(N):
            s = []
            for j in range(k):
                t = [alg.tanh(pv[j, n * d + c] + pq[n * d + c] + loc[j][c] + P["bias"][c]) for c in range(d)]
                s.append(linear(P["score_proj.weight"], t, P["score_proj.bias"])[0])
            w = softmax(s)
            h.close(att[bb, n], w, "weights", tol=TOL)
            h.close(ctx[bb, 0, n * d : (n + 1) * d], mix(w, pv[:, n * d : (n + 1) * d]), "context", tol=TOL)


def relative(h, b, t, N, d, mask=None, fixed=True, default=False):
    from high_order_layers_torch.attentions import RelativeMultiHeadAttention

    D = N * d
    A = RelativeMultiHeadAttention(D) if default else RelativeMultiHeadAttention(D, N, dropout_p=0.25)
    A.eval()
    P = setall(h, A, fixed)
    Q, K, V, E = (h.real(x, (b, t, D), -1, 1) for x in "qkve")
    if mask in ("any", "row"):
        m, mask = any_mask(h, (b, t if mask == "any" else 1, t))
    elif mask is not None:
        m = torch.tensor(mask, dtype=torch.bool)
    out = A(Q, K, V, E) if mask is None else A(Q, K, V, E, m)
    h.same_shape(out, (b, t, D), "output")
    qa, ka, va, ea = h.e(Q), h.e(K), h.e(V), h.e(E)
    r = ref.rat(1 / math.sqrt(D))
    for bb in range(b):
        pq = [linear(P["query_proj.weight"], qa[bb, i], P["query_proj.bias"]) for i in range(t)]
        pk = [linear(P["key_proj.weight"], ka[bb, j], P["key_proj.bias"]) for j in range(t)]
        pv = np.array([linear(P["value_proj.weight"], va[bb, j], P["value_proj.bias"]) for j in range(t)], dtype=object)
        pe = [linear(P["pos_proj.weight"], ea[bb, j]) for j in range(t)]
        heads = [[None] * N for _ in range(t)]
        for n in range(N):
            u, v = P["u_bias"][n], P["v_bias"][n]

            def raw(i, m):
                return dot([a + c for a, c in zip(sl(pq[i], n, d), v)], sl(pe[m], n, d))

            def pos(i, j):
                if j <= i:
                    return raw(i, t - 1 - (i - j))
                return F(0) if j == i + 1 else raw(i + 1, j - i - 2)

            for i in range(t):
                keep = [j for j in range(t) if mask is None or not mask[bb][i if len(mask[bb]) > 1 else 0][j]]
                w = softmax([(dot([a + c for a, c in zip(sl(pq[i], n, d), u)], sl(pk[j], n, d)) + pos(i, j)) * r for j in keep])
                full = [F(0)] * t
                for j, x in zip(keep, w):
                    full[j] = x
                heads[i][n] = mix(full, pv[:, n * d : (n + 1) * d])
        for i in range(t):
            cat = [x for n in range(N) for x in heads[i][n]]
            h.close(out[bb, i], linear(P["out_proj.weight"], cat, P["out_proj.bias"]), "output", tol=TOL)


def custom(h, b, k, N, d, C, last, fixed=True, feedback=False, default=False):
    from high_order_layers_torch.attentions import CustomizingAttention

    D = N * d
    A = CustomizingAttention(D) if default else CustomizingAttention(D, num_heads=N, conv_out_channel=C)
    P = setall(h, A, fixed)
    Q, V = h.real("q", (b, 1, D), -1, 1), h.real("v", (b, k, D), -1, 1)
    la = h.real("last", (N * b, k), 0, 1) if last else None
    ea = h.e(la) if last else None
    qa, va = h.e(Q), h.e(V)
    cw, cb = P["conv1d.weight"], P["conv1d.bias"]
    r = ref.rat(1 / math.sqrt(d))
    for _ in range(2 if feedback else 1):
        ctx, att = A(Q, V, la)
        h.same_shape(ctx, (b, 1, D), "context")
        if N * b > 1 and k > 1:
            h.same_shape(att, (N * b, k), "attention")
        att = att.reshape(N * b, k)
        al = np.empty((N * b, k), dtype=object)
        for bb in range(b):
            pq = linear(P["query_proj.weight"], qa[bb, 0], P["query_proj.bias"])
            for n in range(N):
                kv = np.empty((k, d), dtype=object)
                for j in range(k):
                    f = []
                    for c in range(C):
                        s = cb[c]
                        for o in (-1, 0, 1):
                            if ea is not None and 0 <= j + o < k:
                                s = s + cw[c, 0, o + 1] * ea[n * b + bb, j + o]
                        f.append(s)
                    loc = linear(P["loc_proj.weight"], f)
                    pv = linear(P["value_proj.weight"], va[bb, j])
                    for c in range(d):
                        kv[j, c] = pv[n * d + c] + loc[c] + P["bias"][n * d + c]
                w = softmax([dot(sl(pq, n, d), kv[j]) * r for j in range(k)])
                al[n * b + bb] = w
                h.close(att[n * b + bb], w, "weights", tol=TOL)
                h.close(ctx[bb, 0, n * d : (n + 1) * d], mix(w, kv), "context", tol=TOL)
        la, ea = att, al


def refuses(h, kind, D, N):
    from high_order_layers_torch import attentions as AA

    refused = False
    try:
        getattr(AA, kind)(D, N)
    except Exception:
        refused = True
    h.true([refused], f"{kind}({D}, {N}) is refused: the heads do not divide the model")


def jobs(tier):
    J = []
    for b, q, k, N, d in [(1, 1, 2, 2, 1), (2, 1, 2, 2, 2), (1, 2, 3, 3, 1), (2, 3, 2, 1, 2), (3, 1, 2, 2, 1)]:
        J.append(job(f"multi b={b} q={q} k={k} heads={N} d={d}", multi, b=b, q=q, k=k, N=N, d=d))
    J.append(job("multi symbolic parameters", multi, b=2, q=1, k=2, N=1, d=1, fixed=False))
    J.append(job("multi symbolic parameters heads", multi, b=1, q=1, k=2, N=2, d=1, fixed=False, cost=8))
    J.append(job("multi mask 2x2", multi, b=2, q=1, k=3, N=2, d=1, mask=[[[1, 0, 0]], [[0, 1, 1]]]))
    J.append(job("multi mask 2x3", multi, b=2, q=2, k=2, N=3, d=1, mask=[[[0, 1], [0, 0]], [[1, 0], [0, 1]]]))
    J.append(job("multi mask causal", multi, b=1, q=3, k=3, N=2, d=2, mask=[[[0, 1, 1], [0, 0, 1], [0, 0, 0]]]))
    J.append(job("multi mask 3x2", multi, b=3, q=1, k=2, N=2, d=1, mask=[[[0, 1]], [[1, 0]], [[0, 0]]]))
    for b, q, k, N, d in [(2, 1, 2, 2, 1), (1, 2, 2, 3, 1), (3, 1, 2, 2, 1), (2, 1, 3, 1, 2), (2, 2, 2, 2, 1)]:
        J.append(job(f"multi every mask b={b} q={q} k={k} heads={N} d={d}", multi, b=b, q=q, k=k, N=N, d=d, mask="any", cost=b * q * k))
    for b, t, N, d, m in [(2, 2, 2, 1, "any"), (1, 2, 2, 2, "any"), (2, 3, 1, 1, "row"), (3, 2, 2, 1, "row")]:
        J.append(job(f"relative every mask b={b} t={t} heads={N} d={d} {m}", relative, b=b, t=t, N=N, d=d, mask=m, cost=9))
    for b, k, N, d, C, la in [(1, 2, 1, 1, 1, True), (1, 2, 2, 1, 2, True), (2, 3, 2, 2, 1, True), (2, 2, 2, 1, 3, False), (1, 3, 3, 1, 2, True)]:
        J.append(job(f"multi location b={b} k={k} heads={N} d={d} conv={C} last={la}", mhloc, b=b, k=k, N=N, d=d, C=C, last=la))
    for b, t, N, d in [(1, 1, 1, 1), (1, 2, 2, 1), (2, 2, 2, 2), (1, 3, 2, 1), (1, 4, 1, 1)]:
        J.append(job(f"relative b={b} t={t} heads={N} d={d}", relative, b=b, t=t, N=N, d=d))
    J.append(job("relative mask", relative, b=2, t=2, N=2, d=1, mask=[[[0, 1], [0, 0]], [[1, 0], [0, 1]]]))
    J.append(job("relative mask one row", relative, b=2, t=2, N=1, d=2, mask=[[[0, 1]], [[1, 0]]]))
    for b, k, N, d, C, la in [(1, 2, 1, 1, 1, True), (1, 3, 2, 1, 2, True), (2, 2, 2, 2, 1, True), (2, 3, 2, 1, 3, False), (2, 2, 3, 1, 1, True)]:
        J.append(job(f"customizing b={b} k={k} heads={N} d={d} conv={C} last={la}", custom, b=b, k=k, N=N, d=d, C=C, last=la))
    J.append(job("customizing alignment fed back", custom, b=2, k=2, N=2, d=1, C=1, last=True, feedback=True, cost=10))
    J.append(job("multi default heads", multi, b=1, q=1, k=2, N=8, d=1, default=True))
    J.append(job("multi location defaults", mhloc, b=1, k=2, N=8, d=1, C=10, last=True, default=True))
    if tier == "thorough":
        J.append(job("relative default heads", relative, b=1, t=2, N=16, d=1, default=True))
    J.append(job("customizing defaults", custom, b=1, k=2, N=4, d=1, C=10, last=True, default=True))
    for kind in ("MultiHeadAttention", "RelativeMultiHeadAttention"):
        for D, N in ((3, 2), (4, 3)):
            J.append(job(f"refuses {kind} {D}/{N}", refuses, kind=kind, D=D, N=N))
    if tier == "thorough":
        for b, q, k, N, d in [(2, 2, 3, 2, 2), (1, 4, 4, 2, 2), (2, 2, 2, 4, 1), (3, 2, 3, 3, 1)]:
            J.append(job(f"thorough multi {b} {q} {k} {N} {d}", multi, b=b, q=q, k=k, N=N, d=d, cost=20))
        for b, k, N, d, C in [(2, 4, 2, 2, 2), (2, 3, 3, 2, 2), (1, 5, 2, 1, 1)]:
            J.append(job(f"thorough location {b} {k} {N} {d} {C}", mhloc, b=b, k=k, N=N, d=d, C=C, last=True, cost=20))
            J.append(job(f"thorough customizing {b} {k} {N} {d} {C}", custom, b=b, k=k, N=N, d=d, C=C, last=True, cost=20))
        for b, t, N, d in [(2, 3, 2, 2), (1, 5, 2, 1), (2, 4, 2, 1)]:
            J.append(job(f"thorough relative {b} {t} {N} {d}", relative, b=b, t=t, N=N, d=d, cost=20))
    return J
