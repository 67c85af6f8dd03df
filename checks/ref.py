"""Independent reference mathematics (exact rationals; irrational node
positions rounded to 2^-40)."""
import math
from fractions import Fraction as F

import numpy as np


def job(name, fn, cost=1, budget=300, opts=None, **cfg):
    return {"name": name, "fn": fn, "cfg": cfg, "cost": cost, "budget": budget, "opts": opts or {}}


def rat(v):
    return F(round(v * 2**40), 2**40)


def nodes(n, half=F(1)):
    """n Chebyshev-Lobatto points on [-half, half]; a single node sits at 0."""
    if n == 1:
        return [F(0)]
    return [rat(-math.cos(math.pi * i / (n - 1))) * half for i in range(n)]


def lagrange(n, x, half=F(1)):
    """Values at x of the n cardinal functions."""
    X = nodes(n, half)
    out = []
    for j in range(n):
        r = F(1)
        for m in range(n):
            if m != j:
                r = r * (x - X[m]) * (1 / (X[j] - X[m]))
        out.append(r)
    return out


def dlagrange(n, x, half=F(1)):
    """Derivatives of the cardinal functions."""
    X = nodes(n, half)
    out = []
    for j in range(n):
        acc = F(0)
        for k in range(n):
            if k == j:
                continue
            r = 1 / (X[j] - X[k])
            for m in range(n):
                if m not in (j, k):
                    r = r * (x - X[m]) * (1 / (X[j] - X[m]))
            acc = acc + r
        out.append(acc)
    return out


def fourier(n, x, length=F(2), pi=rat(math.pi)):
    """1/2? see C13: the documented Fourier basis."""
    raise NotImplementedError


def segment(x, S, half=F(1)):
    """Index of the segment that owns x (first/last own everything outside)."""
    k = 0
    while k < S - 1 and not (x < -half + 2 * half * F(k + 1, S)):
        k += 1
    return k


def local(x, k, S, half=F(1)):
    """Coordinate of x inside segment k, rescaled to [-half, half]."""
    return (x - (-half + 2 * half * F(k, S))) * S - half


def piecewise(w, n, S, x, half=F(1), continuous=True):
    """The piecewise polynomial with coefficients w at x."""
    k = segment(x, S, half)
    base = k * (n - 1) if continuous else k * n
    L = lagrange(n, local(x, k, S, half), half)
    acc = F(0)
    for j in range(n):
        acc = acc + L[j] * w[base + j]
    return acc


def poly(w, n, x, half=F(1)):
    L = lagrange(n, x, half)
    acc = F(0)
    for j in range(n):
        acc = acc + L[j] * w[j]
    return acc


def node_positions(n, S, half=F(1), continuous=True):
    """Position of every coefficient of a piecewise polynomial."""
    X = nodes(n, half)
    pos = []
    for k in range(S):
        lo = -half + 2 * half * F(k, S)
        for j in range(n):
            if continuous and k and j == 0:
                continue
            pos.append(lo + (X[j] + half) / S)
    return pos


def obj(shape):
    return np.empty(shape, dtype=object)
