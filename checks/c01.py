"""C01: every link of a continuous piecewise layer is the piecewise Lagrange
interpolant of its coefficients; the layer sums its links."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering, links, pinned, reach_for
from .ref import job

BOUNDS = ("orders n<=8, segments<=12, inputs<=3, outputs<=3, batch<=4, coefficients in [-1,1] (the output is linear in them), "
          "domain lengths {1,2,3,4}; inputs: every real in the domain and beyond it by a fraction of a segment (order 2: by 2000 segments); coefficients also up to 1/10000 and 1000; "
          "one or two inputs range over all segments while the rest stay inside one symbolic segment.")
OUTSIDE = "inputs still further outside the domain, larger shapes, float rounding below the tolerance 1e-3"


def build(kind, **kw):
    from high_order_layers_torch.layers import high_order_fc_layers
    from high_order_layers_torch.PolynomialLayers import PiecewisePolynomial, PiecewiseDiscontinuousPolynomial
    from high_order_layers_torch.positional_embeddings import (
        PiecewisePolynomialEmbedding, PiecewiseDiscontinuousPolynomialEmbedding)

    if kind == "class":
        return PiecewisePolynomial(**kw)
    if kind == "factory":
        return high_order_fc_layers(layer_type="continuous", **kw)
    if kind == "embedding":
        return PiecewisePolynomialEmbedding(**kw)
    if kind == "dclass":
        return PiecewiseDiscontinuousPolynomial(**kw)
    if kind == "dfactory":
        return high_order_fc_layers(layer_type="discontinuous", **kw)
    if kind == "dembedding":
        return PiecewiseDiscontinuousPolynomialEmbedding(**kw)


def value(h, kind, n, S, i=1, o=1, b=1, length=2, free=((0, 0),), dtype="float32", mode="train",
          layout="contig", pick=0, reach=None, extra=(), mag=F(1), tol=F(1, 1000)):
    half = F(length or 2) / 2
    kw = {"length": float(length)} if length else {}  # the default domain is [-1, 1]
    layer = build(kind, n=n, in_features=i, out_features=o, segments=S, **kw, **dict(extra))
    cont = not kind.startswith("d")
    if dtype == "float64":
        layer = layer.double()
    if mode == "eval":
        layer.eval()
    h.set(layer.w, "w", -mag, mag)
    w = h.e(layer.w)
    r = reach_for(n, S) if reach is None else reach
    xa = pinned(h, "x", (b, i), S, half, free, r, pick)
    if layout == "contig":
        x = h.tensor(xa, getattr(torch, dtype))
    elif layout == "transposed":
        x = h.tensor(xa.T.copy(), getattr(torch, dtype)).t()
    elif layout == "grad":
        x = h.tensor(xa, getattr(torch, dtype)).requires_grad_(True)
    y = layer(x)
    h.same_shape(y, (b, o), "output shape")
    exp = links(h, xa, w, lambda ww, v: ref.piecewise(ww, n, S, v, half, cont))
    h.close(y, exp, "layer output vs interpolant", tol=tol * mag)


def jobs(tier, pre=""):
    J = []
    k = lambda s: pre + s
    grid = [(2, 1), (2, 2), (2, 3), (2, 7), (3, 1), (3, 2), (3, 3), (3, 5), (4, 1), (4, 2), (4, 4), (5, 2), (5, 3),
            (6, 2), (7, 2), (8, 1), (8, 3), (2, 12), (3, 10)]
    if pre:
        grid = [(1, 1), (1, 3)] + grid
    for n, S in grid:
        J.append(job(f"value n={n} S={S}", value, kind=k("class"), n=n, S=S, cost=n * S))
    for n, S, i, o, b in [(2, 3, 3, 2, 2), (3, 2, 2, 3, 3), (3, 4, 2, 2, 2), (4, 2, 3, 1, 1), (5, 2, 2, 2, 2), (2, 5, 1, 2, 4)]:
        for pick in range(2):
            fr = ((b - 1, 0),) if pick else ((0, i - 1),)
            J.append(job(f"value n={n} S={S} {b}x{i}->{o} free={fr[0]}", value, kind=k("class"), n=n, S=S, i=i, o=o, b=b,
                         free=fr, pick=pick, cost=n * S * i * o * b))
    J.append(job("value n=3 S=2 2x2->2 two free", value, kind=k("class"), n=3, S=2, i=2, o=2, b=2, free=((0, 0), (1, 1)), cost=40))
    J.append(job("value n=2 S=3 1x2->2 two free", value, kind=k("class"), n=2, S=3, i=2, o=2, b=1, free=((0, 0), (0, 1)), cost=40))
    for L in (1, 3, 4):
        for n, S in [(2, 2), (3, 3), (4, 2), (5, 1)]:
            J.append(job(f"value length={L} n={n} S={S}", value, kind=k("class"), n=n, S=S, i=2, o=1, length=L))
    for kind in ("factory", "embedding"):
        for n, S, L in [(3, 2, 2), (2, 4, 2), (3, 3, 4)]:
            J.append(job(f"value {kind} n={n} S={S} length={L}", value, kind=k(kind), n=n, S=S, i=2, o=2, length=L))
    for dt in ("float64",):
        J.append(job(f"value {dt}", value, kind=k("class"), n=3, S=3, i=2, o=2, b=2, dtype=dt))
    for mode, lay in [("eval", "contig"), ("train", "transposed"), ("train", "grad")]:
        J.append(job(f"value {mode} {lay}", value, kind=k("class"), n=3, S=3, i=2, o=3, b=3, mode=mode, layout=lay))
    # far outside the domain the end segments own the input
    for n, S in [(2, 3), (3, 2), (2, 1)]:
        J.append(job(f"far n={n} S={S}", value, kind=k("class"), n=n, S=S, i=1, o=1, reach=F(10)))
    for S, reach in [(1, 500), (2, 2000), (3, 3000)]:
        J.append(job(f"very far n=2 S={S} reach={reach}", value, kind=k("class"), n=2, S=S, i=1, o=1, reach=F(reach), tol=F(1, 100)))
    J.append(job("very far n=3 S=2", value, kind=k("class"), n=3, S=2, i=1, o=1, reach=F(60), tol=F(1, 100)))
    for mag in (F(1, 10**4), F(1000)):
        J.append(job(f"coefficients up to {mag}", value, kind=k("class"), n=3, S=3, i=2, o=1, mag=mag))
        J.append(job(f"coefficients up to {mag} n=2", value, kind=k("class"), n=2, S=2, i=1, o=2, mag=mag))
    # every pair of settings occurs together
    for q, c in enumerate(covering(3 if tier == "thorough" else 2, n=(2, 3, 4, 1 if pre else 5), S=(1, 2, 3, 6), i=(1, 2, 3), o=(1, 2, 3), b=(1, 2, 3), length=(None, 1, 3, F(1, 2)),
                                   dtype=("float32", "float64"), mode=("train", "eval"), layout=("contig", "transposed", "grad"), kind=("class", "factory"), last=(0, 1),
                                   extra=((), (("weight_magnitude", 3.0),), (("initialize", "uniform"),), (("rescale_output", True),)))):
        last = c.pop("last")
        c["free"] = ((c["b"] - 1, c["i"] - 1),) if last else ((0, 0),)
        c["kind"] = k(c["kind"])
        if c["kind"].endswith("class") and c["extra"] and c["extra"][0][0] == "rescale_output":
            c["extra"] = ()
        J.append(job(f"settings {q}: " + " ".join(f"{a}={v}" for a, v in c.items() if a != "free"), value, pick=q % 3, cost=c["n"] * c["S"] * c["b"], **c))
    for n, S, i, o, b in [(2, 40, 1, 1, 1), (3, 3, 40, 1, 1), (2, 2, 1, 1, 130), (3, 2, 1, 130, 1), (2, 3, 6, 6, 6)]:
        J.append(job(f"large n={n} S={S} {b}x{i}->{o}", value, kind=k("class"), n=n, S=S, i=i, o=o, b=b, free=((b - 1, i - 1),), pick=1, cost=50))
    if tier == "thorough":
        for n in range(1 if pre else 2, 9):
            for S in (1, 2, 3, 4, 5, 6, 8, 12, 16):
                J.append(job(f"thorough n={n} S={S}", value, kind=k("class"), n=n, S=S, i=2, o=2, b=2, free=((1, 1),), cost=n * S, budget=1200))
        for n, S in [(2, 2), (2, 3), (3, 2), (3, 3), (4, 2)]:
            J.append(job(f"thorough all free n={n} S={S}", value, kind=k("class"), n=n, S=S, i=2, o=2, b=2,
                         free=((0, 0), (0, 1), (1, 0), (1, 1)), cost=500, budget=2400))
    return J
