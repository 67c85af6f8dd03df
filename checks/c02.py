"""C02: layers documented as continuous have no jump anywhere."""
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .common import covering
from .ref import job

BOUNDS = ("orders n<=6, segments<=8, inputs<=2, coefficients in [-1,1]; x ranges over the whole domain and a fraction of a segment "
          "beyond it, the step d over [0, 2^-16 segment widths], so every boundary is crossed from every side; "
          "periodic layers: x over more than two periods.")
OUTSIDE = "jumps smaller than 0.02 for coefficients of magnitude 1"


def jump(h, kind, n, S, i=1, length=2, per=None, span=None, o=1, pos=0, k=1):
    from high_order_layers_torch.layers import (
        high_order_convolution_layers, high_order_convolution_transpose_layers, high_order_fc_layers)

    half = F(length or 2) / 2
    wid = 2 * half / S
    kw = {} if per is None else {"periodicity": float(per)}
    if length:
        kw["length"] = float(length)
    d = h.scalar("d", 0, wid * F(1, 65536))
    lo, hi = (-half - wid / 4, half + wid / 4) if span is None else span
    v = h.scalar("v", lo, hi)
    if kind in ("continuous", "continuous_prod", "switch_continuous", "polynomial"):
        layer = high_order_fc_layers(layer_type=kind, n=n, in_features=i, out_features=o, segments=S, **kw)
        ps = [p for k, p in layer.named_parameters() if k.split(".")[-1] == "w"]
        for q, p in enumerate(ps):
            h.set(p, f"w{q}", -1, 1)
        xa = ref.obj((2, i))
        for c in range(i):
            xa[0, c] = v if c == pos else h.scalar(f"u{c}", -half + wid / 8, -half + (wid / 6 if per else wid / 2))
            xa[1, c] = v + d if c == pos else xa[0, c]
        y = h.e(layer(h.tensor(xa)))
        a, b = y[0], y[1]
    else:
        one = kind.endswith("1d")
        make = high_order_convolution_transpose_layers if "transpose" in kind else high_order_convolution_layers
        layer = make(layer_type=kind.replace("transpose", ""), n=n, segments=S, in_channels=i, out_channels=o, kernel_size=k, **kw)
        for q, p in enumerate(p for nm, p in layer.named_parameters() if nm.endswith("weight")):
            h.set(p, f"w{q}", -1, 1)
        # two images that differ in one pixel by d
        sh = (2, i, k) if one else (2, i, k, k)
        xa = ref.obj(sh)
        for q, ix in enumerate(np.ndindex(*sh[1:])):
            if ix[0] == pos and all(e == k - 1 for e in ix[1:]):
                xa[(0,) + ix], xa[(1,) + ix] = v, v + d
            else:
                xa[(0,) + ix] = xa[(1,) + ix] = h.scalar(f"u{q}", -half + wid / 8, -half + (wid / 6 if per else wid / 2))
        y = h.e(layer(h.tensor(xa)))
        a, b = y[0], y[1]
    h.close(a, b, "values on both sides of a small step", tol=F(1, 50))


def jobs(tier):
    J = []
    T = tier == "thorough"
    grid = [(2, 1), (2, 2), (2, 3), (2, 6), (3, 2), (3, 3), (3, 5), (4, 2), (4, 3), (5, 2), (6, 2), (2, 8)]
    for n, S in grid + ([(n, S) for n in range(2, 7) for S in range(1, 13)] if T else []):
        J.append(job(f"fc n={n} S={S}", jump, kind="continuous", n=n, S=S))
    for n, S in [(2, 3), (3, 2), (3, 4), (4, 2)]:
        J.append(job(f"fc two inputs n={n} S={S}", jump, kind="continuous", n=n, S=S, i=2))
        J.append(job(f"prod n={n} S={S}", jump, kind="continuous_prod", n=n, S=S, i=2))
        J.append(job(f"fc length=3 n={n} S={S}", jump, kind="continuous", n=n, S=S, length=3))
        J.append(job(f"conv2d n={n} S={S}", jump, kind="continuous2d", n=n, S=S))
        J.append(job(f"conv1d n={n} S={S}", jump, kind="continuous1d", n=n, S=S))
    J.append(job("conv2d length=4", jump, kind="continuous2d", n=3, S=3, length=4))
    J.append(job("conv1d length=1", jump, kind="continuous1d", n=3, S=3, length=1))
    for n, S in [(2, 2), (2, 4), (3, 2), (3, 3)]:
        J.append(job(f"switch n={n} S={S}", jump, kind="switch_continuous", n=n, S=S))
        J.append(job(f"periodic n={n} S={S}", jump, kind="continuous", n=n, S=S, per=2, span=(F(-5), F(5)), cost=20))
    J.append(job("periodic 3 on length 3", jump, kind="continuous", n=3, S=2, length=3, per=3, span=(F(-7), F(7)), cost=20))
    J.append(job("periodic conv2d", jump, kind="continuous2d", n=3, S=2, per=2, span=(F(-5), F(5)), cost=20))
    J.append(job("periodic polynomial", jump, kind="polynomial", n=3, S=1, per=2, span=(F(-5), F(5)), cost=20))
    # every pair (thorough: triple) of settings occurs together
    def fits(kind, n, S, i, per, **_):
        if per and kind == "switch_continuous":
            return False  # the switch layer takes no period
        if kind == "switch_continuous" and n > 3:
            return False
        return n * S * (2 if per else 1) < (24 if "_" not in kind else 11) and ("_" not in kind or i < 3)

    for q, c in enumerate(covering(3 if T else 2, fits, kind=("continuous", "continuous_prod", "switch_continuous", "continuous1d", "continuous2d", "continuous2dtranspose"), n=(2, 3, 4), S=(2, 3, 5),
                                   length=(None, 1, 3, 4), per=(None, "length", 2), i=(1, 2, 3), o=(1, 2), pos=(0, 1), k=(1, 2))):
        c["pos"] *= c["i"] - 1
        per = (c["length"] or 2) if c["per"] == "length" else c["per"]
        c["per"] = per
        if per:
            c["span"] = (F(-per) * F(9, 8), F(per) * F(9, 8))
            if 2 * F(per) < F(c["length"] or 2) - 1:  # folded inside the domain
                c["span"] = (F(-per), F(per))
        J.append(job(f"settings {q}: " + " ".join(f"{a}={v}" for a, v in c.items() if a != "span"), jump, cost=10, **c))
    return J
