"""C19: the fixed rotation layer: coordinates and all their pairwise rotations, with
fixed weights; the transform networks apply it in front of their MLP."""
import math
from fractions import Fraction as F

import numpy as np
import torch

from . import ref
from .c22 import finish, walk
from .common import covering, pinned
from .netlib import Cut, norm_class
from .ref import job

BOUNDS = "2<=n<=5 (and 1) inputs, 1..6 rotations, normalised or not, inputs in [-1,1], batch<=3; transform networks: every pair of options (orders, segments, widths, period, scale, normalisation, resnet) together, every layer a cut point."
OUTSIDE = "more inputs or rotations"


def rows_ref(n, R, normalize):
    rows = []
    for i in range(n):
        rows.append({i: F(1)})
        for j in range(i + 1, n):
            for r in range(1, R):
                th = math.pi / 2 * r / R
                c, s = ref.rat(math.cos(th)), ref.rat(math.sin(th))
                d = (c + s) if normalize else F(1)
                rows.append({i: c / d, j: s / d})
                rows.append({i: s / d, j: -c / d})
    return rows


def rotation(h, n, R, normalize, b=1, default=False):
    from high_order_layers_torch.layers import fixed_rotation_layer

    layer, width = fixed_rotation_layer(n=n, rotations=R) if default else fixed_rotation_layer(n=n, rotations=R, normalize=normalize)
    rows = rows_ref(n, R, normalize)
    if width != len(rows):
        h.fail(f"width {width}, expected {len(rows)}")
    if any(p.requires_grad for p in layer.parameters()):
        h.fail("the rotation is trainable")
    x = h.real("x", (b, n), -1, 1)
    y = layer(x)
    h.same_shape(y, (b, width), "output")
    xa, ya = h.e(x), h.e(y)
    # which output is which row: the order is the code's choice, the multiset is not
    left = list(range(len(rows)))
    val = lambda v: float(h.ctx.value(v)) if h.sym else float(v)
    for k in range(width):
        best = None
        for r in left:
            e = F(0)
            for i, c in rows[r].items():
                e = e + c * xa[0, i]
            d = abs(val(ya[0, k]) - val(e))
            if best is None or d < best[0]:
                best = (d, r)
        left.remove(best[1])
        exp = []
        for bb in range(b):
            e = F(0)
            for i, c in rows[best[1]].items():
                e = e + c * xa[bb, i]
            exp.append(e)
        h.close(ya[:, k], exp, f"output {k}")
    if normalize:
        h.le(y, 1, "stays in [-1, 1]", slack=F(1, 1000))
        h.le(-h.e(y), 1, "stays in [-1, 1]", slack=F(1, 1000))


def refuses(h, R):
    from high_order_layers_torch.layers import fixed_rotation_layer

    h.asserted += 1
    try:
        fixed_rotation_layer(n=2, rotations=R)
    except ValueError:
        return
    h.fail(f"rotations={R} accepted")


def transform(h, low, n, R, b=1):
    """The network is its own MLP applied to the rotated inputs."""
    from high_order_layers_torch.layers import fixed_rotation_layer
    from high_order_layers_torch.networks import transform_low_mlp, transform_mlp

    if low:
        net = transform_low_mlp(in_width=n, hidden_width=2, out_width=1, hidden_layers=0, non_linearity=None, normalization=None, rotations=R)
    else:
        net = transform_mlp(layer_type="continuous", in_width=n, hidden_width=1, out_width=2, n=2, n_in=2, n_hidden=2, n_out=3, in_segments=1, hidden_segments=1,
                            out_segments=1, hidden_layers=0, rotations=R, periodicity=None)
    rot, width = fixed_rotation_layer(n=n, rotations=R)
    frozen = [p for p in net.parameters() if not p.requires_grad]
    if len(frozen) != 1 or tuple(frozen[0].shape) != (width, n):
        h.fail("exactly one fixed parameter, the rotation")
    h.close(frozen[0], h.e(rot.weight), "rotation weights")
    for q, p in enumerate(p for p in net.parameters() if p.requires_grad):
        h.set(p, f"w{q}", -1, 1)
    x = h.real("x", (b, n), -1, 1)
    mlp = [m for m in net.children() if sum(p.requires_grad for p in m.parameters())]
    if len(mlp) != 1:
        h.fail("one trainable part")
    y = net(x)
    h.close(y, h.e(mlp[0](rot(x))), "MLP of the rotated inputs", tol=F(1, 200))
    y.sum().backward()
    if frozen[0].grad is not None:
        h.fail("the rotation receives gradients")


def options(h, low, n, R, hidden, width, out, b, orders=(2, 3, 2), segs=(1, 1, 1), kind="continuous", scale=None, per="default", norm=None, resnet=None, nonlin=False, free=0):
    """Every option reaches the MLP behind the rotation: each layer is a cut point (see C22)."""
    from high_order_layers_torch import layers as LL
    from high_order_layers_torch import networks as NN

    nm = norm_class(norm)
    kw = {}
    if low:
        net = NN.transform_low_mlp(in_width=n, rotations=R, hidden_width=width, out_width=out, hidden_layers=hidden, non_linearity=torch.nn.ReLU() if nonlin else None, normalization=nm)
        per = scale = None
    else:
        if nm is not None:
            kw["normalization"] = nm
        if scale is not None:
            kw["scale"] = float(scale)
        if per != "default":
            kw["periodicity"] = per
        if resnet is not None:
            kw["resnet"] = resnet
        net = NN.transform_mlp(in_width=n, rotations=R, layer_type=kind, hidden_width=width, out_width=out, n=9, n_in=orders[0], n_hidden=orders[1], n_out=orders[2], in_segments=segs[0],
                               hidden_segments=segs[1], out_segments=segs[2], hidden_layers=hidden, **kw)
        per = 2.0 if per == "default" else per
    rot, w_in = LL.fixed_rotation_layer(n=n, rotations=R)
    half = F(2 if scale is None else scale) / 2
    for q, p in enumerate(p for p in net.parameters() if p.requires_grad):
        h.set(p, f"w{q}", -1, 1)
    net.eval()
    S = math.lcm(*segs)
    # periodic layers: every element stays inside the period and inside one segment
    span = half if per is None else min(half, F(per) / 2)
    cells = (8 if norm else 1) * (S if span == half else S * 2)
    c = Cut(h, net, S=S, half=span, free=free, cells=cells, inputs=bool(norm))
    xa = pinned(h, "x", (b, n), cells, span, (), F(1, 8), pick=3)
    y = net(h.tensor(xa))
    c.close()
    mod, xin, yout, new = c.calls[0]
    h.close(xin, xa, "input of the rotation")
    h.close(yout, h.e(rot(h.tensor(c.args[0]))), "the rotated inputs")
    spec = [(kind, orders[0], segs[0], w_in, width)] + [(kind, orders[1], segs[1], width, width)] * hidden + [(kind, orders[2], segs[2], width, out)]
    if low:
        spec = [("linear", 1, 1, s[3], s[4]) for s in spec]
    pos, cur = walk(h, c, spec, new, half, per, norm, nonlin, resnet=range(2, hidden + 1) if resnet else (), pos=1)
    finish(h, net, c, pos, cur, y)


def jobs(tier):
    J = []
    for n, R in [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (2, 6), (4, 3), (5, 2), (3, 4)]:
        for nz in (True, False):
            J.append(job(f"n={n} rotations={R} normalize={nz}", rotation, n=n, R=R, normalize=nz, b=2 if R == 2 else 1))
    J.append(job("defaults", rotation, n=2, R=2, normalize=True, default=True))
    for R in (0, -1):
        J.append(job(f"refuses {R}", refuses, R=R))
    for n, R in [(2, 1), (2, 2), (3, 2)]:
        J.append(job(f"transform low n={n} R={R}", transform, low=True, n=n, R=R, b=2))
        J.append(job(f"transform n={n} R={R}", transform, low=False, n=n, R=R))
    ok = lambda hidden, width, orders, kind, R, n, norm, b, resnet, **k: not (norm and width > 2) and not (kind.endswith("prod") and n == 3 and R == 3) and not (norm and (b > 1 or norm == "l2" and width > 2)) and not (resnet and hidden > 1 and (norm or b * width > 2))
    for q, c in enumerate(covering(2, ok, n=(2, 1, 3), R=(2, 1, 3), hidden=(1, 0, 3), width=(2, 1, 3), out=(1, 2), b=(1, 2), orders=((2, 3, 2), (2, 3, 4), (4, 2, 3), (3, 3, 2)), segs=((1, 2, 1), (1, 2, 3), (3, 1, 2), (2, 3, 1)),
                                   kind=("continuous", "discontinuous"), scale=(None, 1, 4), per=("default", None, 1.0), norm=(None, "max_abs", "l2"), resnet=(None, True, False), free=(0, 1, 2))):
        J.append(job(f"options {q}", options, low=False, cost=5, **c))
    for q, c in enumerate(covering(2, lambda norm, width, hidden, **k: not (norm and width > 2), n=(2, 1, 3), R=(2, 1, 3), hidden=(1, 0, 2), width=(2, 1, 3), out=(1, 2), b=(1, 2), norm=(None, "max_abs", "l2"), nonlin=(False, True))):
        J.append(job(f"low order options {q}", options, low=True, cost=5, **c))
    if tier == "thorough":
        for n in range(2, 8):
            for R in range(1, 8):
                J.append(job(f"thorough n={n} R={R}", rotation, n=n, R=R, normalize=bool(n % 2), b=2))
    return J
