"""C30: the Lightning modules build the configured network and report loss and accuracy of the batch."""
import itertools
from fractions import Fraction as F

import numpy as np
import torch

from engine import alg

from . import ref
from .common import covering, pinned
from .ref import job

BOUNDS = ("ClassificationNet and RegressionNet with every model_type: batches<=3, classes<=3 with every assignment of labels, widths<=3, orders n<=4 and segments<=3 per layer; "
          "inputs, coefficients and targets symbolic; normalisation on and off; train, val and test steps; every pair of settings occurs together. exp and log are uninterpreted with their functional laws.")
OUTSIDE = "batch normalisation in training mode; the schedulers' behaviour over epochs (torch's own)"
TOL = F(1, 200)


def config(model_type="high_order", classes=2, opt=None, **net):
    from omegaconf import OmegaConf

    base = dict(model_type=model_type, layer_type="continuous", normalize=False, n=2, n_in=None, n_hidden=None, n_out=None,
                input=dict(segments=1, width=1), output=dict(segments=1, width=classes), hidden=dict(segments=1, layers=1, width=1))
    for k, v in net.items():
        base[k] = {**base[k], **v} if isinstance(v, dict) else v
    o = dict(name="adam", lr=1e-3, patience=5, factor=0.5, gamma=0.9, scheduler="none")
    o.update(opt or {})
    return OmegaConf.create(dict(net=base, optimizer=o, data=dict(classes=classes)))


def recorded(net):
    """Stand-in for the trainer's log."""
    log = {}
    net.log = lambda name, value, *a, **k: log.__setitem__(name, value)
    return log


def fill(h, net, mag=F(1)):
    net.eval()
    for q, p in enumerate(net.parameters()):
        h.set(p, f"w{q}", -mag, mag)


STEPS = {"train": "training_step", "val": "validation_step", "test": "test_step"}


def classify(h, labels, classes, step="train", shape=None, width=1):
    from high_order_layers_torch.modules import ClassificationNet

    b = len(labels)
    net = ClassificationNet(config(classes=classes, input=dict(width=width), hidden=dict(layers=0)))
    fill(h, net)
    log = recorded(net)
    # the logits are arbitrary: the network is replaced by a stand-in for its output
    ya = h.elements("logit", (b, classes), -2, 2)
    given = []

    class Model(torch.nn.Module):
        def forward(self, x):
            given.append(h.e(x).copy())
            return h.tensor(ya)

    net.model = Model()
    x = h.real("x", (b, width), -1, 1)
    t = torch.tensor(labels)
    r = getattr(net, STEPS[step])((x, t.reshape(shape) if shape else t), 0)
    h.true([len(given) == 1], "the network is evaluated once")
    h.close(given[0], h.e(x), "the network is given the batch")
    loss = F(0)
    hits = 0
    for k, l in enumerate(labels):
        tot = F(0)
        for c in range(classes):
            tot = tot + alg.exp(ya[k, c])
        loss = loss + alg.log(tot) - ya[k, l]
        best = 0
        for c in range(1, classes):
            if ya[k, c] > ya[k, best]:
                best = c
        hits += best == l
    h.close(h.e(r).reshape(-1), [loss * F(1, b)], "loss", tol=TOL)
    if sorted(log) != sorted([f"{step}_loss", f"{step}_acc"]):
        h.fail(f"logged {sorted(log)}")
    h.close(h.e(log[f"{step}_loss"]).reshape(-1), [loss * F(1, b)], "logged loss", tol=TOL)
    h.close(h.e(log[f"{step}_acc"]).reshape(-1), [F(hits, b)], "logged accuracy", tol=TOL)
    h.le([F(0)], h.e(r).reshape(-1), "cross entropy is never negative", slack=F(1, 10**4))


def regress(h, b, o, step="train", flat=False):
    from high_order_layers_torch.modules import RegressionNet

    net = RegressionNet(config(classes=o, output=dict(width=o), hidden=dict(layers=0)))
    fill(h, net)
    log = recorded(net)
    x = h.real("x", (b, 1), -1, 1)
    ta = h.elements("t", (b, o), -2, 2)
    t = h.tensor(ta.reshape(-1) if flat else ta)
    r = getattr(net, STEPS[step])((x, t), 0)
    y = h.e(net(x))
    h.close(h.e(net.model(x)), y, "prediction is the network's output", tol=TOL)
    acc = F(0)
    for ix in np.ndindex(b, o):
        acc = acc + (y[ix] - ta[ix]) * (y[ix] - ta[ix])
    acc = acc * F(1, b * o)
    h.close(h.e(r).reshape(-1), [acc], "loss", tol=TOL)
    if sorted(log) != [f"{step}_loss"]:
        h.fail(f"logged {sorted(log)}")
    h.close(h.e(log[f"{step}_loss"]).reshape(-1), [acc], "logged loss", tol=TOL)


def same(h, a, b, xs, tol=F(1, 10**4), mag=F(1)):
    """Two networks with the same coefficients compute the same function."""
    a.eval()
    b.eval()
    pa, pb = list(a.parameters()), list(b.parameters())
    if [tuple(p.shape) for p in pa] != [tuple(p.shape) for p in pb]:
        h.fail(f"coefficients of shapes {[tuple(p.shape) for p in pa]}, expected {[tuple(p.shape) for p in pb]}")
    fill(h, a, mag)
    for p, q in zip(pa, pb):
        h.assign(q, h.e(p))
    h.close(a(h.tensor(xs)), h.e(b(h.tensor(xs))), "configured network", tol=tol)


def mlp(h, kind, n, ns, widths, S, hidden, norm=False, b=1, free=False):
    from high_order_layers_torch.modules import select_network
    from high_order_layers_torch.networks import HighOrderMLP

    cfg = config("high_order", layer_type=kind, n=n, n_in=ns[0], n_hidden=ns[1], n_out=ns[2], input=dict(segments=S[0], width=widths[0]), normalize=norm,
                 output=dict(segments=S[2], width=widths[2]), hidden=dict(segments=S[1], width=widths[1], layers=hidden))
    net = select_network(cfg)
    kw = {k: v for k, v in zip(("n_in", "n_hidden", "n_out"), ns) if v is not None}
    want = HighOrderMLP(layer_type=kind, n=n, in_width=widths[0], hidden_width=widths[1], out_width=widths[2], hidden_layers=hidden,
                        in_segments=S[0], hidden_segments=S[1], out_segments=S[2], **({"normalization": torch.nn.LazyBatchNorm1d} if norm else {}), **kw)
    materialise([net, want], (2, widths[0]), norm)
    same(h, net, want, pinned(h, "x", (b, widths[0]), max(S), F(1), ((b - 1, 0),) if free else ()))


def materialise(nets, shape, norm=True):
    """Lazy normalisations get their sizes, then distinct statistics (the same in both networks)."""
    for net in nets:
        net.eval()
        net(torch.zeros(shape))
        k = 0
        for m in net.modules():
            if isinstance(m, torch.nn.modules.batchnorm._BatchNorm):
                for q in range(m.num_features):
                    m.running_mean[q] = (k * 5 + q * 3) % 8 / 16 - 0.25
                    m.running_var[q] = 1 + (k * 3 + q) % 4 / 4
                k += 1


def mlp_input(h, kind, n, widths, S, hidden, norm=False, b=1):
    """Only the first layer is high order."""
    from high_order_layers_torch.layers import high_order_fc_layers
    from high_order_layers_torch.modules import select_network
    from high_order_layers_torch.networks import LowOrderMLP

    cfg = config("high_order_input", layer_type=kind, n=n, normalize=norm, input=dict(segments=S, width=widths[0]), output=dict(width=widths[2]), hidden=dict(width=widths[1], layers=hidden))
    net = select_network(cfg)
    bn = torch.nn.LazyBatchNorm1d if norm else None
    want = torch.nn.Sequential(high_order_fc_layers(layer_type=kind, n=n, in_features=widths[0], out_features=widths[1], segments=S), *([bn()] if norm else []),
                               LowOrderMLP(in_width=widths[1], out_width=widths[2], hidden_width=widths[1], hidden_layers=hidden - 1, non_linearity=torch.nn.ReLU(), normalization=bn))
    materialise([net, want], (2, widths[0]))
    same(h, net, want, pinned(h, "x", (b, widths[0]), S, F(1), ((0, 0),)))


def convnet(h, kind, n, channels, S, k, stride, size, features, out, per=2.0, focus=None):
    from high_order_layers_torch import networks as NN
    from high_order_layers_torch.modules import select_network

    extra = {} if focus is None else {"focus": list(focus)}
    cfg = config("high_order_conv" if focus is None else "high_order_tail_focus", layer_type=kind, n=list(n), channels=list(channels), segments=list(S), kernel_size=list(k),
                 stride=list(stride), periodicity=per, out_features=out, features=features, **extra)
    kw = dict(layer_type=kind, n=list(n), channels=list(channels), segments=list(S), kernel_size=list(k), stride=list(stride), periodicity=per, rescale_output=False,
              normalization=torch.nn.LazyBatchNorm1d)
    if focus is None:
        want = NN.HighOrderFullyConvolutionalNetwork(pooling=None, **kw)
    else:
        want = NN.HighOrderTailFocusNetwork(focus=list(focus), **kw)
    want = torch.nn.Sequential(want, torch.nn.LazyLinear(out_features=out))
    net = select_network(cfg)
    materialise([net, want], (1, channels[0], size))
    # hidden values stay inside the period; the first input element lies beyond it
    xa = pinned(h, "x", (1, channels[0] * size), 1, F(1, 4), ())
    xa[0, 0] = h.scalar("far", F(9, 8), F(11, 8))
    same(h, net, want, xa.reshape(1, channels[0], size), mag=F(1, 8))


def conv_segments(h, kind, n, channels, S, k, stride, size, out, focus=None):
    """Coefficient shapes of every convolution follow its own order, segments, kernel and channels."""
    from high_order_layers_torch.modules import select_network

    extra = {} if focus is None else {"focus": list(focus)}
    cfg = config("high_order_conv" if focus is None else "high_order_tail_focus", layer_type=kind, n=list(n), channels=list(channels), segments=list(S), kernel_size=list(k),
                 stride=list(stride), periodicity=None, out_features=out, features=size, **extra)
    net = select_network(cfg).eval()
    y = net(torch.zeros(2, channels[0], size))
    count = lambda n, S: {"continuous1d": (n - 1) * S + 1, "discontinuous1d": n * S}.get(kind, n)
    want = [(channels[q + 1], channels[q] * count(n[q], S[q]), k[q]) for q in range(len(k))]
    got = [tuple(p.shape) for p in net.parameters() if p.ndim == 3]
    h.true([got == want, tuple(y.shape) == (2, out)], f"coefficients {got}, expected {want}; output {tuple(y.shape)}")


def schedule(h, scheduler, lr, patience, factor, gamma):
    """The rate follows the configured schedule."""
    from high_order_layers_torch.modules import RegressionNet

    net = RegressionNet(config(opt=dict(scheduler=scheduler, lr=float(lr), patience=patience, factor=float(factor), gamma=float(gamma))))
    (opt,), (sched,) = net.configure_optimizers()
    rate = lambda: h.true([all(abs(g["lr"] - float(want)) < 1e-9 for g in opt.param_groups)], f"rate {[g['lr'] for g in opt.param_groups]}, expected {float(want)}")
    want = F(lr)
    rate()
    if scheduler == "exponential":
        for _ in range(3):
            opt.step()
            sched["scheduler"].step()
            want = want * gamma
            rate()
        return
    sched["scheduler"].step(1.0)
    for t in range(2 * (patience + 1)):
        sched["scheduler"].step(1.0)  # no improvement
        if (t + 1) % (patience + 1) == 0:
            want = want * factor
        rate()


def refused(h):
    from high_order_layers_torch.modules import RegressionNet, select_network

    out = []
    for kind in ("low", "conv", ""):
        try:
            select_network(config(kind))
            out.append(False)
        except ValueError:
            out.append(True)
    try:
        RegressionNet(config(opt=dict(name="nothing"))).configure_optimizers()
        out.append(False)
    except ValueError:
        out.append(True)
    h.true(out, "unknown model types and optimizers are refused")


def optimizer(h, which, scheduler, lr):
    """One step of the configured optimizer moves every coefficient against its gradient by at most about lr."""
    from high_order_layers_torch.modules import RegressionNet

    net = RegressionNet(config(opt=dict(name=which, scheduler=scheduler, lr=float(lr))))
    r = net.configure_optimizers()
    if scheduler == "none":
        opt = r
    else:
        opts, sched = r
        h.true([len(opts) == 1, len(sched) == 1, sched[0]["monitor"] == "train_loss", sched[0]["reduce_on_plateau"] == (scheduler == "plateau"),
                sched[0]["scheduler"].optimizer is opts[0]], "scheduler")
        opt = opts[0]
    ids = sorted(id(p) for g in opt.param_groups for p in g["params"])
    h.true([ids == sorted(id(p) for p in net.parameters()), all(abs(g["lr"] - float(lr)) < 1e-12 for g in opt.param_groups)], "all parameters at the configured rate")


def jobs(tier):
    J = []
    deep = tier == "thorough"
    for classes, b in [(2, 1), (3, 1), (2, 2), (3, 2)]:
        for q, labels in enumerate(itertools.product(range(classes), repeat=b)):
            step = list(STEPS)[q % 3]
            J.append(job(f"classify {classes} classes labels={labels} {step}", classify, labels=list(labels), classes=classes, step=step, shape=(b, 1) if q % 2 else None))
    for step in STEPS:
        J.append(job(f"classify {step} three samples", classify, labels=[1, 0, 1], classes=2, step=step, shape=(3, 1), width=2))
        for b, o, flat in [(1, 1, False), (2, 1, True), (2, 2, False), (3, 1, False)]:
            J.append(job(f"regress b={b} outputs={o} {step}", regress, b=b, o=o, step=step, flat=flat))
    for kind, n, ns, wd, S, hid in [("continuous", 2, (3, 4, 2), (2, 1, 2), (2, 3, 1), 1), ("discontinuous", 3, (None, 2, None), (1, 1, 2), (1, 2, 3), 2), ("polynomial", 2, (3, None, 3), (1, 1, 2), (1, 1, 1), 1),
                                    ("continuous", 2, (None, None, 3), (1, 2, 1), (3, 1, 2), 0), ("discontinuous", 2, (3, None, None), (2, 2, 2), (3, 2, 1), 1)]:
        # one segment per layer symbolically, several through the coefficient shapes
        J.append(job(f"select {kind} n={n} {ns} {wd} S={S} hidden={hid}", mlp, kind=kind, n=n, ns=ns, widths=wd, S=(1, 1, 1), hidden=hid))
        J.append(job(f"select {kind} n={n} {ns} S={S} first layer", mlp_segments, kind=kind, n=n, ns=ns, widths=wd, S=S, hidden=hid))
    for kind, n, wd, S, hid in [("continuous", 3, (2, 2, 1), 3, 1), ("discontinuous", 2, (1, 2, 3), 2, 2), ("polynomial", 4, (2, 1, 2), 1, 1)]:
        J.append(job(f"select input {kind} n={n} {wd} S={S} hidden={hid}", mlp_input, kind=kind, n=n, widths=wd, S=S, hidden=hid))
    for kind, n, ch, S, k, st, size, out, foc in [("continuous1d", (2, 3), (1, 2, 1), (1, 1), (2, 1), (1, 1), 3, 2, None), ("polynomial1d", (3, 2), (2, 1, 2), (1, 1), (1, 2), (1, 1), 2, 1, None),
                                                  ("continuous1d", (2,), (1, 2), (1,), (2,), (2,), 4, 2, None), ("continuous1d", (2, 2), (1, 1, 1), (1, 1), (2, 2), (1, 1), 4, 1, (2, 1))]:
        J.append(job(f"select {kind} conv {ch} focus={foc}", convnet, kind=kind, n=n, channels=ch, S=S, k=k, stride=st, size=size, features=size, out=out, focus=foc))
    J.append(job("refused", refused))
    n3, s3 = ((2, 2, 3), (3, 2, None), (None, 3, 2), (None, None, None)), ((1, 1, 1), (1, 1, 2), (1, 2, 1))
    for q, c in enumerate(covering(kind=("continuous", "discontinuous", "polynomial"), n=(2, 3), ns=n3, widths=((1, 2, 1), (2, 1, 2), (1, 1, 3), (2, 2, 1)), S=s3, hidden=(0, 1, 2), norm=(False, True), b=(1, 2),
                                   valid=lambda ns, hidden, widths, b, n, norm, **k: (hidden < (1 if norm and None not in ns else 2) or widths[1] == 1 and not norm) and ((3 if None in ns else 2) * max(hidden, 1) * widths[1] <= 6))):
        c["S"] = (1, 1, 1) if c["kind"] == "polynomial" else c["S"]
        if max(c["S"]) > 1:
            J.append(job(f"select shapes {q} {c}", mlp_segments, **{k: v for k, v in c.items() if k not in ("b", "norm")}))
            c["S"] = (1, 1, 1)
        J.append(job(f"select settings {q} {c}", mlp, cost=4, **c))
    for q, c in enumerate(covering(kind=("continuous", "discontinuous", "polynomial"), n=(2, 3, 4), widths=((1, 2, 1), (2, 1, 2), (2, 2, 3)), S=(1, 2, 3), hidden=(1, 2, 3), norm=(False, True), b=(1, 2),
                                   valid=lambda hidden, widths, b, norm, **k: hidden * widths[1] * b <= (2 if norm else 4))):
        J.append(job(f"select input settings {q} {c}", mlp_input, cost=4, **c))
    for kind in ("continuous1d", "discontinuous1d", "polynomial1d"):
        for foc in (None, (2, 1), (3, 9)):
            J.append(job(f"select {kind} shapes focus={foc}", conv_segments, kind=kind, n=(2, 3), channels=(1, 2, 3), S=(3, 2), k=(2, 3), stride=(2, 1), size=9, out=4, focus=foc))
            J.append(job(f"select {kind} shapes 3 layers focus={foc}", conv_segments, kind=kind, n=(3, 4, 2), channels=(3, 2, 1, 2), S=(1, 4, 2), k=(3, 1, 2), stride=(1, 2, 1), size=12, out=2,
                         focus=None if foc is None else foc + (2,)))
    for sc, lr, pa, fa, ga in [("plateau", F(1, 64), 1, F(1, 2), F(7, 8)), ("plateau", F(1, 8), 3, F(1, 4), F(1, 2)), ("exponential", F(1, 64), 2, F(1, 4), F(3, 4)), ("exponential", F(1, 2), 5, F(1, 2), F(15, 16))]:
        J.append(job(f"schedule {sc} lr={lr} patience={pa} factor={fa} gamma={ga}", schedule, scheduler=sc, lr=lr, patience=pa, factor=fa, gamma=ga))
    for step in STEPS:
        J.append(job(f"regress batch of 130 {step}", regress, b=130, o=1, step=step, flat=True))
        J.append(job(f"classify four classes {step}", classify, labels=[3], classes=4, step=step))
    for name in ("adam", "lion"):
        for s in ("none", "plateau", "exponential"):
            J.append(job(f"optimizer {name} {s}", optimizer, which=name, scheduler=s, lr=F(1, 64)))
    return J


def mlp_segments(h, kind, n, ns, widths, S, hidden):
    """Coefficient shapes of every layer follow its own order and segments."""
    from high_order_layers_torch.modules import select_network

    cfg = config("high_order", layer_type=kind, n=n, n_in=ns[0], n_hidden=ns[1], n_out=ns[2], input=dict(segments=S[0], width=widths[0]),
                 output=dict(segments=S[2], width=widths[2]), hidden=dict(segments=S[1], width=widths[1], layers=hidden))
    net = select_network(cfg)
    a, w, o = widths
    count = lambda n, S: {"continuous": (n - 1) * S + 1, "discontinuous": n * S}.get(kind, n)
    N = [v or n for v in ns]
    want = [(w, a, count(N[0], S[0]))] + [(w, w, count(N[1], S[1]))] * hidden + [(o, w, count(N[2], S[2]))]
    got = [tuple(p.shape) for p in net.parameters() if p.ndim == 3]
    h.true([sorted(got) == sorted(want)], f"coefficients {got}, expected {want}")
