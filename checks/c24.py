"""C24: the variational autoencoder encodes, reparameterises, decodes and scores as defined."""
from fractions import Fraction as F

import numpy as np
import torch

from engine import alg

from . import ref
from .common import covering
from .netlib import fill
from .ref import job

BOUNDS = ("batches<=3, latent sizes<=3, encoders with up to 4 features of shape [c,h,w], decoders with up to 3 channels; every weight, input, latent mean and "
          "log variance symbolic in [-2,2], every outcome of the normal draws in [-4,4], KL weights {0, 1/8, 1/3, 1, 2}; log variances "
          "also in [-20,8] and means near -30 and 40; a batch of 130; training and evaluation mode.")
OUTSIDE = "the distribution of the normal generator itself; devices other than the CPU"


class Enc(torch.nn.Module):
    """Any encoder: here one factor per input element, output of shape [b, c, h, w]."""

    def __init__(self, shape):
        super().__init__()
        self.shape = shape
        self.w = torch.nn.Parameter(torch.ones(shape))

    @property
    def output_size(self):
        return int(np.prod(self.shape))

    def forward(self, x):
        return x * self.w


class Dec(torch.nn.Module):
    """Any decoder taking [b, channels, 1, 1]; here it returns [b, channels, 2, 1]."""

    def __init__(self, channels):
        super().__init__()
        self.channels = channels
        self.seen = []
        self.w = torch.nn.Parameter(torch.ones(channels, 2, 1))

    @property
    def in_channels(self):
        return self.channels

    def forward(self, x):
        self.seen.append(tuple(x.shape))
        return x * self.w


def build(h, shape, latent, channels):
    from high_order_layers_torch.networks import VanillaVAE

    net = VanillaVAE(latent_dim=latent, encoder=Enc(shape), decoder=Dec(channels))
    if not all(any(p is q for q in net.parameters()) for m in (net.encoder, net.decoder) for p in m.parameters()):
        h.fail("encoder or decoder coefficients are not parameters of the network")
    fill(h, net)
    return net


def affine(h, lin, v):
    W, b = h.e(lin.weight), h.e(lin.bias)
    if W.shape[1] != len(v):
        h.fail(f"linear layer for {W.shape[1]} inputs is given {len(v)}")
    out = []
    for o in range(W.shape[0]):
        acc = b[o]
        for k, x in enumerate(v):
            acc = acc + W[o, k] * x
        out.append(acc)
    return out


def encoded(h, net, xa):
    w = h.e(net.encoder.w)
    mu, lv = [], []
    for b in range(xa.shape[0]):
        flat = [xa[(b,) + ix] * w[ix] for ix in np.ndindex(*w.shape)]
        mu.append(affine(h, net.fc_mu, flat))
        lv.append(affine(h, net.fc_var, flat))
    return np.array(mu, dtype=object), np.array(lv, dtype=object)


def decoded(h, net, za):
    w = h.e(net.decoder.w)
    out = ref.obj((za.shape[0],) + w.shape)
    for b in range(za.shape[0]):
        d = affine(h, net.decoder_input, list(za[b]))
        for ix in np.ndindex(*w.shape):
            out[(b,) + ix] = d[ix[0]] * w[ix]
    return out


def draws(h, shape):
    """The normal draws made so far, one per element, in order."""
    names = [n for n in (h.ctx.vars if h.sym else h.used) if n.startswith("gauss")]
    if len(names) != int(np.prod(shape)):
        h.fail(f"{len(names)} normal draws for {int(np.prod(shape))} latent values")
    g = ref.obj(shape)
    for n, ix in zip(names, np.ndindex(*shape)):
        g[ix] = h.scalar(n, -4, 4)
    return g


def sampled(h, mu, lv, g):
    z = ref.obj(mu.shape)
    for ix in np.ndindex(*mu.shape):
        z[ix] = mu[ix] + alg.exp(lv[ix] * F(1, 2)) * g[ix]
    return z


def encode(h, b, shape, latent, channels):
    net = build(h, shape, latent, channels)
    x = h.real("x", (b,) + shape, -2, 2)
    r = net.encode(x)
    mu, lv = encoded(h, net, h.e(x))
    h.true([len(r) == 2], "encode returns mean and log variance")
    h.same_shape(r[0], (b, latent), "mean")
    h.same_shape(r[1], (b, latent), "log variance")
    h.close(r[0], mu, "latent mean")
    h.close(r[1], lv, "latent log variance")


def decode(h, b, shape, latent, channels):
    net = build(h, shape, latent, channels)
    z = h.real("z", (b, latent), -2, 2)
    y = net.decode(z)
    h.true([net.decoder.seen == [(b, channels, 1, 1)]], "decoder input shape")
    h.close(y, decoded(h, net, h.e(z)), "decoded latent")


def reparameterize(h, b, latent, lo=-2, hi=2, mid=0, train=True):
    net = build(h, (1, 1, 1), latent, 1).train(train)
    mu, lv = h.real("mu", (b, latent), mid - 2, mid + 2), h.real("lv", (b, latent), lo, hi)
    with h.randomness():
        z = net.reparameterize(mu, lv)
        g = draws(h, (b, latent))
    h.close(z, sampled(h, h.e(mu), h.e(lv), g), "reparameterised latent", tol=F(1, 200))
    h.close(mu, h.e(mu).copy(), "mean left alone")


def whole(h, b, shape, latent, channels, generate=False, train=True):
    net = build(h, shape, latent, channels).train(train)
    x = h.real("x", (b,) + shape, -1, 1)
    xa = h.e(x).copy()
    mu, lv = encoded(h, net, xa)
    with h.randomness():
        r = net.generate(x) if generate else net(x)
        g = draws(h, (b, latent))
    y = decoded(h, net, sampled(h, mu, lv, g))
    if generate:
        h.close(r, y, "generated output", tol=F(1, 50))
        return
    h.true([len(r) == 4], "four results")
    h.close(r[0], y, "reconstruction", tol=F(1, 50))
    h.close(r[1], xa, "input handed back")
    h.close(r[2], mu, "mean handed back")
    h.close(r[3], lv, "log variance handed back")


def sample(h, k, latent, channels):
    net = build(h, (1, 1, 1), latent, channels)
    with h.randomness():
        y = net.sample(k)
        g = draws(h, (k, latent))
    h.close(y, decoded(h, net, g), "samples", tol=F(1, 200))


def loss(h, b, shape, latent, weight, lo=-2, hi=2, mid=0, channels=1, enc=(1, 1, 1), train=True):
    net = build(h, enc, latent, channels).train(train)
    r, x = h.real("r", (b,) + shape, mid - 2, mid + 2), h.real("x", (b,) + shape, -2, 2)
    mu, lv = h.real("mu", (b, latent), mid - 2, mid + 2), h.real("lv", (b, latent), lo, hi)
    out = net.loss_function(r, x, mu, lv, M_N=float(weight))
    ra, xa, ma, la = h.e(r), h.e(x), h.e(mu), h.e(lv)
    mse = F(0)
    for ix in np.ndindex(*ra.shape):
        mse = mse + (ra[ix] - xa[ix]) * (ra[ix] - xa[ix])
    mse = mse * F(1, ra.size)
    kl = F(0)
    for ix in np.ndindex(*ma.shape):
        kl = kl + alg.exp(la[ix]) + ma[ix] * ma[ix] - 1 - la[ix]
    kl = kl * F(1, 2 * b)
    h.close(h.e(out["Reconstruction_Loss"]).reshape(-1), [mse], "reconstruction loss", tol=F(1, 200))
    h.close(h.e(out["KLD"]).reshape(-1), [-kl], "reported KLD (negative divergence)", tol=F(1, 200))
    h.close(h.e(out["loss"]).reshape(-1), [mse + F(weight) * kl], "loss", tol=F(1, 200))
    if b * latent > 6:
        return
    h.le(h.e(out["KLD"]).reshape(-1), F(0), "divergence is never negative", slack=F(1, 10**4))
    h.le(h.e(out["Reconstruction_Loss"]).reshape(-1) - h.e(out["loss"]).reshape(-1), F(0), "loss is at least the reconstruction loss", slack=F(1, 10**4))


def jobs(tier):
    J = []
    deep = tier == "thorough"
    for b, sh, l, c in [(1, (1, 1, 1), 1, 1), (2, (2, 1, 2), 2, 3), (3, (1, 2, 2), 3, 2), (2, (3,), 1, 2)] + ([(4, (2, 2, 2), 3, 4)] if deep else []):
        J.append(job(f"encode b={b} {sh} latent={l}", encode, b=b, shape=sh, latent=l, channels=c))
        J.append(job(f"decode b={b} latent={l} channels={c}", decode, b=b, shape=sh, latent=l, channels=c))
        J.append(job(f"reparameterize b={b} latent={l}", reparameterize, b=b, latent=l))
        J.append(job(f"sample {b} latent={l} channels={c}", sample, k=b, latent=l, channels=c))
    for b, sh, l, c in [(1, (1, 1, 1), 1, 1), (2, (2,), 1, 2), (2, (1, 1, 2), 2, 1)]:
        J.append(job(f"forward b={b} {sh} latent={l}", whole, b=b, shape=sh, latent=l, channels=c))
        J.append(job(f"generate b={b} {sh} latent={l}", whole, b=b, shape=sh, latent=l, channels=c, generate=True))
    for b, sh, l in [(1, (1, 1, 1), 1), (2, (1, 2, 1), 2), (3, (2,), 1), (1, (3,), 3), (3, (1, 1, 1), 2)]:
        for wt in (F(0), F(1, 8), F(1)):
            J.append(job(f"loss b={b} {sh} latent={l} weight={wt}", loss, b=b, shape=sh, latent=l, weight=wt))
    for lo, hi in [(-20, -16), (-9, -5), (3, 6), (-10, 8)]:
        J.append(job(f"reparameterize log variance [{lo},{hi}]", reparameterize, b=2, latent=2, lo=lo, hi=hi))
        J.append(job(f"loss log variance [{lo},{hi}]", loss, b=2, shape=(2,), latent=2, weight=F(1, 8), lo=lo, hi=hi))
    for mid in (-30, 40):
        J.append(job(f"reparameterize mean around {mid}", reparameterize, b=1, latent=2, mid=mid))
        J.append(job(f"loss mean around {mid}", loss, b=2, shape=(1, 1, 2), latent=1, weight=F(1, 8), mid=mid))
    for q, c in enumerate(covering(b=(1, 2, 3), shape=((1, 1, 1), (2, 1, 2), (3,)), latent=(1, 2, 4), channels=(1, 2, 3), train=(False, True), weight=(F(1, 3), F(2)), enc=((1, 1, 1), (2,)))):
        w, e = c.pop("weight"), c.pop("enc")
        J.append(job(f"loss settings {q} {c}", loss, weight=w, enc=e, **c))
        J.append(job(f"reparameterize settings {q} {c}", reparameterize, b=c["b"], latent=c["latent"], train=c["train"]))
        if c["b"] * c["latent"] <= 6:
            J.append(job(f"forward settings {q} {c}", whole, generate=q % 3 == 1, **c))
    J.append(job("loss batch of 130", loss, b=130, shape=(1,), latent=1, weight=F(1, 8)))
    J.append(job("reparameterize batch of 130", reparameterize, b=130, latent=1))
    return J
