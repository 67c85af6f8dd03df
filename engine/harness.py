"""Dual-mode harness: the same property code runs symbolically (every input a
solver variable) or concretely (inputs from a counterexample model)."""
import math
import os
import random
import re
import sys
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from . import alg, explore, shadow
from .alg import BoolE, EngineUnsupported, PathAbort, Poly
from .explore import Explorer, Inconclusive, Violated, _dyadic

REPO = os.environ.get("VERIF_REPO", "/repo")
DEBUG = os.environ.get("VERIF_DEBUG")


class Skip(Exception):
    """This configuration is outside the property (documented precondition)."""


class Failed(Exception):
    """Concrete run: the property does not hold."""


class _ConcreteCtx:
    """Stands in for explore.Context when everything is concrete."""

    def __init__(self):
        self.atoms = []
        self.mono_iv = {}

    def branch(self, b):
        if isinstance(b, BoolE):
            raise EngineUnsupported("symbolic decision in a concrete run")
        return bool(b)

    def resolve(self, p):
        return p


def default_value(name, lo, hi, sort, seed):
    rng = random.Random(zlib.crc32(name.encode()) ^ (seed * 2654435761))
    lo, hi = Fraction(lo), Fraction(hi)
    if sort == "I":
        return Fraction(rng.randint(math.ceil(lo), math.floor(hi)))
    return _dyadic(lo + (hi - lo) * Fraction(rng.randint(37, 475), 512))


class ReplayRand(TorchDispatchMode):
    """Concrete replay: random factories return the model's values."""

    def __init__(self, h):
        super().__init__()
        self.h = h
        self.n = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[1]
        out = func(*args, **kwargs)
        if name in ("rand", "rand_like"):
            return self.fill(out, "rand", 0, 1)
        if name == "uniform_":
            lo = kwargs.get("from", args[1] if len(args) > 1 else 0.0)
            hi = kwargs.get("to", args[2] if len(args) > 2 else 1.0)
            return self.fill(out, "uni", lo, hi)
        if name in ("normal_", "randn", "randn_like"):
            mean = kwargs.get("mean", args[1] if len(args) > 1 else 0.0) if name == "normal_" else 0.0
            std = kwargs.get("std", args[2] if len(args) > 2 else 1.0) if name == "normal_" else 1.0
            self.fill(out, "gauss", -4, 4)
            out.detach().mul_(std).add_(mean)
            return out
        if name == "normal":
            self.fill(out, "gauss", -4, 4)
            std, mean = kwargs.get("std", args[1] if len(args) > 1 else 1.0), kwargs.get("mean", args[0] if args else 0.0)
            with torch.no_grad():
                out.detach().mul_(std).add_(mean)
            return out
        if (
            name in ("empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided")
            and self.h.uninit
            and out.is_floating_point()
            and out.numel() < 4096
        ):
            return self.fill(out, "uninit", -4, 4)
        return out

    def fill(self, t, tag, lo, hi):
        k = self.n
        self.n += 1
        vals = [float(self.h._val(f"{tag}{k}_{i}", lo, hi, "R")) for i in range(t.numel())]
        with torch.no_grad():
            t.detach().copy_(torch.tensor(vals, dtype=t.dtype).reshape(t.shape))
        return t


class H:
    def __init__(self, ctx=None, model=None, seed=1, stats=None):
        self.sym = ctx is not None
        self.ctx = ctx
        self.model = model or {}
        self.seed = seed
        self.m = shadow.Shadow(stats) if self.sym else None
        self.uninit = False
        self.validated = 0
        self.mismatch = []
        self.asserted = 0
        self.used = {}

    # -- inputs -------------------------------------------------------------------
    def _val(self, name, lo, hi, sort):
        v = self.model.get(name)
        if v is None:
            v = default_value(name, lo, hi, sort, self.seed)
        self.used[name] = v
        return v

    def scalar(self, name, lo, hi):
        if self.sym:
            return self.ctx.var(name, lo, hi)
        return self._val(name, lo, hi, "R")

    def integer(self, name, lo, hi):
        if self.sym:
            return self.ctx.var(name, lo, hi, "I")
        return int(self._val(name, lo, hi, "I"))

    def elements(self, name, shape, lo, hi):
        shape = tuple(shape)
        a = np.empty(shape, dtype=object)
        for i, ix in enumerate(np.ndindex(*shape)):
            a[ix] = self.scalar(f"{name}_{i}", lo, hi)
        return a

    def tensor(self, arr, dtype=torch.float32):
        """Tensor from an array of elements."""
        arr = shadow._wrap(arr)
        if self.sym:
            vals = [float(self.ctx.value(v)) if not isinstance(v, float) else v for v in arr.flat]
        else:
            vals = [float(v) for v in arr.flat]
        with torch.no_grad():
            t = torch.tensor(vals, dtype=dtype).reshape(tuple(arr.shape))
        if self.sym:
            self.m.put(t, arr)
        return t

    def real(self, name, shape, lo, hi, dtype=torch.float32, requires_grad=False):
        t = self.tensor(self.elements(name, shape, lo, hi), dtype)
        if requires_grad:
            t.requires_grad_(True)
        return t

    def set(self, t, name, lo, hi):
        """Overwrite a tensor/parameter of the real code with fresh inputs."""
        arr = self.elements(name, t.shape, lo, hi)
        return self.assign(t, arr)

    def assign(self, t, arr):
        v = self.tensor(arr, t.dtype)
        with torch.no_grad():
            t.copy_(v)
        return t

    def randomness(self):
        """Context: random factories return unconstrained values of their range."""
        return _Rand(self)

    def fresh_memory(self):
        self.uninit = True

    # -- observation -------------------------------------------------------------------
    def e(self, t):
        if not isinstance(t, torch.Tensor):
            return shadow._wrap(shadow.conc(t))
        if self.sym:
            arr = self.m.elems(t)
            arr = shadow._wrap(np.frompyfunc(self.ctx.resolve, 1, 1)(arr))
            if self.m.has(t) and t.is_floating_point():
                self._validate(t, arr)
            return arr
        a = np.empty(tuple(t.shape), dtype=object)
        flat = t.detach().reshape(-1).tolist()
        f = a.reshape(-1)
        for i, v in enumerate(flat):
            f[i] = shadow.conc(v)
        return f.reshape(tuple(t.shape))

    def _validate(self, t, arr):
        with shadow._NoModes():
            nat = t.detach().reshape(-1).tolist()
        ok = True
        for v, w in zip(arr.flat, nat):
            s = self.ctx.value(v) if isinstance(v, Poly) else v
            if isinstance(s, BoolE) or getattr(s, "FPVAL", None) is not None:
                continue
            s = float(s)
            if math.isnan(s) and math.isnan(w):
                continue
            if s == w:
                continue
            if not abs(s - w) <= 2e-3 * (1 + abs(s)):
                ok = False
                self.mismatch.append((s, w))
        if ok:
            self.validated += 1

    # -- obligations ---------------------------------------------------------------------
    def assume(self, b):
        if self.sym:
            self.ctx.assume(b)
        elif not b:
            raise Skip("assumption")

    def close(self, a, b, what, tol=1e-3):
        a, b = self._arr(a), self._arr(b)
        if a.shape != b.shape:
            self.fail(f"{what}: shape {a.shape} != {b.shape}")
        self.asserted += 1
        if self.sym:
            self.ctx.require_close(list(zip(a.flat, b.flat)), tol, what)
        else:
            for i, (x, y) in enumerate(zip(a.flat, b.flat)):
                x, y = alg.num(x), alg.num(y)
                xf, yf = float(x), float(y)
                if math.isnan(xf) and math.isnan(yf):
                    continue
                if xf == yf:
                    continue
                if not abs(xf - yf) <= float(tol) * 0.6:
                    raise Failed(f"{what}: element {i}: got {xf!r}, expected {yf!r}")

    def _arr(self, a):
        if isinstance(a, torch.Tensor):
            return self.e(a)
        if isinstance(a, np.ndarray):
            return a if a.dtype == object else np.frompyfunc(shadow.conc, 1, 1)(a)
        if isinstance(a, (list, tuple)):
            r = np.empty((len(a),), dtype=object)
            for i, v in enumerate(a):
                r[i] = v
            return r
        return shadow._wrap(a)

    def true(self, conds, what):
        """Each element of conds is a Boolean (symbolic or not)."""
        if not isinstance(conds, (list, tuple)):
            conds = [conds]
        self.asserted += 1
        if self.sym:
            self.ctx.require(list(conds), what)
        else:
            for i, c in enumerate(conds):
                if not bool(c):
                    raise Failed(f"{what}: condition {i}")

    def le(self, a, b, what, slack=0):
        """a <= b elementwise (b broadcast)."""
        a = self._arr(a)
        b = np.broadcast_to(self._arr(b), a.shape)
        s = Fraction(slack) if self.sym else Fraction(slack) * Fraction(3, 5)
        self.true([alg.le(alg.num(x), alg.add(y, s)) for x, y in zip(a.flat, b.flat)], what)

    def distinct(self, arr, what):
        """No two elements are the same function of the inputs."""
        self.asserted += 1
        seen = {}
        for i, v in enumerate(self._arr(arr).flat):
            v = alg.num(v)
            k = v.key() if isinstance(v, Poly) else ("c", v)
            if k in seen:
                msg = f"{what}: elements {seen[k]} and {i} always coincide"
                if self.sym:
                    raise Violated(msg, {})  # replayed at generic inputs
                vals = [v for n, v in self.used.items() if re.match(r"(rand|uni|gauss|pyrand)\d", n)]
                if len(set(vals)) == len(vals):
                    raise Failed(msg)
                return
            seen[k] = i

    def interior(self):
        """Restrict the path to its interior (no condition holds with equality)."""
        ctx = self.ctx
        for c, t in list(ctx.pc):
            if c.kind != "cmp":
                continue
            op, p = c.args[0], c.args[1]
            if not isinstance(p, Poly) or all(ctx.atoms[a].sort == "I" for a in p.atoms()):
                continue
            if op == "==" and t:
                raise Skip("not a differentiable point")
            if op == "<=" and t:
                ctx.assume(alg.lt(p, 0))
            elif op == "<" and not t:
                ctx.assume(alg.lt(0, p))

    def gradients(self, call, module, xs, what, tol=Fraction(1, 200), params=True, seed=5, only=None):
        """The gradients autograd delivers for the inputs xs and the module's
        parameters are the partial derivatives of what call(module, xs) computes.
        Decided at differentiable points: a path that fixes an equality is skipped."""
        rng = np.random.RandomState(seed)
        xs = [x.detach().requires_grad_(True) if not self.sym else x.requires_grad_(True) for x in xs]
        ps = [p for p in module.parameters() if p.requires_grad] if params else []
        outs = call(module, xs)
        outs = list(outs) if isinstance(outs, (list, tuple)) else [outs]
        ws = [np.array([Fraction(int(rng.randint(1, 9)) * (1 if rng.rand() < 0.5 else -1), 8) for _ in range(o.numel())], dtype=object).reshape(tuple(o.shape)) for o in outs]
        leaves = xs + ps
        with torch.no_grad():
            gs = [torch.tensor([float(v) for v in w.flat], dtype=o.dtype).reshape(o.shape) for w, o in zip(ws, outs)]
        live = [(o, g) for o, g in zip(outs, gs) if o.requires_grad]
        if not live:
            self.fail(f"{what}: the output has no gradient")
        got = torch.autograd.grad([o for o, _ in live], leaves, [g for _, g in live], allow_unused=True)
        if self.sym:
            self.interior()
            total = Fraction(0)
            for o, w in zip(outs, ws):
                for a, b in zip(self.e(o).flat, w.flat):
                    total = alg.add(total, alg.mul(a, b))
            for k, (x, g) in enumerate(zip(leaves, got)):
                e = self.m.elems(x)
                ids, pos = [], []
                for i, v in enumerate(e.flat):
                    if not isinstance(v, Poly):
                        continue
                    (m, c), = v.t.items()
                    if len(m) != 1 or m[0][1] != 1 or c != 1:
                        raise EngineUnsupported("leaf is not a variable")
                    if m[0][0] in self.ctx.conc:
                        raise Skip("not a differentiable point")
                    ids.append(m[0][0])
                    pos.append(i)
                if not ids:
                    continue
                want = alg.gradient(total, ids)
                have = [Fraction(0)] * len(ids) if g is None else [self.e(g).reshape(-1)[i] for i in pos]
                self.close(have, want, f"{what}: gradient of leaf {k}", tol=tol)
            return
        import copy

        M = copy.deepcopy(module).double()
        X = [x.detach().double().clone() for x in xs]
        P = [p for p in M.parameters() if p.requires_grad] if params else []
        eps = 2.0 ** -20

        def f():
            with torch.no_grad():
                o = call(M, X)
            o = list(o) if isinstance(o, (list, tuple)) else [o]
            return sum(float((v.double() * g.double()).sum()) for v, g in zip(o, gs))

        try:
            base = f()
        except RuntimeError as e:
            raise Skip(f"no double precision run: {e}")
        for k, (x, g) in enumerate(zip(X + P, got)):
            flat = x.detach().view(-1)
            for i in range(flat.numel()):
                v = float(flat[i])
                with torch.no_grad():
                    flat[i] = v + eps
                    up = f()
                    flat[i] = v - eps
                    dn = f()
                    flat[i] = v
                have = 0.0 if g is None else float(g.reshape(-1)[i])
                want = [(up - dn) / (2 * eps), (up - base) / eps, (base - dn) / eps]
                if not any(abs(have - w) <= float(tol) * 0.6 + 1e-4 * abs(w) for w in want):
                    raise Failed(f"{what}: gradient of leaf {k} element {i}: got {have!r}, the derivative is {want[0]!r}")
        self.asserted += 1

    def fail(self, what):
        if self.sym:
            raise Violated(what, dict(self.ctx.model))
        raise Failed(what)

    def same_shape(self, t, shape, what):
        if tuple(t.shape) != tuple(shape):
            self.fail(f"{what}: shape {tuple(t.shape)}, expected {tuple(shape)}")

    def note(self, *a):
        pass


class _Rand:
    def __init__(self, h):
        self.h = h

    def __enter__(self):
        h = self.h
        if h.sym:
            def rand(name, lo, hi):
                p = h.ctx.var(name, lo, hi)
                return p, float(h.ctx.value(p))

            h.m.rand = rand
            h.m.uninit = h.uninit
            self.p = shadow.Patches(rand=lambda n, lo, hi: h.tensor(h.ctx.var(n, lo, hi), torch.float64))
        else:
            self.mode = ReplayRand(h)
            self.mode.__enter__()
            self.p = shadow.Patches(rand=lambda n, lo, hi: float(h._val(n, lo, hi, "R")))
        self.p.__enter__()
        return h

    def __exit__(self, *e):
        self.p.__exit__(*e)
        if self.h.sym:
            self.h.m.rand = None
            self.h.m.uninit = False
        else:
            self.mode.__exit__(*e)


# ---------------------------------------------------------------------------
def run_concrete(fn, cfg, model, seed):
    """Replay on the real code.  Returns None (holds) or a description."""
    h = H(model=model, seed=seed)
    torch.manual_seed(seed)
    random.seed(seed)
    np.random.seed(seed)
    alg.set_ctx(_ConcreteCtx())
    try:
        with shadow.Patches():
            fn(h, **cfg)
    except Failed as e:
        return str(e)
    except Skip:
        return None
    except EngineUnsupported:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.relpath(f.filename, REPO)}:{f.lineno}" for f in reversed(tb) if f.filename.startswith(REPO + "/")), None)
        if where is None:
            last = tb[-1]
            # an error inside the harness itself is not evidence about the code
            if last.filename.startswith("/verif"):
                raise
            where = f"{last.filename}:{last.lineno}"
        return f"raises {type(e).__name__}: {str(e)[:300]} (at {where})"
    finally:
        alg.set_ctx(None)
    return None


def run_symbolic(fn, cfg, ctx, h):
    torch.manual_seed(ctx.ex.seed)
    random.seed(ctx.ex.seed)
    np.random.seed(ctx.ex.seed)
    with shadow.Patches():
        with h.m:
            with shadow.Funcs(h.m):
                fn(h, **cfg)


def _interior(ctx):
    for c, t in ctx.pc:
        if c.kind == "cmp":
            v = ctx.value(c.args[1])
            if abs(v) < Fraction(1, 2000) and c.args[0] != "==":
                return False
            if c.args[0] == "==" and ctx.atoms and not t and abs(v) < Fraction(1, 2000):
                return False
    for A in ctx.atoms:
        if A.kind in ("trunc", "floor") and A.arg is not None:
            v = ctx.value(A.arg)
            if isinstance(v, float) or abs(v - round(v)) < Fraction(1, 2000):
                return False
    return True


def _representable(v, extra=0):
    d = Fraction(v).denominator
    return d & (d - 1) == 0 and d <= 1 << (16 + extra)


def _scale(ctx, name):
    """Additional fractional bits for a variable whose whole range is tiny."""
    A = ctx.atoms[ctx.vars[name]] if name in ctx.vars else None
    if A is None or A.sort != "R" or A.lo is None or A.hi is None:
        return 0
    top = max(abs(A.lo), abs(A.hi))
    return 0 if top == 0 or top >= Fraction(1, 64) else max(0, math.ceil(-math.log2(float(top))))


def _neighbours(model, ctx, bits=14):
    rng = random.Random(5)
    for k in range(8):
        out = {}
        for n, v in model.items():
            A = ctx.atoms[ctx.vars[n]] if n in ctx.vars else None
            s = 1 << (bits + _scale(ctx, n))
            if A is None or A.sort != "R" or _representable(v, _scale(ctx, n)):
                out[n] = v
                continue
            up = (k == 1) if k < 2 else rng.random() < 0.5
            g = Fraction(math.floor(v * s) + (1 if up else 0), s)
            if A.lo is not None and g < A.lo:
                g = Fraction(math.ceil(A.lo * s), s)
            if A.hi is not None and g > A.hi:
                g = Fraction(math.floor(A.hi * s), s)
            out[n] = g
        yield out


def run_job(fn, cfg, seed=1, budget=600, opts=None):
    """Explore every path of one harness configuration."""
    opts = opts or {}
    res = {"status": "ok", "cfg": cfg, "fn": fn.__name__, "notes": []}
    t0 = time.time()
    unrepro = []
    found = []
    counters = {"asserted": 0, "mismatch": 0, "replays": 0}

    def candidate(what, model, ctx):
        r = None
        try:
            r = run_concrete(fn, cfg, model, seed)
        except EngineUnsupported as e:
            unrepro.append(f"{what} [replay: {e}]")
            return
        counters["replays"] += 1
        if r is not None and not all(_representable(v, _scale(ctx, n)) for n, v in model.items()):
            # the counterexample lies on a point float32 cannot hold: it has to
            # be one of the neighbouring floats that fails, not their rounding
            r = None
            for mm in _neighbours(model, ctx):
                r = run_concrete(fn, cfg, mm, seed)
                counters["replays"] += 1
                if r is not None:
                    model = mm
                    break
        if r is not None:
            found.append((what, r, model))
        else:
            unrepro.append(what)

    class Stop(BaseException):
        pass

    def one(ctx):
        h = H(ctx=ctx, seed=seed, stats=ex.stats)
        try:
            run_symbolic(fn, cfg, ctx, h)
        except Skip as e:
            if DEBUG:
                print("skip", e)
            return
        except Violated as v:
            candidate(v.what, v.model, ctx)
            if found:
                raise Stop()
            return
        except (EngineUnsupported, PathAbort, Inconclusive):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if DEBUG:
                traceback.print_exc()
            candidate(f"raises {type(e).__name__}: {str(e)[:200]}", dict(ctx.model), ctx)
            if found:
                raise Stop()
            raise EngineUnsupported(
                f"exception only in the symbolic run: {type(e).__name__}: {str(e)[:300]} at {tb[-1].filename}:{tb[-1].lineno}"
            )
        counters["asserted"] += h.asserted
        ex.stats.validated += h.validated
        if _interior(ctx):
            if counters["replays"] < opts.get("max_validate", 25) or h.mismatch:
                counters["replays"] += 1
                r = run_concrete(fn, cfg, dict(ctx.model), seed)
                if r is not None:
                    found.append(("the real code at a path witness", r, dict(ctx.model)))
                    raise Stop()
            if h.mismatch:
                counters["mismatch"] += 1
                res["notes"].append(f"native value differs from encoding: {h.mismatch[0]}")

    ex = Explorer(
        one,
        seed=seed,
        deadline=t0 + budget,
        max_paths=opts.get("max_paths", 20000),
        timeout_ms=opts.get("timeout_ms", 30000),
        nl_timeout_ms=opts.get("nl_timeout_ms", 30000),
    )
    try:
        ex.explore()
    except Stop:
        pass
    except Inconclusive as e:
        res["status"] = "inconclusive"
        res["notes"].append(str(e)[:600])
    except EngineUnsupported as e:
        res["status"] = "unsupported"
        res["notes"].append(str(e)[:600])
    if found:
        what, r, model = found[0]
        res["status"] = "violation"
        res["what"] = what
        res["replay"] = r
        res["model"] = {k: [v.numerator, v.denominator] for k, v in ((k, Fraction(v)) for k, v in model.items())}
    elif res["status"] == "ok":
        if unrepro:
            res["status"] = "unreproduced"
            res["notes"].append("; ".join(unrepro[:3]))
        elif counters["asserted"] == 0 and not opts.get("may_be_vacuous"):
            res["status"] = "vacuous"
        elif counters["mismatch"]:
            res["status"] = "mismatch"
    res["asserted"] = counters["asserted"]
    res["replays"] = counters["replays"]
    res["wall"] = time.time() - t0
    st = ex.stats
    res["stats"] = st
    return res
