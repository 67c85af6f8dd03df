"""Path exploration and solver queries.

`Context` is one symbolic execution of a harness: it owns the atoms, the path
condition and an incremental z3 solver.  Every decision the executed code takes
on a symbolic value goes through `branch` / `concretize`; the untaken side is
handed to z3, and is either infeasible (UNSAT) or queued with a model that
becomes the witness of another path.  `Explorer` runs the worklist until every
feasible path has been executed.
"""
import math
import os
import random
import time
import zlib
from fractions import Fraction

from . import alg, ratform
from .alg import Atom, BoolE, EngineUnsupported, PathAbort, Poly, mk
from .zload import z3

DEBUG = os.environ.get("VERIF_DEBUG")


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.assertions = 0
        self.discharged = 0
        self.validated = 0
        self.infeasible_sides = 0
        self.hashes = 0
        self.nlqueries = 0
        self.identities = 0
        self.functions = set()
        self.aten = set()
        self.max_terms = 0

    def merge(self, o):
        for k, v in o.__dict__.items():
            if isinstance(v, set):
                getattr(self, k).update(v)
            elif k == "max_terms":
                self.max_terms = max(self.max_terms, v)
            else:
                setattr(self, k, getattr(self, k) + v)


class Inconclusive(BaseException):
    """The solver could not decide a query."""


class Violated(BaseException):
    """A candidate counterexample: name -> Fraction."""

    def __init__(self, what, model):
        super().__init__(what)
        self.what = what
        self.model = model


def q(v):
    """Fraction -> z3 rational."""
    v = Fraction(v)
    if v.denominator == 1:
        return z3.RealVal(v.numerator)
    return z3.RealVal(f"{v.numerator}/{v.denominator}")


class Context:
    def __init__(self, explorer, prefix=(), model=None):
        self.ex = explorer
        self.stats = explorer.stats
        self.prefix = list(prefix)
        self.pos = 0
        self.log = []
        self.atoms = []
        self.intern = {}
        self.shapes = {}
        self.mono_iv = {}
        self.conc = {}
        self.known = {}
        self.pc = []  # (BoolE, bool)
        self.model = dict(model or {})
        self.vars = {}  # name -> atom id
        self.names = set()
        self._monoz = {}
        self._atomz = {}
        self.solver = None
        self.fp_model = {}
        self.tight = True
        self.exact_witness = True
        self._rescache = {}
        self._newsolver()

    def _newsolver(self):
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set("timeout", self.ex.timeout_ms)
        s.set("random_seed", 7)
        self.solver = s

    # -- variables and atoms -----------------------------------------------
    def var(self, name, lo, hi, sort="R", default=None):
        if name in self.vars:
            return Poly({((self.vars[name], 1),): Fraction(1)})
        A = Atom(len(self.atoms), "var", None, sort, _fr(lo), _fr(hi), name)
        self.atoms.append(A)
        self.vars[name] = A.id
        v = self.model.get(name)
        if v is None:
            v = default if default is not None else self._default(name, A)
        A.val = Fraction(v)
        self.model[name] = A.val
        p = Poly({((A.id, 1),): Fraction(1)})
        z = self.z_atom(A.id)
        if A.lo is not None:
            self.solver.add(z >= q(A.lo))
        if A.hi is not None:
            self.solver.add(z <= q(A.hi))
        return p

    def _default(self, name, A):
        rng = random.Random(zlib.crc32(name.encode()) ^ (self.ex.seed * 2654435761))
        lo = A.lo if A.lo is not None else Fraction(-2)
        hi = A.hi if A.hi is not None else lo + 4
        if A.sort == "I":
            return Fraction(rng.randint(math.ceil(lo), math.floor(hi)))
        k = rng.randint(37, 475)
        v = lo + (hi - lo) * Fraction(k, 512)
        return _dyadic(v)

    def atom(self, kind, arg, sort="R", lo=None, hi=None):
        key = (kind, arg.key())
        a = self.intern.get(key)
        if a is None:
            a = self._near(kind, arg)
            if a is not None:
                self.intern[key] = a
        if a is None:
            A = Atom(len(self.atoms), kind, arg, sort, lo, hi, f"{kind}{len(self.atoms)}")
            self.atoms.append(A)
            self.intern[key] = a = A.id
            try:
                A.val = self._eval_atom(A)
            except PathAbort as e:
                raise EngineUnsupported(str(e))
            self._axioms(A)
        v = self.conc.get(a)
        if v is not None:
            return v
        return Poly({((a, 1),): Fraction(1)})

    def _near(self, kind, arg):
        """An existing atom of the same smooth function whose argument differs by
        less than 2^-32 everywhere in the bounds (rounded constants)."""
        if kind not in ("exp", "tanh", "sin", "cos", "erf", "atan", "log", "sqrt", "inv"):
            return None
        sk = (kind, frozenset(arg.t))
        cands = self.shapes.setdefault(sk, [])
        for b in cands:
            B = self.atoms[b]
            d = B.arg - arg
            lo, hi = alg.interval(d) if isinstance(d, Poly) else (d, d)
            if lo is None or hi is None or max(abs(lo), abs(hi)) > Fraction(1, 1 << 32):
                continue
            if kind in ("log", "sqrt", "inv"):
                l, u = alg.interval(arg)
                if not ((l is not None and l >= Fraction(1, 64)) or (kind == "inv" and u is not None and u <= Fraction(-1, 64))):
                    continue
            return b
        cands.append(len(self.atoms))
        return None

    def _eval_atom(self, A):
        v = self.value(A.arg)
        k = A.kind
        if k == "trunc":
            return Fraction(math.trunc(v))
        if k == "floor":
            return Fraction(math.floor(v))
        if k == "shift":
            return v
        if k == "inv":
            if v == 0:
                raise PathAbort("division by zero at witness")
            return 1 / v
        f = float(v)
        if k == "sqrt":
            n, d = math.isqrt(max(0, v.numerator)), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return Fraction(n, d)
            return Fraction(math.sqrt(max(f, 0.0)))
        try:
            fn = {
                "exp": math.exp,
                "log": math.log,
                "sin": math.sin,
                "cos": math.cos,
                "tanh": math.tanh,
                "erf": math.erf,
                "atan": math.atan,
            }[k]
            return Fraction(fn(f))
        except (OverflowError, ValueError):
            raise PathAbort(f"{k} out of range at witness")

    def _axioms(self, A):
        z = self.z_atom(A.id)
        S = self.solver
        if A.lo is not None:
            S.add(z >= q(A.lo))
        if A.hi is not None:
            S.add(z <= q(A.hi))
        p = self.z_lin(A.arg)
        k = A.kind
        if k == "shift":
            S.add(z == p)
        elif k == "floor":
            zr = z3.ToReal(z)
            S.add(zr <= p, p < zr + 1)
        elif k == "trunc":
            zr = z3.ToReal(z)
            S.add(
                z3.If(
                    p >= 0,
                    z3.And(zr <= p, p < zr + 1),
                    z3.And(zr >= p, p > zr - 1),
                )
            )
        elif k == "inv":
            self._add_zero(A.arg * Poly({((A.id, 1),): Fraction(1)}) - 1)
            S.add(z3.If(p > 0, z > 0, z < 0))
            lo, hi = alg.interval(A.arg)
            if lo is not None and lo > 0:
                A.hi = 1 / lo
                A.lo = 1 / hi if hi is not None else Fraction(0)
                S.add(z <= q(A.hi), z >= q(A.lo))
            elif hi is not None and hi < 0:
                A.lo = 1 / hi
                A.hi = 1 / lo if lo is not None else Fraction(0)
                S.add(z <= q(A.hi), z >= q(A.lo))
        elif k == "sqrt":
            self._add_zero(Poly({((A.id, 2),): Fraction(1)}) - A.arg)
            S.add(z3.If(p > 0, z > 0, z == 0))
            # |every squared summand| bounded by the root: used by norms
            lo, _ = alg.interval(A.arg)
            if lo is not None and lo > 0:
                A.lo = Fraction(math.sqrt(float(lo)) * (1 - 1e-12))
                S.add(z >= q(A.lo))
        elif k == "exp":
            S.add(z > 0, z >= 1 + p)
        elif k == "log":
            S.add(p >= 1 + z)
        elif k == "tanh":
            S.add(z < 1, z > -1)
            S.add(z3.If(p > 0, z3.And(z > 0, z <= p), z3.And(z <= 0, z >= p)))
        elif k in ("sin", "cos"):
            o = self.intern.get(("cos" if k == "sin" else "sin", A.arg.key()))
            if o is not None:
                self._add_zero(
                    Poly({((A.id, 2),): Fraction(1)})
                    + Poly({((o, 2),): Fraction(1)})
                    - 1
                )
        if k in ("sin", "cos", "tanh"):
            # 1-Lipschitz: close arguments (rounded constants) give close values
            for b in self.shapes.get((k, frozenset(A.arg.t)), ()):
                if b < A.id:
                    d = A.arg - self.atoms[b].arg
                    lo, hi = alg.interval(d) if isinstance(d, Poly) else (d, d)
                    if lo is not None and hi is not None and max(-lo, hi) < 1:
                        m, zb = q(max(-lo, hi)), self.z_atom(b)
                        S.add(z - zb <= m, zb - z <= m)
        if k in ("exp", "log"):
            # exp and log are inverse to each other
            for B in self.atoms[: A.id]:
                if B.kind == ("log" if k == "exp" else "exp"):
                    pb, zb = self.z_lin(B.arg), self.z_atom(B.id)
                    le, lz, ee, ez = (p, z, pb, zb) if k == "log" else (pb, zb, p, z)
                    S.add(z3.If(le < ez, lz < ee, z3.If(le == ez, lz == ee, lz > ee)))
        if k in ("exp", "log", "tanh", "sqrt"):
            # pairwise monotonicity
            for B in self.atoms[: A.id]:
                if B.kind == k:
                    pb, zb = self.z_lin(B.arg), self.z_atom(B.id)
                    S.add(
                        z3.If(p < pb, z < zb, z3.If(p == pb, z == zb, z > zb))
                    )

    def _add_zero(self, p):
        if isinstance(p, Poly):
            self.solver.add(self.z_lin(p) == 0)

    def is_int(self, p):
        for m, c in p.t.items():
            if c.denominator != 1:
                return False
            for a, _ in m:
                if self.atoms[a].sort != "I":
                    return False
        return True

    def resolve(self, p):
        """Substitute the atoms whose value the path has fixed."""
        if not self.conc or not isinstance(p, Poly):
            return p
        conc = self.conc
        hit = False
        for m in p.t:
            for a, _ in m:
                if a in conc:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return p
        t = {}
        for m, c in p.t.items():
            rest = []
            for a, e in m:
                v = conc.get(a)
                if v is None:
                    rest.append((a, e))
                else:
                    c = c * v**e
            if c == 0:
                continue
            rest = tuple(rest)
            s = t.get(rest, 0) + c
            t[rest] = s
        return mk({m: c for m, c in t.items() if c != 0})

    # -- evaluation at the witness -------------------------------------------
    def value(self, p, vals=None):
        if not isinstance(p, Poly):
            return p
        atoms = self.atoms
        s = Fraction(0)
        for m, c in p.t.items():
            for a, e in m:
                v = atoms[a].val if vals is None else vals[a]
                c = c * (v if e == 1 else v**e)
            s += c
        return s

    def holds(self, b, vals=None):
        if not isinstance(b, BoolE):
            return bool(b)
        k = b.kind
        if k == "cmp":
            v = self.value(b.args[1], vals)
            return v < 0 if b.args[0] == "<" else v <= 0 if b.args[0] == "<=" else v == 0
        if k == "not":
            return not self.holds(b.args[0], vals)
        if k == "and":
            return self.holds(b.args[0], vals) and self.holds(b.args[1], vals)
        if k == "or":
            return self.holds(b.args[0], vals) or self.holds(b.args[1], vals)
        raise EngineUnsupported(k)

    def eval_all(self, model):
        """Values of all atoms under a model of the base variables."""
        vals = {}
        for A in self.atoms:
            if A.kind == "var":
                v = model.get(A.name)
                vals[A.id] = A.val if v is None else v
            else:
                save = A.val
                try:
                    v = self._eval_with(A, vals)
                except PathAbort:
                    return None
                finally:
                    A.val = save
                vals[A.id] = v
        return vals

    def _eval_with(self, A, vals):
        arg = self.value(A.arg, vals)
        B = Atom(A.id, A.kind, arg, A.sort, None, None, None)
        return self._eval_atom(B)

    # -- z3 translation --------------------------------------------------------
    def z_atom(self, a):
        z = self._atomz.get(a)
        if z is None:
            A = self.atoms[a]
            z = z3.Int(f"a{a}") if A.sort == "I" else z3.Real(f"a{a}")
            self._atomz[a] = z
        return z

    def z_num(self, a):
        z = self.z_atom(a)
        return z3.ToReal(z) if self.atoms[a].sort == "I" else z

    def z_mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.z_num(m[0][0])
        z = self._monoz.get(m)
        if z is None:
            z = z3.Real("m" + "_".join(f"{a}^{e}" for a, e in m))
            self._monoz[m] = z
            lo, hi = alg.mono_interval(m)
            if lo is not None:
                self.solver.add(z >= q(lo))
            if hi is not None:
                self.solver.add(z <= q(hi))
        return z

    def z_lin(self, p):
        if not isinstance(p, Poly):
            return q(p)
        ts = []
        for m, c in p.t.items():
            ts.append(q(c) if m == () else q(c) * self.z_mono(m))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def z_bool(self, b, lin=True, margin=None):
        if not isinstance(b, BoolE):
            return z3.BoolVal(bool(b))
        k = b.kind
        if k == "cmp":
            op, p = b.args
            z = self.z_lin(p) if lin else self.z_nl(p)
            if margin is not None and op != "==":
                return z <= -q(margin)
            return z < 0 if op == "<" else z <= 0 if op == "<=" else z == 0
        if k == "not":
            a = b.args[0]
            if margin is not None and a.kind == "cmp":
                op, p = a.args
                z = self.z_lin(p) if lin else self.z_nl(p)
                if op == "==":
                    return z3.Or(z >= q(margin), z <= -q(margin))
                return z >= q(margin)
            return z3.Not(self.z_bool(a, lin))
        if k == "and":
            return z3.And(*[self.z_bool(x, lin, margin) for x in b.args])
        if k == "or":
            return z3.Or(*[self.z_bool(x, lin, margin) for x in b.args])
        raise EngineUnsupported(f"z_bool {k}")

    # nonlinear translation
    def z_nl(self, p):
        if not isinstance(p, Poly):
            return q(p)
        ts = []
        for m, c in p.t.items():
            f = [q(c)] if (c != 1 or m == ()) else []
            for a, e in m:
                f += [self.z_num(a)] * e
            ts.append(z3.Product(f) if len(f) > 1 else f[0])
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def nl_defs(self):
        out = []
        for A in self.atoms:
            z = self.z_num(A.id)
            if A.lo is not None:
                out.append(z >= q(A.lo))
            if A.hi is not None:
                out.append(z <= q(A.hi))
            if A.kind == "var":
                continue
            p = self.z_nl(A.arg)
            k = A.kind
            if k == "shift":
                out.append(z == p)
            elif k == "floor":
                out += [z <= p, p < z + 1]
            elif k == "trunc":
                out.append(
                    z3.If(
                        p >= 0,
                        z3.And(z <= p, p < z + 1),
                        z3.And(z >= p, p > z - 1),
                    )
                )
            elif k == "inv":
                out.append(z * p == 1)
            elif k == "sqrt":
                out += [z * z == p, z >= 0]
            elif k == "exp":
                out += [z > 0, z >= 1 + p]
            elif k == "log":
                out += [p >= 1 + z]
            elif k == "tanh":
                out += [z < 1, z > -1]
            elif k in ("sin", "cos"):
                o = self.intern.get(("cos" if k == "sin" else "sin", A.arg.key()))
                if o is not None and o < A.id:
                    out.append(z * z + self.z_num(o) * self.z_num(o) == 1)
            if k in ("exp", "log", "tanh"):
                for B in self.atoms[: A.id]:
                    if B.kind == k:
                        pb, zb = self.z_nl(B.arg), self.z_num(B.id)
                        out.append(
                            z3.If(p < pb, z < zb, z3.If(p == pb, z == zb, z > zb))
                        )
        return out

    # -- queries -----------------------------------------------------------------
    def _check(self, solver, *assumptions):
        t = time.time()
        r = solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def _model_of(self, solver):
        m = solver.model()
        out = {}
        for name, a in self.vars.items():
            z = self._atomz.get(a)
            v = m.eval(z, model_completion=False) if z is not None else None
            if v is None or not (z3.is_rational_value(v) or z3.is_int_value(v) or z3.is_algebraic_value(v)):
                out[name] = self.atoms[a].val
                A = self.atoms[a]
                continue
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            out[name] = Fraction(v.as_fraction()) if hasattr(v, "as_fraction") else Fraction(v.as_long())
        return out

    def _try(self, model, conds):
        """Does the exact evaluation of model satisfy pc and conds?"""
        for mm in (_round_model(self, model), model):
            vals = self.eval_all(mm)
            if vals is None:
                continue
            if all(
                (A.lo is None or vals[A.id] >= A.lo)
                and (A.hi is None or vals[A.id] <= A.hi)
                for A in self.atoms
                if A.kind == "var"
            ) and all(self.holds(c, vals) == t for c, t in self.pc) and all(
                self.holds(c, vals) == t for c, t in conds
            ):
                return mm
        return None

    def feasible(self, conds, hunt=True):
        """conds: list of (BoolE, bool).  Returns a model dict, or None (UNSAT).
        Raises Inconclusive."""
        S = self.solver
        zc = [self.z_bool(c if t else alg.bnot(c)) for c, t in conds]
        S.push()
        S.add(*zc)
        try:
            r = self._check(S)
            if r == z3.unsat:
                return None
            # prefer interior points
            if r == z3.sat:
                cands = [self._model_of(S)]
                for marg in (Fraction(1, 64), Fraction(1, 1000)):
                    S.push()
                    for c, t in list(self.pc) + list(conds):
                        S.add(self.z_bool(c if t else alg.bnot(c), True, marg))
                    if self._check(S) == z3.sat:
                        cands.insert(0, self._model_of(S))
                        S.pop()
                        break
                    S.pop()
                for m in cands:
                    got = self._try(m, conds)
                    if got is not None:
                        return got
        finally:
            S.pop()
        # linear abstraction inconclusive: perturb the current witness
        if hunt:
            got = self._hunt(conds)
            if got is not None:
                return got
        return self._nl(conds)

    def _nl(self, conds, timeout=None):
        S = z3.Solver()
        S.set("timeout", timeout or self.ex.nl_timeout_ms)
        S.add(*self.nl_defs())
        for c, t in list(self.pc) + list(conds):
            S.add(self.z_bool(c if t else alg.bnot(c), lin=False))
        for a, v in self.conc.items():
            S.add(self.z_num(a) == q(v))
        self.stats.nlqueries += 1
        r = self._check(S)
        if r == z3.unsat:
            return None
        if r == z3.sat:
            m = self._model_of(S)
            got = self._try(m, conds)
            if got is not None:
                return got
            raise Inconclusive(
                "solver model does not evaluate: " + "; ".join(repr(c) for c, _ in conds)
            )
        raise Inconclusive("solver: unknown for " + "; ".join(repr(c)[:400] for c, _ in conds[:3]))

    def _hunt(self, conds, tries=12):
        """Fix enough variables at sampled values to make the query linear, and
        let the solver choose the others."""
        rng = random.Random(self.ex.seed + len(self.log))
        polys = []

        def collect(b):
            if isinstance(b, BoolE):
                if b.kind == "cmp":
                    polys.append(b.args[1])
                else:
                    for x in b.args:
                        collect(x)

        for c, _ in conds:
            collect(c)
        for k in range(tries):
            base = dict(self.model)
            if k >= 1:
                # move away from the witness; keep the path condition
                for n, a in self.vars.items():
                    A = self.atoms[a]
                    if A.sort == "R" and A.lo is not None and A.hi is not None:
                        if rng.random() < (0.5 if k % 2 else 1.0):
                            base[n] = _dyadic(
                                A.lo + (A.hi - A.lo) * Fraction(rng.randint(0, 256), 256)
                            )
            got = self._try(base, conds)
            if got is not None:
                return got
            if k == 0 or k % 3 == 0:
                got = self._linear_hunt(conds, base, rng)
                if got is not None:
                    return got
        return None

    def _linear_hunt(self, conds, base, rng):
        # choose variables to keep free: greedily, so that no monomial has two
        free = set()
        order = list(self.vars.values())
        rng.shuffle(order)
        dep = self._deps()
        monos = set()

        def collect(b):
            if isinstance(b, BoolE):
                if b.kind == "cmp":
                    monos.update(b.args[1].t)
                else:
                    for x in b.args:
                        collect(x)

        for c, _ in list(self.pc) + list(conds):
            collect(c)
        nonpoly = set()
        for A in self.atoms:
            if A.kind not in ("var", "trunc", "floor", "shift"):
                nonpoly |= dep[A.id]
        monosets = [[a for a, e in m for _ in range(e)] for m in monos]
        order.sort(key=lambda v: v in nonpoly)
        for v in order:
            if v in nonpoly:
                continue
            ok = True
            for ms in monosets:
                n = 0
                for a in ms:
                    if v in dep[a] or (dep[a] & free):
                        n += 1
                if n > 1:
                    ok = False
                    break
            if ok:
                free.add(v)
        vals = self.eval_all(base)
        if vals is None:
            return None
        S = z3.Solver()
        S.set("timeout", self.ex.timeout_ms)

        def lin(p):
            if not isinstance(p, Poly):
                return q(p)
            acc = {}
            for m, c in p.t.items():
                key = None
                for a, e in m:
                    if dep[a] & free:
                        key = a
                    else:
                        c = c * vals[a] ** e
                acc[key] = acc.get(key, 0) + c
            ts = [q(c) if k is None else q(c) * self.z_num(k) for k, c in acc.items()]
            return z3.Sum(ts) if ts else q(0)

        for A in self.atoms:
            if A.id in free:
                z = self.z_num(A.id)
                if A.lo is not None:
                    S.add(z >= q(A.lo))
                if A.hi is not None:
                    S.add(z <= q(A.hi))
            elif A.kind in ("trunc", "floor", "shift") and dep[A.id] & free:
                z = self.z_num(A.id)
                p = lin(A.arg)
                if A.kind == "shift":
                    S.add(z == p)
                elif A.kind == "floor":
                    S.add(z <= p, p < z + 1)
                else:
                    S.add(
                        z3.If(
                            p >= 0,
                            z3.And(z <= p, p < z + 1),
                            z3.And(z >= p, p > z - 1),
                        )
                    )

        def zb(b):
            if not isinstance(b, BoolE):
                return z3.BoolVal(bool(b))
            if b.kind == "cmp":
                z = lin(b.args[1])
                return z < 0 if b.args[0] == "<" else z <= 0 if b.args[0] == "<=" else z == 0
            if b.kind == "not":
                return z3.Not(zb(b.args[0]))
            f = z3.And if b.kind == "and" else z3.Or
            return f(*[zb(x) for x in b.args])

        for c, t in list(self.pc) + list(conds):
            S.add(zb(c) if t else z3.Not(zb(c)))
        if self._check(S) != z3.sat:
            return None
        m = self._model_of(S)
        out = dict(base)
        for n, a in self.vars.items():
            if a in free:
                out[n] = m[n]
        return self._try(out, conds)

    def _deps(self):
        dep = []
        for A in self.atoms:
            if A.kind == "var":
                dep.append({A.id})
            else:
                s = set()
                for a in A.arg.atoms():
                    s |= dep[a]
                dep.append(s)
        return dep

    # -- decisions -----------------------------------------------------------------
    def _assume(self, b, t):
        self.pc.append((b, t))
        self.solver.add(self.z_bool(b if t else alg.bnot(b)))
        k = b.key()
        self.known[k] = t

    def assume(self, b):
        """Harness precondition."""
        if not isinstance(b, BoolE):
            if not b:
                raise PathAbort("assumption false")
            return
        k = self.known.get(b.key())
        if k is True:
            return
        if not self.holds(b):
            # find a witness for this path that satisfies the assumption
            m = self.feasible([(b, True)])
            if m is None:
                raise PathAbort("assumption infeasible")
            self.ex.push(list(self.log) + self.prefix[self.pos :], m)
            raise PathAbort("re-run with a witness that satisfies the assumption")
        self._assume(b, True)

    def _simplify(self, b):
        if b.kind == "cmp":
            p = self.resolve(b.args[1])
            if p is not b.args[1]:
                r = alg._cmp(b.args[0], p, 0)
                return r
        elif b.kind == "not":
            r = self._simplify(b.args[0]) if isinstance(b.args[0], BoolE) else b.args[0]
            return alg.bnot(r)
        elif b.kind in ("and", "or"):
            xs = [self._simplify(x) if isinstance(x, BoolE) else x for x in b.args]
            return (alg.band if b.kind == "and" else alg.bor)(*xs)
        return b

    def branch(self, b):
        if not isinstance(b, BoolE):
            return bool(b)
        if b.kind == "not":
            return not self.branch(b.args[0])
        if b.kind == "fp":
            return self.fp_branch(b)
        b = self._simplify(b)
        if not isinstance(b, BoolE):
            return bool(b)
        if b.kind == "not":
            return not self.branch(b.args[0])
        k = b.key()
        v = self.known.get(k)
        if v is not None:
            return v
        if b.kind == "and":
            return self.branch(b.args[0]) and self.branch(b.args[1])
        if b.kind == "or":
            return self.branch(b.args[0]) or self.branch(b.args[1])
        self._tick()
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            e = self.prefix[self.pos]
            self.pos += 1
            if e[0] == "b":
                t = e[1]
                self._assume(b, t)
                if self.holds(b) != t:
                    raise EngineUnsupported("witness disagrees with forced decision")
                self.log.append(e)
                if b.kind == "cmp" and t and b.args[0] == "==":
                    self._learn_eq(b.args[1])
                return t
            raise EngineUnsupported("non-deterministic execution (decision kind)")
        t = self.holds(b)
        if not self.ex.single:
            m = self.feasible([(b, not t)])
            if m is None:
                self.stats.infeasible_sides += 1
            else:
                self.ex.push(self.log + [("b", not t)], m)
        self._assume(b, t)
        self.log.append(("b", t))
        if t and b.kind == "cmp" and b.args[0] == "==":
            self._learn_eq(b.args[1])
        return t

    def _learn_eq(self, p):
        """p == 0 with p = c*atom + d fixes the atom."""
        if len(p.t) <= 2:
            d = p.t.get((), Fraction(0))
            rest = [(m, c) for m, c in p.t.items() if m != ()]
            if len(rest) == 1:
                m, c = rest[0]
                if len(m) == 1 and m[0][1] == 1:
                    self.conc[m[0][0]] = -d / c

    def concretize(self, p):
        """The integer value of p on this path."""
        if not isinstance(p, Poly):
            if isinstance(p, float):
                raise EngineUnsupported("integer value of inf/nan")
            return int(p)
        p = self.resolve(p)
        if not isinstance(p, Poly):
            return int(p)
        if not self.is_int(p):
            p2 = alg.trunc(p)
            if not isinstance(p2, Poly):
                return int(p2)
            p = p2
        for a in sorted(p.atoms()):
            if a not in self.conc:
                self._conc_atom(a)
        p = self.resolve(p)
        assert not isinstance(p, Poly)
        return int(p)

    def _conc_atom(self, a):
        self._tick()
        self.stats.decisions += 1
        P = Poly({((a, 1),): Fraction(1)})
        excl = ()
        v = None
        if self.pos < len(self.prefix):
            e = self.prefix[self.pos]
            self.pos += 1
            if e[0] != "c":
                raise EngineUnsupported("non-deterministic execution (decision kind)")
            v, excl = e[1], e[2]
            forced = v is not None
        else:
            forced = False
        if not forced:
            v = int(self.atoms[a].val)
            if v in excl:
                raise EngineUnsupported("witness repeats an excluded value")
            if len(excl) > 64:
                raise EngineUnsupported("unbounded integer concretised")
            if not self.ex.single:
                for x in excl:
                    self.solver.add(self.z_atom(a) != x)
                m = self.feasible([(alg.eq(P, v), False)] + [(alg.eq(P, x), False) for x in excl])
                if m is None:
                    self.stats.infeasible_sides += 1
                else:
                    self.ex.push(self.log + [("c", None, tuple(excl) + (v,))], m)
        b = alg.eq(P, v)
        if isinstance(b, BoolE):
            self._assume(b, True)
        self.conc[a] = Fraction(v)
        self.log.append(("c", v, tuple(excl)))

    def _tick(self):
        if time.time() > self.ex.deadline:
            raise Inconclusive("time budget exceeded while exploring paths")

    # -- re-centred coordinates ----------------------------------------------------
    def _bounds(self):
        """Bounds of base variables implied by the linear constraints of the
        path condition (and by decided trunc/floor atoms): interval
        propagation."""
        iv = {}

        def get(a):
            r = iv.get(a)
            if r is None:
                A = self.atoms[a]
                c = self.conc.get(a)
                r = (c, c) if c is not None else (A.lo, A.hi)
                iv[a] = r
            return r

        cons = []  # linear polys p with p <= 0

        def lin(p):
            return all(len(m) <= 1 and (not m or m[0][1] == 1) for m in p.t)

        def collect(c, t):
            if c.kind == "not":
                if isinstance(c.args[0], BoolE):
                    collect(c.args[0], not t)
            elif c.kind in ("and", "or"):
                if (c.kind == "and") == t:
                    for x in c.args:
                        if isinstance(x, BoolE):
                            collect(x, t)
            elif c.kind == "cmp":
                op, p = c.args
                if not lin(p):
                    return
                if op == "==":
                    if t:
                        cons.append(p)
                        cons.append(-p)
                elif t:
                    cons.append(p)
                else:
                    cons.append(-p)

        for c, t in self.pc:
            collect(c, t)
        ints = [A for A in self.atoms if A.kind in ("floor", "trunc") and lin(A.arg)]

        def row(p):
            d = p.t.get((), Fraction(0))
            return d, [(m[0][0], c) for m, c in p.t.items() if m]

        base = [row(p) for p in cons if isinstance(p, Poly)]
        for _ in range(6):
            changed = False
            rows = list(base)
            for A in ints:
                lo, hi = get(A.id)
                if hi is not None:
                    hi = math.floor(hi)
                    u = hi + 1 if A.kind == "floor" or hi >= 0 else hi
                    rows.append(row(A.arg - u))
                    rows.append(row(Poly({((A.id, 1),): Fraction(1)}) - A.arg - (0 if A.kind == "floor" else 1)))
                if lo is not None:
                    lo = math.ceil(lo)
                    l = lo if A.kind == "floor" or lo > 0 else lo - 1
                    rows.append(row(l - A.arg))
                    rows.append(row(A.arg - Poly({((A.id, 1),): Fraction(1)}) - 1))
            for d, xs in rows:
                los = []
                for a, c in xs:
                    l, h = get(a)
                    e = l if c > 0 else h
                    los.append(None if e is None else c * e)
                nnone = sum(v is None for v in los)
                if nnone > 1:
                    continue
                tot = sum((v for v in los if v is not None), d)
                for (a, c), v in zip(xs, los):
                    if nnone == 1 and v is not None:
                        continue
                    rest = tot - v if v is not None else tot
                    # c*x <= -rest
                    bnd = -rest / c
                    l, h = get(a)
                    if self.atoms[a].sort == "I":
                        bnd = Fraction(math.floor(bnd) if c > 0 else math.ceil(bnd))
                    if c > 0 and (h is None or bnd < h):
                        iv[a] = (l, bnd)
                        changed = True
                    elif c < 0 and (l is None or bnd > l):
                        iv[a] = (bnd, h)
                        changed = True
            if not changed:
                break
        return {a: r for a, r in iv.items() if self.atoms[a].kind == "var"}

    def recentre(self, polys):
        """Rewrite polynomials in coordinates local to this path's region."""
        bnd = self._bounds()
        used = set()
        deg = {}
        for p in polys:
            for m in p.t:
                for a, e in m:
                    deg[a] = max(deg.get(a, 0), e)
        sub = {}
        for a, e in deg.items():
            A = self.atoms[a]
            if A.kind != "var" or A.sort != "R":
                continue
            lo, hi = bnd.get(a, (A.lo, A.hi))
            if lo is None or hi is None or lo >= hi:
                continue
            if (lo, hi) == (A.lo, A.hi) and (e == 1 or lo == -hi):
                continue
            mid, rad = (lo + hi) / 2, (hi - lo) / 2
            arg = (Poly({((a, 1),): Fraction(1)}) - mid) * (1 / rad)
            t = self.atom("shift", arg, "R", Fraction(-1), Fraction(1))
            sub[a] = t * rad + mid
        if not sub:
            return polys
        cache = {}

        def pw(a, e):
            r = cache.get((a, e))
            if r is None:
                r = alg.power(sub[a], e)
                cache[(a, e)] = r
            return r

        out = []
        for p in polys:
            acc = {}
            for m, c in p.t.items():
                rest = tuple(x for x in m if x[0] not in sub)
                q_ = Poly({rest: c}) if rest else c
                for a, e in m:
                    if a in sub:
                        q_ = pw(a, e) * q_
                for mm, cc in alg._terms(q_).items():
                    s = acc.get(mm)
                    acc[mm] = cc if s is None else s + cc
            out.append(mk({mm: cc for mm, cc in acc.items() if cc != 0}))
        return out

    def settle(self, d):
        """Case-split on bounded integer atoms that occur nonlinearly."""
        while isinstance(d, Poly):
            pick = None
            for m in d.t:
                if len(m) > 1 or (m and m[0][1] > 1):
                    for a, _ in m:
                        if self.atoms[a].kind in ("floor", "trunc") and a not in self.conc:
                            pick = a if pick is None else min(pick, a)
            if pick is None:
                return d
            self._conc_atom(pick)
            d = self.resolve(d)
        return d

    # -- assertions ------------------------------------------------------------------
    def require(self, conds, what):
        """Every BoolE in conds must hold on this path."""
        cs = []
        for c in conds:
            if isinstance(c, BoolE):
                c = self._simplify(c)
            self.stats.assertions += 1
            if not isinstance(c, BoolE):
                if not c:
                    raise Violated(what, dict(self.model))
                self.stats.discharged += 1
                continue
            cs.append(c)
        if not cs:
            return
        for k in range(0, len(cs), 64):
            chunk = cs[k : k + 64]
            bad = alg.bnot(chunk[0])
            for c in chunk[1:]:
                bad = BoolE("or", (bad, alg.bnot(c)))
            for c in chunk:
                if not self.holds(c):
                    raise Violated(what, dict(self.model))
            m = self.feasible([(bad, True)])
            if m is not None:
                raise Violated(what, m)
            self.stats.discharged += len(chunk)

    def require_close(self, pairs, tol, what):
        """|a-b| <= tol for all pairs of elements."""
        conds = []
        ident = []
        tol = Fraction(tol)
        for a, b in pairs:
            a, b = alg._fin(alg.num(a)), alg._fin(alg.num(b))
            if isinstance(a, float) or isinstance(b, float):
                same = (
                    isinstance(a, float)
                    and isinstance(b, float)
                    and (a == b or (math.isnan(a) and math.isnan(b)))
                )
                conds.append(same)
                continue
            d = a - b
            d = self.resolve(d)
            if not isinstance(d, Poly):
                if abs(d) <= tol and isinstance(a, Poly):
                    ident.append((a, b))
                conds.append(abs(d) <= tol)
                continue
            self.stats.max_terms = max(self.stats.max_terms, len(d.t))
            d = self.settle(d)
            if not isinstance(d, Poly):
                conds.append(abs(d) <= tol)
                continue
            if abs(self.value(d)) <= tol and ratform.is_zero(self, d):
                conds.append(True)
                continue
            d = self.recentre([d])[0]
            if not isinstance(d, Poly):
                conds.append(abs(d) <= tol)
                continue
            d2, slack = _round_poly(d)
            if slack is None or slack > tol / 2:
                d2, slack = d, Fraction(0)
            t = tol - slack
            c1, c2 = _raw_le(d2 - t), _raw_le(-d2 - t)
            conds.append(alg.band(c1, c2))
        # cheap violation at the witness first
        self.require(conds, what)
        self._confirm(ident, tol, what)

    def _confirm(self, ident, tol, what):
        """Pairs whose difference cancelled in normal form: the solver decides
        them again on the two sides as they were built."""
        S = self.solver
        for k in range(0, len(ident), 64):
            S.push()
            S.add(z3.Or(*[z3.Or(e > q(tol), e < -q(tol)) for e in
                          (self.z_lin(self.resolve(a)) - self.z_lin(self.resolve(b)) for a, b in ident[k : k + 64])]))
            r = self._check(S)
            S.pop()
            if r == z3.sat:
                raise EngineUnsupported(f"{what}: normal form and solver disagree")


def _raw_le(p):
    if not isinstance(p, Poly):
        return p <= 0
    return BoolE("cmp", ("<=", p))


def _round_poly(p):
    """Coefficients rounded to 48 fractional bits; the error bounded by slack."""
    t = {}
    slack = Fraction(0)
    for m, c in p.t.items():
        r = Fraction(round(c * (1 << 48)), 1 << 48)
        if r != c:
            if m == ():
                slack += abs(c - r)
            else:
                lo, hi = alg.mono_interval(m)
                if lo is None or hi is None:
                    return None, None
                slack += abs(c - r) * max(abs(lo), abs(hi))
        if r != 0:
            t[m] = r
    return mk(t), slack


def _fr(v):
    return None if v is None else Fraction(v)


def _dyadic(v, bits=16):
    s = 1 << bits
    return Fraction(round(v * s), s)


def _round_model(ctx, model):
    out = {}
    for n, v in model.items():
        if n in ctx.vars and ctx.atoms[ctx.vars[n]].sort == "R":
            # 12 fractional bits: exactly representable in float32
            out[n] = _dyadic(v, 12)
        else:
            out[n] = v
    return out


class Explorer:
    def __init__(self, run, seed=1, timeout_ms=20000, nl_timeout_ms=20000, deadline=None, max_paths=100000):
        self.run = run
        self.seed = seed
        self.timeout_ms = timeout_ms
        self.nl_timeout_ms = nl_timeout_ms
        self.deadline = deadline or time.time() + 600
        self.max_paths = max_paths
        self.stats = Stats()
        self.work = [((), None)]
        self.single = False

    def push(self, prefix, model):
        self.work.append((tuple(prefix), model))

    def explore(self):
        """Runs until the tree is exhausted, or raises Violated/Inconclusive."""
        while self.work:
            if self.stats.paths >= self.max_paths:
                raise Inconclusive("path limit")
            prefix, model = self.work.pop()
            ctx = Context(self, prefix, model)
            alg.set_ctx(ctx)
            try:
                self.run(ctx)
                self.stats.paths += 1
            except PathAbort as e:
                if DEBUG:
                    print("abort", e)
            finally:
                alg.set_ctx(None)
