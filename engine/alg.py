"""Symbolic element algebra (real-arithmetic domain).

A tensor element is one of
  * a Python number (int / Fraction / bool, or a float that is inf or nan):
    a concrete value;
  * a Poly: a multivariate polynomial with rational coefficients over *atoms*.
    An atom is a base variable (an input of the property) or the value of a
    non-polynomial operation (trunc, floor, reciprocal, sqrt, exp, sin, ...)
    on a polynomial; atoms are interned, so equal terms get the same atom;
  * a BoolE: a symbolic Boolean over polynomial comparisons.

Decisions (the truth of a BoolE, the value of an integer Poly) are taken by the
execution context: see explore.py.
"""
import math
from fractions import Fraction

INF = float("inf")
NAN = float("nan")

CTX = None  # current engine.explore.Context


class EngineUnsupported(BaseException):
    """The code did something the encoder has no semantics for."""


class PathAbort(BaseException):
    """Stop the current path (infeasible or over budget)."""


def set_ctx(c):
    global CTX
    CTX = c


class Atom:
    __slots__ = ("id", "kind", "arg", "sort", "lo", "hi", "name", "val")

    def __init__(self, id, kind, arg, sort, lo, hi, name):
        self.id = id
        self.kind = kind
        self.arg = arg
        self.sort = sort
        self.lo = lo
        self.hi = hi
        self.name = name
        self.val = None


def is_special(v):
    return isinstance(v, float)


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mk(t):
    """Polynomial (or plain Fraction) from a term dict without zero entries."""
    if not t:
        return Fraction(0)
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def _terms(v):
    if isinstance(v, Poly):
        return v.t
    if v == 0:
        return {}
    return {(): Fraction(v)}


def num(v):
    """Coerce an element to something arithmetic works on."""
    if isinstance(v, BoolE):
        return 1 if CTX.branch(v) else 0
    if isinstance(v, bool):
        return int(v)
    return v


MAX_TERMS = 60000


class Poly:
    __slots__ = ("t", "_k", "_v", "_run")

    def __init__(self, t):
        self.t = t
        self._k = None
        self._run = None
        if len(t) > MAX_TERMS:
            raise EngineUnsupported("polynomial too large")

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __hash__(self):
        return hash(self.key())

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        o = num(o)
        if isinstance(o, Poly):
            a, b = self.t, o.t
            if len(a) < len(b):
                a, b = b, a
            t = dict(a)
            for m, c in b.items():
                s = t.get(m)
                if s is None:
                    t[m] = c
                else:
                    s = s + c
                    if s == 0:
                        del t[m]
                    else:
                        t[m] = s
            return mk(t)
        if isinstance(o, float):
            if math.isfinite(o):
                o = Fraction(o)
            else:
                return o
        if o == 0:
            return self
        t = dict(self.t)
        s = t.get((), 0) + o
        if s == 0:
            t.pop((), None)
        else:
            t[()] = Fraction(s)
        return mk(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = num(o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + num(o)

    def __mul__(self, o):
        o = num(o)
        if isinstance(o, Poly):
            t = {}
            for ma, ca in self.t.items():
                for mb, cb in o.t.items():
                    m = _mono_mul(ma, mb)
                    s = t.get(m)
                    t[m] = ca * cb if s is None else s + ca * cb
            t = {m: c for m, c in t.items() if c != 0}
            return mk(t)
        if isinstance(o, float):
            if math.isfinite(o):
                o = Fraction(o)
            elif math.isnan(o):
                return NAN
            else:  # +-inf times symbolic: decide the sign
                if CTX.branch(lt(self, 0)):
                    return -o
                if CTX.branch(eq(self, 0)):
                    return NAN
                return o
        if o == 0:
            return Fraction(0)
        if o == 1:
            return self
        return Poly({m: c * o for m, c in self.t.items()})

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __pow__(self, k):
        return power(self, k)

    def __abs__(self):
        return -self if CTX.branch(lt(self, 0)) else self

    def __floordiv__(self, o):
        return floor(div(self, o))

    def __rfloordiv__(self, o):
        return floor(div(o, self))

    def __mod__(self, o):
        return remainder(self, o)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __trunc__(self):
        return trunc(self)

    def __round__(self, k=None):
        if k:
            raise EngineUnsupported("round() to digits of a symbolic value")
        return rnd(self)

    # -- comparisons ------------------------------------------------------
    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return le(o, self)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return bnot(eq(self, o))

    def __bool__(self):
        return not bool(eq(self, 0))

    def same(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __float__(self):
        raise EngineUnsupported("float() of a symbolic value")

    def __int__(self):
        return CTX.concretize(trunc(self))

    __index__ = None

    def __repr__(self):
        return show(self)


def show(v, limit=6):
    if not isinstance(v, Poly):
        return str(v)
    parts = []
    for m, c in list(v.t.items())[:limit]:
        mm = "*".join(
            (CTX.atoms[a].name if CTX else f"a{a}") + (f"^{e}" if e > 1 else "")
            for a, e in m
        )
        parts.append(f"{float(c):.6g}" + ("*" + mm if mm else ""))
    if len(v.t) > limit:
        parts.append("...")
    return " + ".join(parts)


# ---------------------------------------------------------------------------
# Booleans
class BoolE:
    """kind: 'cmp' (op, poly) meaning poly op 0 with op in < <= ==;
    'not' (b,), 'and' (a, b), 'or' (a, b), 'var' (id,), 'z3' (expr, evaluator)"""

    __slots__ = ("kind", "args", "_k")

    def __init__(self, kind, args):
        self.kind = kind
        self.args = args
        self._k = None

    def key(self):
        if self._k is None:
            if self.kind == "cmp":
                self._k = ("cmp", self.args[0], self.args[1].key())
            elif self.kind in ("not", "and", "or"):
                self._k = (self.kind,) + tuple(a.key() for a in self.args)
            elif self.kind == "fp":
                self._k = ("fp", self.args[0].get_id())
            else:
                self._k = (self.kind,) + self.args
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return bxor(self, o)

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (BoolE, bool)):
            return bnot(bxor(self, o))
        return num(self) == o

    def __ne__(self, o):
        if isinstance(o, (BoolE, bool)):
            return bxor(self, o)
        return num(self) != o

    # arithmetic on booleans decides them
    def __add__(self, o):
        return num(self) + num(o)

    __radd__ = __add__

    def __mul__(self, o):
        return num(self) * num(o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return num(self) - num(o)

    def __rsub__(self, o):
        return num(o) - num(self)

    def __repr__(self):
        if self.kind == "cmp":
            return f"({show(self.args[1])} {self.args[0]} 0)"
        return f"({self.kind} {self.args})"


def bnot(b):
    if isinstance(b, BoolE):
        if b.kind == "not":
            return b.args[0]
        return BoolE("not", (b,))
    return not b


def band(a, b):
    if not isinstance(a, BoolE):
        return b if a else False
    if not isinstance(b, BoolE):
        return a if b else False
    return BoolE("and", (a, b))


def bor(a, b):
    if not isinstance(a, BoolE):
        return True if a else b
    if not isinstance(b, BoolE):
        return True if b else a
    return BoolE("or", (a, b))


def bxor(a, b):
    if not isinstance(a, BoolE):
        return bnot(b) if a else b
    if not isinstance(b, BoolE):
        return bnot(a) if b else a
    return bor(band(a, bnot(b)), band(bnot(a), b))


def conj(xs):
    r = True
    for x in xs:
        r = band(r, x)
    return r


def disj(xs):
    r = False
    for x in xs:
        r = bor(r, x)
    return r


def _cmp(op, a, b):
    a, b = num(a), num(b)
    fp = getattr(a, "FP", None) or getattr(b, "FP", None)
    if fp:
        return fp(op, a, b)
    sa, sb = isinstance(a, float), isinstance(b, float)
    if sa and math.isfinite(a):
        a, sa = Fraction(a), False
    if sb and math.isfinite(b):
        b, sb = Fraction(b), False
    if sa or sb:
        if (sa and math.isnan(a)) or (sb and math.isnan(b)):
            return False
        fa = a if sa else 0.0
        fb = b if sb else 0.0
        return {"<": fa < fb, "<=": fa <= fb, "==": fa == fb}[op]
    d = a - b
    if not isinstance(d, Poly):
        return {"<": d < 0, "<=": d <= 0, "==": d == 0}[op]
    d = CTX.resolve(d) if CTX is not None else d
    if not isinstance(d, Poly):
        return {"<": d < 0, "<=": d <= 0, "==": d == 0}[op]
    # canonical scale
    k = max(d.t)
    c = d.t[k]
    s = abs(c) if op != "==" else c
    if s != 1:
        d = Poly({m: v / s for m, v in d.t.items()})
    lo, hi = interval(d)
    if op == "<":
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == "<=":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    else:
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
    return BoolE("cmp", (op, d))


def lt(a, b):
    return _cmp("<", a, b)


def le(a, b):
    return _cmp("<=", a, b)


def eq(a, b):
    return _cmp("==", a, b)


# ---------------------------------------------------------------------------
# intervals (used only to skip trivial decisions and to bound monomials)
def atom_interval(a):
    A = CTX.atoms[a]
    return A.lo, A.hi


def _ipow(lo, hi, e):
    if e == 1:
        return lo, hi
    if lo is None or hi is None:
        if e % 2 == 0:
            if lo is not None and lo >= 0:
                return lo**e, None
            if hi is not None and hi <= 0:
                return hi**e, None
            return Fraction(0), None
        return (lo**e if lo is not None else None), (hi**e if hi is not None else None)
    a, b = lo**e, hi**e
    if e % 2 == 0:
        if lo <= 0 <= hi:
            return Fraction(0), max(a, b)
        return min(a, b), max(a, b)
    return a, b


def _imul(a, b):
    (al, ah), (bl, bh) = a, b
    if None in (al, ah, bl, bh):
        if al is not None and bl is not None and al >= 0 and bl >= 0:
            return al * bl, (ah * bh if ah is not None and bh is not None else None)
        return None, None
    ps = (al * bl, al * bh, ah * bl, ah * bh)
    return min(ps), max(ps)


def mono_interval(m):
    cache = CTX.mono_iv
    r = cache.get(m)
    if r is None:
        r = (Fraction(1), Fraction(1))
        for a, e in m:
            r = _imul(r, _ipow(*atom_interval(a), e))
        cache[m] = r
    return r


def interval(p):
    if not isinstance(p, Poly):
        return p, p
    lo = hi = Fraction(0)
    for m, c in p.t.items():
        if m == ():
            l, h = c, c
        else:
            l, h = mono_interval(m)
            if c > 0:
                l, h = (None if l is None else l * c), (None if h is None else h * c)
            else:
                l, h = (None if h is None else h * c), (None if l is None else l * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
        if lo is None and hi is None:
            break
    return lo, hi


# ---------------------------------------------------------------------------
# scalar operations
def add(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        return _special2(a, b, "add")
    return a + b


def _fin(v):
    if isinstance(v, float) and math.isfinite(v):
        return Fraction(v)
    return v


def _special2(a, b, op):
    a, b = _fin(a), _fin(b)
    if not isinstance(a, float) and not isinstance(b, float):
        return a + b if op == "add" else a * b
    if (isinstance(a, float) and math.isnan(a)) or (
        isinstance(b, float) and math.isnan(b)
    ):
        return NAN
    if op == "add":
        if isinstance(a, float) and isinstance(b, float):
            return a + b
        return a if isinstance(a, float) else b
    # mul
    if isinstance(a, float) and isinstance(b, float):
        return a * b
    if isinstance(b, float):
        a, b = b, a
    if isinstance(b, Poly):
        return b * a
    if b == 0:
        return NAN
    return a if b > 0 else -a


def mul(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        return _special2(a, b, "mul")
    return a * b


def sub(a, b):
    b = num(b)
    return add(a, -b)


def neg(a):
    return -num(a)


def div(a, b):
    a, b = _fin(num(a)), _fin(num(b))
    if getattr(a, "FP", None) or getattr(b, "FP", None):
        return a / b
    if isinstance(a, float) or isinstance(b, float):
        if (isinstance(a, float) and math.isnan(a)) or (
            isinstance(b, float) and math.isnan(b)
        ):
            return NAN
        if isinstance(a, float) and isinstance(b, float):
            return NAN
        if isinstance(b, float):
            return Fraction(0)
        # inf / b
        if not isinstance(b, Poly):
            return a if b >= 0 else -a
        return b * a
    if isinstance(b, Poly):
        b = CTX.resolve(b)
    if not isinstance(b, Poly):
        if b == 0:
            if isinstance(a, Poly):
                if CTX.branch(eq(a, 0)):
                    return NAN
                return -INF if CTX.branch(lt(a, 0)) else INF
            return NAN if a == 0 else (INF if a > 0 else -INF)
        if isinstance(a, Poly):
            f = Fraction(1) / b
            return Poly({m: c * f for m, c in a.t.items()})
        return Fraction(a) / b
    # symbolic divisor
    if CTX.branch(eq(b, 0)):
        return div(a, Fraction(0))
    if isinstance(a, Poly):
        q = _exact_quot(a, b)
        if q is not None:
            return q
    elif a == 0:
        return Fraction(0)
    # normalise divisor to leading coefficient +1
    k = max(b.t)
    c = b.t[k]
    bn = Poly({m: v / c for m, v in b.t.items()}) if c != 1 else b
    r = CTX.atom("inv", bn, "R")
    return a * (Fraction(1) / c) * r


def _exact_quot(a, b):
    """a / b when a is a rational multiple of b, or b one monomial dividing a."""
    if len(a.t) == len(b.t):
        it = iter(b.t.items())
        m0, c0 = next(it)
        ca = a.t.get(m0)
        if ca is not None:
            f = ca / c0
            if all(a.t.get(m) == c * f for m, c in b.t.items()):
                return f
    if len(b.t) == 1:
        (mb, cb), = b.t.items()
        out = {}
        db = dict(mb)
        for ma, ca in a.t.items():
            da = dict(ma)
            for k, e in db.items():
                if da.get(k, 0) < e:
                    return None
                da[k] -= e
            out[tuple(sorted((k, e) for k, e in da.items() if e))] = ca / cb
        return mk(out)
    return None


def _int_of(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return v.numerator
    if isinstance(v, int):
        return v
    return None


def power(a, k):
    a, k = num(a), num(k)
    k = _fin(k)
    ki = _int_of(k) if not isinstance(k, Poly) else None
    if ki is not None:
        if isinstance(a, float):
            return float(a) ** ki
        if ki < 0:
            return div(Fraction(1), power(a, -ki))
        r = Fraction(1)
        base = a
        while ki:
            if ki & 1:
                r = r * base
            ki >>= 1
            if ki:
                base = base * base
        return r
    if not isinstance(k, Poly) and k == Fraction(1, 2):
        return sqrt(a)
    if not isinstance(k, Poly) and k == Fraction(-1, 2):
        return div(Fraction(1), sqrt(a))
    if not isinstance(a, Poly) and not isinstance(k, Poly):
        if not isinstance(a, float) and not isinstance(k, float):
            try:
                return _fin(float(a) ** float(k))
            except Exception:
                return NAN
    raise EngineUnsupported("pow with symbolic exponent")


def trunc(a):
    a = num(a)
    if isinstance(a, float):
        return a
    if not isinstance(a, Poly):
        return math.trunc(a)
    a = CTX.resolve(a)
    if not isinstance(a, Poly):
        return math.trunc(a)
    if CTX.is_int(a):
        return a
    lo, hi = interval(a)
    if lo is not None and lo >= 0:
        return floor(a)
    return CTX.atom(
        "trunc",
        a,
        "I",
        None if lo is None else Fraction(math.trunc(lo)),
        None if hi is None else Fraction(math.trunc(hi)),
    )


def floor(a):
    a = num(a)
    if isinstance(a, float):
        return a
    if not isinstance(a, Poly):
        return math.floor(a)
    a = CTX.resolve(a)
    if not isinstance(a, Poly):
        return math.floor(a)
    if CTX.is_int(a):
        return a
    # floor(a + m) = floor(a) + m for whole numbers m
    whole = {}
    for m, c in a.t.items():
        if m == ():
            if c.denominator == 1 or abs(c) >= 1:
                whole[m] = Fraction(math.floor(c))
        elif all(CTX.atoms[x].sort == "I" for x, _ in m) and abs(c) >= 1:
            whole[m] = Fraction(math.floor(c))
    if any(m != () for m in whole):
        w = mk(whole)
        return floor(a - w) + w
    lo, hi = interval(a)
    return CTX.atom(
        "floor",
        a,
        "I",
        None if lo is None else Fraction(math.floor(lo)),
        None if hi is None else Fraction(math.floor(hi)),
    )


def ceil(a):
    return -floor(-num(a))


def rnd(a):
    a = num(a)
    if isinstance(a, Poly):
        r = floor(a + Fraction(1, 2))
        if ctx_bool(eq(r - a, Fraction(1, 2))):  # a tie goes to the even side
            h = floor(r * Fraction(1, 2))
            return r if ctx_bool(eq(h * 2, r)) else r - 1
        return r
    if isinstance(a, float):
        return a
    return Fraction(round(a))


def remainder(a, b):
    """Python-style modulo."""
    b = _fin(num(b))
    a = _fin(num(a))
    if isinstance(a, float) or isinstance(b, float):
        return NAN
    if b == 0:
        return NAN
    q = floor(div(a, b))
    return a - q * b


def fmod(a, b):
    b = _fin(num(b))
    q = trunc(div(a, b))
    return num(a) - q * b


def floordiv(a, b):
    return floor(div(a, b))


def truncdiv(a, b):
    return trunc(div(a, b))


def maximum(a, b):
    a, b = num(a), num(b)
    for v in (a, b):
        if isinstance(v, float) and math.isnan(v):
            return NAN
    return b if ctx_bool(lt(a, b)) else a


def minimum(a, b):
    a, b = num(a), num(b)
    for v in (a, b):
        if isinstance(v, float) and math.isnan(v):
            return NAN
    return b if ctx_bool(lt(b, a)) else a


def ctx_bool(b):
    return CTX.branch(b) if isinstance(b, BoolE) else bool(b)


def clamp(a, lo, hi):
    a = num(a)
    if isinstance(a, float) and math.isnan(a):
        return a
    if lo is not None and hi is not None:
        lo_, hi_ = num(lo), num(hi)
        if not isinstance(lo_, Poly) and not isinstance(hi_, Poly) and lo_ >= hi_:
            return hi_
    if lo is not None:
        a = maximum(lo, a) if not ctx_bool(le(lo, a)) else a
    if hi is not None:
        a = hi if ctx_bool(lt(hi, a)) else a
    return num(a)


def sign(a):
    a = num(a)
    if isinstance(a, float):
        if math.isnan(a):
            return a
        return Fraction(1) if a > 0 else Fraction(-1)
    if ctx_bool(lt(a, 0)):
        return Fraction(-1)
    if ctx_bool(eq(a, 0)):
        return Fraction(0)
    return Fraction(1)


def absv(a):
    a = num(a)
    if isinstance(a, float):
        return abs(a)
    if ctx_bool(lt(a, 0)):
        return -a
    return a


def where(c, a, b):
    if isinstance(c, BoolE):
        if a is b:
            return a
        if isinstance(a, Poly) and a.same(b):
            return a
        if not isinstance(a, (Poly, BoolE)) and not isinstance(b, (Poly, BoolE)) and a == b:
            return a
        c = CTX.branch(c)
    elif isinstance(c, Poly):
        c = CTX.branch(bnot(eq(c, 0)))
    return a if c else b


def _fun(kind, a, lo=None, hi=None, conc=None):
    if isinstance(a, Poly):
        a = CTX.resolve(a)
    if not isinstance(a, Poly):
        try:
            return _fin(conc(float(a)))
        except OverflowError:
            return INF
        except ValueError:
            return NAN
    return CTX.atom(kind, a, "R", lo, hi)


def exp(a):
    a = num(a)
    if isinstance(a, float):
        if math.isnan(a):
            return a
        return INF if a > 0 else Fraction(0)
    if not isinstance(a, Poly) and a == 0:
        return Fraction(1)
    lo, hi = interval(a) if isinstance(a, Poly) else (None, None)
    el = Fraction(0)
    eh = None
    if hi is not None and hi < 700:
        eh = Fraction(math.exp(float(hi))) * Fraction(1000001, 1000000)
    if lo is not None and lo > -700:
        el = Fraction(math.exp(float(lo))) * Fraction(999999, 1000000)
    return _fun("exp", a, el, eh, math.exp)


def log(a):
    a = num(a)
    if isinstance(a, float):
        return math.log(a) if a > 0 else NAN
    if not isinstance(a, Poly):
        if a == 0:
            return -INF
        if a < 0:
            return NAN
        if a == 1:
            return Fraction(0)
        return _fun("log", a, conc=math.log)
    # log(exp(p)) == p
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            A = CTX.atoms[m[0][0]]
            if A.kind == "exp":
                return A.arg
    if ctx_bool(le(a, 0)):
        return -INF if ctx_bool(eq(a, 0)) else NAN
    return _fun("log", a, conc=math.log)


def sqrt(a):
    a = num(a)
    if isinstance(a, float):
        return NAN if (math.isnan(a) or a < 0) else a
    if isinstance(a, Poly):
        a = CTX.resolve(a)
    if not isinstance(a, Poly):
        if a < 0:
            return NAN
        a = Fraction(a)
        n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if n * n == a.numerator and d * d == a.denominator:
            return Fraction(n, d)
        return Fraction(math.sqrt(a))
    # sqrt(v^2) for one variable: |v|
    if len(a.t) == 1:
        (m, c), = a.t.items()
        n, d = math.isqrt(c.numerator) if c > 0 else -1, math.isqrt(c.denominator)
        if (
            c > 0
            and n * n == c.numerator
            and d * d == c.denominator
            and all(e % 2 == 0 for _, e in m)
        ):
            r = Poly({tuple((k, e // 2) for k, e in m): Fraction(n, d)})
            return absv(r)
    if ctx_bool(lt(a, 0)):
        return NAN
    lo, hi = interval(a)
    h = None
    if hi is not None and hi >= 0:
        h = Fraction(math.sqrt(float(hi)) * (1 + 1e-12) + 1e-300)
    return _fun("sqrt", a, Fraction(0), h, math.sqrt)


_TWO_PI = 2 * Fraction(math.pi)


def _canon_angle(a):
    """Trigonometric arguments are compared up to 1e-9 relative rounding of the
    coefficients, and reduced modulo 2*pi (pi = the float64 constant)."""
    t = {}
    for m, c in a.t.items():
        if m == ():
            k = round(c / _TWO_PI)
            c = c - k * _TWO_PI
            if abs(c) < Fraction(1, 10**7):
                continue
        # keep 9 significant digits
        f = float(c)
        t[m] = Fraction("%.8e" % f)
    return mk({m: c for m, c in t.items() if c != 0})


def _trig(kind, a):
    a = num(a)
    f = math.sin if kind == "sin" else math.cos
    if isinstance(a, float):
        return NAN
    if isinstance(a, Poly):
        a = CTX.resolve(a)
    if not isinstance(a, Poly):
        return _fin(f(float(a)))
    a = _canon_angle(a)
    if not isinstance(a, Poly):
        return _fin(f(float(a)))
    # sign symmetry
    flip = a.t[max(a.t)] < 0
    if flip:
        a = -a
    r = _fun(kind, a, Fraction(-1), Fraction(1), f)
    return -r if (flip and kind == "sin") else r


def sin(a):
    return _trig("sin", a)


def cos(a):
    return _trig("cos", a)


def tanh(a):
    a = num(a)
    if isinstance(a, float):
        return NAN if math.isnan(a) else Fraction(1 if a > 0 else -1)
    if isinstance(a, Poly):
        flip = a.t[max(a.t)] < 0
        r = _fun("tanh", -a if flip else a, Fraction(-1), Fraction(1), math.tanh)
        return -r if flip else r
    return _fin(math.tanh(float(a)))


def sigmoid(a):
    return div(Fraction(1), Fraction(1) + exp(neg(a)))


def rsqrt(a):
    return div(Fraction(1), sqrt(a))


def isnan(a):
    return isinstance(a, float) and math.isnan(a)


def isinf(a):
    return isinstance(a, float) and math.isinf(a)


def gradient(p, wrt):
    """Partial derivatives of p with respect to the variable atoms in wrt (reverse
    accumulation through the atoms' arguments; truncations are locally constant)."""
    adj = {}

    def push(q, w):
        if not isinstance(q, Poly):
            return
        parts = {}
        for m, c in q.t.items():
            for k, (a, e) in enumerate(m):
                r = m[:k] + (((a, e - 1),) if e > 1 else ()) + m[k + 1:]
                d = parts.setdefault(a, {})
                v = d.get(r, 0) + c * e
                if v == 0:
                    d.pop(r, None)
                else:
                    d[r] = v
        for a, t in parts.items():
            adj[a] = adj.get(a, Fraction(0)) + mul(w, mk(t))

    push(p, Fraction(1))
    done = {}
    while adj:
        a = max(adj)
        w = adj.pop(a)
        A = CTX.atoms[a]
        if A.kind == "var":
            done[a] = w
            continue
        if A.kind in ("trunc", "floor"):
            continue
        if not isinstance(w, Poly) and w == 0:
            continue
        s = Poly({((a, 1),): Fraction(1)})
        k = A.kind
        if k == "exp":
            f = s
        elif k == "inv":
            f = -(s * s)
        elif k == "tanh":
            f = 1 - s * s
        elif k == "sqrt":
            f = div(Fraction(1, 2), s)
        elif k == "log":
            f = div(Fraction(1), A.arg)
        elif k == "sin":
            f = cos(A.arg)
        elif k == "cos":
            f = neg(sin(A.arg))
        elif k == "shift":
            f = Fraction(1)
        else:
            raise EngineUnsupported(f"derivative of {k}")
        push(A.arg, mul(w, f))
    return [done.get(a, Fraction(0)) for a in wrt]
