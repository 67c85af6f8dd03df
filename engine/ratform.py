"""Rational normal form.

A difference of two elements is a polynomial over atoms, some of which are
defined by laws a polynomial normal form does not use: inv(b)*b = 1,
sqrt(a)^2 = a, exp(a+b) = exp(a)exp(b), tanh(a) = (exp(2a)-1)/(exp(2a)+1),
sin^2+cos^2 = 1.  is_zero clears the denominators (which the path has shown to
be non-zero), rewrites with these laws and tells whether the numerator vanishes
identically (coefficients below 1e-12 of the largest one are rounding of
constants).  It only ever answers "identically zero" or "do not know".
"""
from fractions import Fraction

from .alg import Poly, _mono_mul

LIMIT = 40000
EPS = Fraction(1, 10**12)


class _Big(Exception):
    pass


def _t(p):
    return p.t if isinstance(p, Poly) else ({(): Fraction(p)} if p else {})


def _mul(a, b):
    if len(a) * len(b) > 20 * LIMIT:
        raise _Big
    t = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = _mono_mul(ma, mb)
            t[m] = t.get(m, 0) + ca * cb
    t = {m: c for m, c in t.items() if c}
    if len(t) > LIMIT:
        raise _Big
    return t


def _add(a, b):
    t = dict(a)
    for m, c in b.items():
        t[m] = t.get(m, 0) + c
    return {m: c for m, c in t.items() if c}


def _split(t, a):
    """t as {power of atom a: coefficient polynomial}."""
    out = {}
    for m, c in t.items():
        e = 0
        rest = m
        for k, (x, p) in enumerate(m):
            if x == a:
                e = p
                rest = m[:k] + m[k + 1 :]
                break
        out.setdefault(e, {})[rest] = c
    return out


def is_zero(ctx, d):
    """True when d vanishes identically by the laws above."""
    kinds = {ctx.atoms[a].kind for m in d.t for a, _ in m}
    if not kinds & {"inv", "exp", "sqrt", "tanh", "sin", "cos"}:
        return False
    try:
        t = _reduce(ctx, dict(d.t))
    except _Big:
        return False
    if t:
        return False
    ctx.stats.identities += 1
    return True


def _reduce(ctx, t):
    for _ in range(60):
        scale = max((abs(c) for c in t.values()), default=Fraction(0))
        atoms = {}
        for m in t:
            for a, e in m:
                if a < len(ctx.atoms):
                    atoms[a] = max(atoms.get(a, 0), e)
        todo = [a for a in atoms if ctx.atoms[a].kind == "inv"]
        if todo:
            a = max(todo)
            b = _t(ctx.resolve(ctx.atoms[a].arg))
            s = _split(t, a)
            top = max(s)
            pw = {(): Fraction(1)}
            t = {}
            for e in range(top, -1, -1):
                if e in s:
                    t = _add(t, _mul(s[e], pw))
                if e:
                    pw = _mul(pw, b)
            t = _drop(t, scale)
            if not t:
                return t
            continue
        todo = [a for a in atoms if ctx.atoms[a].kind == "sqrt" and atoms[a] > 1]
        if todo:
            a = max(todo)
            b = _t(ctx.resolve(ctx.atoms[a].arg))
            s = _split(t, a)
            t = {}
            for e, c in s.items():
                for _k in range(e // 2):
                    c = _mul(c, b)
                if e % 2:
                    c = _mul(c, {((a, 1),): Fraction(1)})
                t = _add(t, c)
            t = _drop(t, scale)
            if not t:
                return t
            continue
        # cos^2 -> 1 - sin^2 where both occur
        hit = False
        for a in atoms:
            A = ctx.atoms[a]
            if A.kind == "cos" and atoms[a] > 1:
                o = ctx.intern.get(("sin", A.arg.key()))
                if o is None:
                    continue
                s = _split(t, a)
                t = {}
                f = {(): Fraction(1), ((o, 2),): Fraction(-1)}
                for e, c in s.items():
                    for _k in range(e // 2):
                        c = _mul(c, f)
                    if e % 2:
                        c = _mul(c, {((a, 1),): Fraction(1)})
                    t = _add(t, c)
                t = _drop(t, scale)
                hit = True
                break
        if hit:
            if not t:
                return t
            continue
        break
    return _exps(ctx, t)


def _drop(t, scale):
    """Forget coefficients that are rounding of constants."""
    if not t:
        return t
    top = max(abs(c) for c in t.values())
    if top <= EPS * scale:
        return {}
    return t


def _exps(ctx, t):
    atoms = sorted({a for m in t for a, _ in m if ctx.atoms[a].kind in ("exp", "tanh")})
    if not any(ctx.atoms[a].kind == "exp" for a in atoms) or len(atoms) < 2:
        return t
    args = {}
    for a in atoms:
        A = ctx.atoms[a]
        p = _t(ctx.resolve(A.arg))
        args[a] = {m: 2 * c for m, c in p.items()} if A.kind == "tanh" else p
    unit = {}
    for p in args.values():
        for m, c in p.items():
            c = abs(c)
            if m not in unit or c < unit[m]:
                unit[m] = c
    sym = {m: 10**7 + i for i, m in enumerate(sorted(unit))}
    ex = {}
    for a, p in args.items():
        pw = {}
        for m, c in p.items():
            r = c / unit[m]
            k = round(r)
            if abs(r - k) > EPS:
                return t
            if abs(k) > 8:
                return t
            if k:
                pw[sym[m]] = k
        ex[a] = pw
    scale = max(abs(c) for c in t.values())
    # tanh = (E - 1)/(E + 1) with E = exp(2a): clear its denominators first
    for a in atoms:
        if ctx.atoms[a].kind != "tanh":
            continue
        s = _split(t, a)
        top = max(s)
        if top == 0:
            continue
        E = tuple(sorted((x, k) for x, k in ex[a].items() if k > 0))
        I = tuple(sorted((x, -k) for x, k in ex[a].items() if k < 0))
        # E - 1 -> E - I ; E + 1 -> E + I after multiplying with the positive I
        nu, de = _add({E: Fraction(1)}, {I: Fraction(-1)}), _add({E: Fraction(1)}, {I: Fraction(1)})
        out = {}
        for e, c in s.items():
            for _k in range(e):
                c = _mul(c, nu)
            for _k in range(top - e):
                c = _mul(c, de)
            out = _add(out, c)
        t = out
        if not t:
            return t
    # exp atoms: monomials in the symbols, made non-negative by a common factor
    rows = []
    low = {}
    for m, c in t.items():
        pw = {}
        rest = []
        for x, e in m:
            if x in ex and ctx.atoms[x].kind == "exp":
                for s_, k in ex[x].items():
                    pw[s_] = pw.get(s_, 0) + k * e
            elif x >= 10**7:
                pw[x] = pw.get(x, 0) + e
            else:
                rest.append((x, e))
        rows.append((pw, tuple(rest), c))
        for s_, k in pw.items():
            low[s_] = min(low.get(s_, 0), k)
    out = {}
    for pw, rest, c in rows:
        f = dict(pw)
        for s_, k in low.items():
            f[s_] = f.get(s_, 0) - k
        m = rest + tuple(sorted((x, e) for x, e in f.items() if e))
        out[m] = out.get(m, 0) + c
    return _drop({m: c for m, c in out.items() if c}, scale)
