"""Symbolic execution of torch code below the dispatcher.

The code under test runs unmodified on ordinary tensors that hold the concrete
witness values.  A TorchDispatchMode sees every ATen operation (autograd's
backward included) and keeps, per storage, an array of symbolic elements; views
share it the way the tensors share memory.  Native execution supplies shapes,
strides, dtypes and errors; the symbolic elements supply the values.
"""
import builtins
import itertools
import math
import random as _random
from fractions import Fraction

import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map

from . import alg
from .alg import BoolE, EngineUnsupported, Poly

aten = torch.ops.aten
OBJ = object


def obj(shape, fill=None):
    a = np.empty(tuple(shape), dtype=OBJ)
    if fill is not None:
        a.fill(fill)
    return a


def _wrap(x):
    if isinstance(x, np.ndarray):
        return x
    a = np.empty((), dtype=OBJ)
    a[()] = x
    return a


def ufunc(f, nin):
    g = np.frompyfunc(f, nin, 1)

    def call(*a):
        return _wrap(g(*[_wrap(x) for x in a]))

    return call


def conc(v):
    """Python/torch scalar -> element."""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return Fraction(v) if math.isfinite(v) else v
    return v


_conc_u = np.frompyfunc(conc, 1, 1)


def cast_elem(v, dst):
    """Value conversion to a torch dtype."""
    if dst is torch.bool:
        if isinstance(v, (bool, BoolE)):
            return v
        return alg.bnot(alg.eq(v, 0)) if not isinstance(v, float) else True
    if isinstance(v, BoolE):
        v = 1 if alg.CTX.branch(v) else 0
    if isinstance(v, bool):
        v = int(v)
    if dst.is_floating_point:
        return v
    fp = getattr(v, "FPVAL", None)
    if fp is not None:
        return v.to_int()
    if isinstance(v, float):
        # undefined in C; torch on x86 yields INT_MIN
        return -(2**63) if dst is torch.int64 else -(2**31)
    return alg.trunc(v)


class Shadow(TorchDispatchMode):
    def __init__(self, stats=None):
        super().__init__()
        self.store = {}  # storage cdata -> (buffer, keepalive tensor)
        self.keep = []
        self.stats = stats
        self.rand = None  # callable(name, lo, hi) -> element, for random factories
        self.nrand = 0
        self.uninit = False

    # -- shadow memory --------------------------------------------------------
    def key(self, t):
        return t.untyped_storage()._cdata

    def has(self, t):
        return isinstance(t, torch.Tensor) and t.layout is torch.strided and self.key(t) in self.store

    def view(self, t):
        buf, _ = self.store[self.key(t)]
        o = t.storage_offset()
        if t.numel() == 0:
            return obj(t.shape)
        return np.lib.stride_tricks.as_strided(
            buf[o:], shape=tuple(t.shape), strides=tuple(s * 8 for s in t.stride())
        )

    def elems(self, t):
        """Object array of the elements (a copy)."""
        if not isinstance(t, torch.Tensor):
            return _wrap(conc(t))
        if self.has(t):
            return self.view(t).copy()
        with _NoModes():
            d = t.detach()
            a = obj(t.shape)
            if t.numel():
                flat = d.reshape(-1).tolist()
                vals = obj((len(flat),))
                for i, v in enumerate(flat):
                    vals[i] = conc(v)
                a = vals.reshape(tuple(t.shape))
            return a

    def attach(self, t):
        """Give t's storage a shadow initialised from its concrete contents."""
        k = self.key(t)
        if k in self.store:
            return
        with _NoModes():
            n = t.untyped_storage().nbytes() // t.element_size()
            flat = torch.as_strided(t.detach(), (n,), (1,), 0).tolist()
        buf = obj((n,))
        for i, v in enumerate(flat):
            buf[i] = conc(v)
        self.store[k] = (buf, t.untyped_storage())

    def put(self, t, arr):
        """Write arr through tensor t."""
        k = self.key(t)
        if k not in self.store:
            n = t.untyped_storage().nbytes() // t.element_size()
            if n == t.numel():
                buf = obj((n,))
                self.store[k] = (buf, t.untyped_storage())
            else:
                self.attach(t)
        if t.numel() == 0:
            return
        arr = np.broadcast_to(_wrap(arr), tuple(t.shape))
        v = self.view(t)
        v[...] = arr

    def make(self, t, arr):
        """Attach shadow arr to fresh output t, converting to its dtype."""
        self.put(t, arr)
        self.keep.append(t)
        return t

    # -- dispatch ---------------------------------------------------------------
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[1]
        flat, _ = tree_flatten((args, kwargs))
        tens = [a for a in flat if isinstance(a, torch.Tensor)]
        sym = any(self.has(t) for t in tens)
        if name in RANDOM and self.rand is not None:
            return RANDOM[name](self, func, args, kwargs)
        if not sym:
            out = func(*args, **kwargs)
            if name in ("empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided") and self.uninit and self.rand is not None:
                if out.is_floating_point() and out.numel() < 4096:
                    self._fresh(out, "uninit", Fraction(-4), Fraction(4))
            # keep every tensor of the path alive: storage addresses stay unique
            self.keep.append(out)
            return out
        if self.stats is not None:
            self.stats.aten.add(name)
        if "complex" in name:
            raise EngineUnsupported(f"complex numbers: {func}")
        h = SPECIAL.get(name)
        if h is not None:
            return h(self, func, args, kwargs)
        if name in VIEWS or _is_view(func):
            args, kwargs = self.fix_ints(args, kwargs)
            out = func(*args, **kwargs)
            if isinstance(out, torch.Tensor) and out.numel() and not self.has(out):
                # a composite that may copy (contiguous, to, reshape) and did
                with self:
                    out = func.decompose(*args, **kwargs)
                if out is NotImplemented or not self.has(out):
                    raise EngineUnsupported(f"aten op {func} loses its symbolic contents")
                return out
            self.keep.append(out)
            return out
        inplace = name.endswith("_") and not name.endswith("__") and func._schema.arguments[0].alias_info is not None and func._schema.arguments[0].alias_info.is_write
        base = name[:-1] if inplace else name
        h = OPS.get(base)
        if h is None and name.startswith("__") and name.endswith("__"):
            h = OPS.get(name.strip("_"))
        if h is not None:
            arr = h(self, func, args, kwargs)
            nout = func(*args, **kwargs)
            return self.finish(func, args, kwargs, nout, arr, inplace)
        if inplace:
            # the functional form, copied back
            packet = getattr(torch.ops.aten, base, None)
            f2 = getattr(packet, func._overloadname, None) if packet is not None else None
            if f2 is not None:
                with self:
                    r = f2(*args, **kwargs)
                    return args[0].copy_(r)
        if not inplace:
            d = _decomp(func)
            if d is not None:
                with self:
                    return d(*args, **kwargs)
            try:
                with self:
                    r = func.decompose(*args, **kwargs)
                if r is not NotImplemented:
                    return r
            except EngineUnsupported:
                raise
            except NotImplementedError:
                pass
        raise EngineUnsupported(f"aten op {func}")

    def finish(self, func, args, kwargs, nout, arr, inplace=False):
        if inplace:
            t = args[0]
            arr = self.cast(arr, t.dtype)
            self.put(t, arr)
            return nout
        if "out" in kwargs and kwargs["out"] is not None:
            t = kwargs["out"]
            self.put(t, self.cast(arr, t.dtype))
            return nout
        if isinstance(nout, torch.Tensor):
            return self.make(nout, self.cast(arr, nout.dtype))
        outs = []
        for o, a in zip(nout, arr):
            if isinstance(o, torch.Tensor):
                if a is None:
                    self.keep.append(o)
                else:
                    self.make(o, self.cast(a, o.dtype))
            outs.append(o)
        return type(nout)(outs) if not hasattr(nout, "_fields") else nout

    def cast(self, arr, dt):
        if dt.is_floating_point:
            f = arr
            a = _wrap(arr)
            if any(isinstance(v, (BoolE, bool)) for v in a.flat):
                return _wrap(np.frompyfunc(lambda v: cast_elem(v, dt), 1, 1)(a))
            return a
        return _wrap(np.frompyfunc(lambda v: cast_elem(v, dt), 1, 1)(_wrap(arr)))

    def fix_ints(self, args, kwargs):
        return args, kwargs

    # integer contents of a (possibly shadowed) index tensor, decided
    def ints(self, t):
        if not self.has(t):
            with _NoModes():
                return np.array(t.detach().tolist(), dtype=np.int64).reshape(tuple(t.shape))
        a = self.view(t)
        out = np.empty(tuple(t.shape), dtype=np.int64)
        for ix in np.ndindex(*a.shape):
            v = a[ix]
            if isinstance(v, BoolE):
                v = alg.CTX.branch(v)
            elif isinstance(v, Poly):
                v = alg.CTX.concretize(v)
            elif getattr(v, "FPVAL", None) is not None:
                v = v.concretize()
            out[ix] = int(v)
        return out

    def bools(self, t):
        a = self.elems(t)
        out = np.empty(tuple(t.shape), dtype=bool)
        for ix in np.ndindex(*a.shape):
            v = a[ix]
            if isinstance(v, Poly):
                v = alg.bnot(alg.eq(v, 0))
            out[ix] = alg.CTX.branch(v) if isinstance(v, BoolE) else bool(v)
        return out

    def decided(self, t):
        """A plain tensor with the decided contents of an index tensor."""
        if t is None or not self.has(t):
            return t
        if t.dtype is torch.bool:
            return torch.tensor(self.bools(t).tolist(), dtype=torch.bool).reshape(t.shape)
        return torch.tensor(self.ints(t).tolist(), dtype=t.dtype).reshape(t.shape)

    def _fresh(self, t, tag, lo, hi):
        arr = obj(t.shape)
        k = self.nrand
        self.nrand += 1
        vals = np.zeros(tuple(t.shape))
        for i, ix in enumerate(np.ndindex(*arr.shape)):
            e, v = self.rand(f"{tag}{k}_{i}", lo, hi)
            arr[ix] = e
            vals[ix] = v
        with torch.no_grad():
            t.detach().copy_(torch.tensor(vals.tolist(), dtype=t.dtype).reshape(t.shape))
        self.make(t, arr)
        return t


class _NoModes:
    def __enter__(self):
        self.a = torch._C._DisableTorchDispatch()
        self.b = torch._C.DisableTorchFunction()

    def __exit__(self, *e):
        del self.a
        del self.b


VIEWS = {
    "_unsafe_view", "detach", "alias", "view", "_reshape_alias", "lift_fresh",
    "expand", "permute", "transpose", "t", "slice", "select", "unsqueeze",
    "squeeze", "as_strided", "split", "split_with_sizes", "unbind", "diagonal",
    "unfold", "detach_", "view_as_real", "chunk", "narrow", "movedim",
    "unsqueeze_", "squeeze_", "transpose_", "t_", "requires_grad_", "set_",
}


def _is_view(func):
    s = func._schema
    if any(a.alias_info is not None and a.alias_info.is_write for a in s.arguments):
        return False
    return any(r.alias_info is not None for r in s.returns)


_DECOMP = None


def _decomp(func):
    global _DECOMP
    if _DECOMP is None:
        import torch._decomp
        import torch._refs  # noqa: F401

        _DECOMP = torch._decomp.decomposition_table
    return _DECOMP.get(func)


OPS = {}
SPECIAL = {}
RANDOM = {}


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f

    return d


def special(*names):
    def d(f):
        for n in names:
            SPECIAL[n] = f
        return f

    return d


def random_op(*names):
    def d(f):
        for n in names:
            RANDOM[n] = f
        return f

    return d


# -- elementwise --------------------------------------------------------------
def _ew(name, f, nin):
    u = ufunc(f, nin)

    def h(m, func, args, kwargs):
        return u(*[m.elems(a) for a in args[:nin]])

    OPS[name] = h


for _n, _f in {
    "mul": alg.mul, "maximum": alg.maximum, "minimum": alg.minimum,
    "fmod": alg.fmod, "remainder": alg.remainder, "atan2": None,
    "lt": alg.lt, "le": alg.le, "eq": alg.eq,
    "gt": lambda a, b: alg.lt(b, a), "ge": lambda a, b: alg.le(b, a),
    "ne": lambda a, b: alg.bnot(alg.eq(a, b)),
    "floor_divide": alg.floordiv,
    "fmax": alg.maximum, "fmin": alg.minimum,
}.items():
    if _f is not None:
        _ew(_n, _f, 2)


def _beq(a, b):
    if isinstance(a, (BoolE, bool)) and isinstance(b, (BoolE, bool)):
        return alg.bnot(alg.bxor(a, b))
    return alg.eq(a, b)


_ew("eq", _beq, 2)
_ew("ne", lambda a, b: alg.bnot(_beq(a, b)), 2)


def _asb(v):
    if isinstance(v, (BoolE, bool)):
        return v
    return alg.bnot(alg.eq(v, 0))


def _bitop(fb, name):
    def f(a, b):
        if isinstance(a, (BoolE, bool)) and isinstance(b, (BoolE, bool)):
            return fb(a, b)
        raise EngineUnsupported(f"{name} on symbolic integers")

    return f


_ew("bitwise_and", _bitop(alg.band, "and"), 2)
_ew("bitwise_or", _bitop(alg.bor, "or"), 2)
_ew("bitwise_xor", _bitop(alg.bxor, "xor"), 2)
OPS["and"] = OPS["bitwise_and"]
OPS["or"] = OPS["bitwise_or"]
OPS["xor"] = OPS["bitwise_xor"]
_ew("logical_and", lambda a, b: alg.band(_asb(a), _asb(b)), 2)
_ew("logical_or", lambda a, b: alg.bor(_asb(a), _asb(b)), 2)
_ew("logical_xor", lambda a, b: alg.bxor(_asb(a), _asb(b)), 2)
_ew("logical_not", lambda a: alg.bnot(_asb(a)), 1)
_ew("bitwise_not", lambda a: alg.bnot(a) if isinstance(a, (BoolE, bool)) else ~a, 1)

for _n, _f in {
    "neg": alg.neg, "abs": alg.absv, "sign": alg.sign, "sgn": alg.sign,
    "trunc": alg.trunc, "floor": alg.floor, "ceil": alg.ceil,
    "exp": alg.exp, "log": alg.log, "sqrt": alg.sqrt, "rsqrt": alg.rsqrt,
    "sin": alg.sin, "cos": alg.cos, "tanh": alg.tanh, "sigmoid": alg.sigmoid,
    "isnan": alg.isnan, "isinf": alg.isinf,
    "isfinite": lambda v: not (isinstance(v, float) and not math.isfinite(v)),
    "relu": lambda v: alg.maximum(v, Fraction(0)),
    "reciprocal": lambda v: alg.div(Fraction(1), v),
    "square": lambda v: alg.mul(v, v),
    "positive": lambda v: v,
    "fix": alg.trunc,
    "exp2": lambda v: alg.exp(alg.mul(v, Fraction(math.log(2)))),
    "log2": lambda v: alg.mul(alg.log(v), Fraction(1 / math.log(2))),
    "log10": lambda v: alg.mul(alg.log(v), Fraction(1 / math.log(10))),
    "tan": lambda v: alg.div(alg.sin(v), alg.cos(v)),
    "atan": lambda v: alg._fun("atan", alg.num(v), Fraction(-2), Fraction(2), math.atan),
    "log1p": lambda v: alg.log(alg.add(v, Fraction(1))),
    "expm1": lambda v: alg.sub(alg.exp(v), Fraction(1)),
    "zeros_like": lambda v: Fraction(0), "ones_like": lambda v: Fraction(1),
    "erf": lambda v: alg._fun("erf", alg.num(v), Fraction(-1), Fraction(1), math.erf),
}.items():
    if _f is not None:
        _ew(_n, _f, 1)


def _sign_bool(v):
    return v


OPS["absolute"] = OPS["abs"]


@op("add", "sub", "rsub")
def _add(m, func, args, kwargs):
    a, b = m.elems(args[0]), m.elems(args[1])
    alpha = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
    n = func._schema.name.split("::")[1].rstrip("_")
    if n == "rsub":
        a, b = b, a
    if isinstance(alpha, (int, float)) and alpha != 1:
        b = ufunc(alg.mul, 2)(b, _wrap(conc(alpha)))
    if n == "add":
        return ufunc(alg.add, 2)(a, b)
    return ufunc(alg.sub, 2)(a, b)


_ew("hypot", lambda a, b: alg.sqrt(alg.add(alg.mul(a, a), alg.mul(b, b))), 2)


@op("searchsorted", "bucketize")
def _searchsorted(m, func, args, kwargs):
    n = func._schema.name.split("::")[1]
    seq, val = (args[0], args[1]) if n == "searchsorted" else (args[1], args[0])
    right = kwargs.get("right", False) or kwargs.get("side") == "right"
    if len(args) > 3 or kwargs.get("sorter") is not None:
        raise EngineUnsupported(f"{n} options")
    S = m.elems(seq)
    V = _wrap(m.elems(val))
    out = obj(V.shape)
    for ix in np.ndindex(*V.shape):
        row = S if S.ndim == 1 else S[ix[:-1]]
        k = 0
        for s in row:
            before = alg.le(s, V[ix]) if right else alg.lt(s, V[ix])
            if not alg.ctx_bool(before):
                break
            k += 1
        out[ix] = Fraction(k)
    return out


@op("diagonal_copy")
def _diag_copy(m, func, args, kwargs):
    k = dict(zip(("offset", "dim1", "dim2"), args[1:]))
    k.update(kwargs)
    a = m.elems(args[0])
    return np.diagonal(a, k.get("offset", 0), k.get("dim1", 0), k.get("dim2", 1)).copy()


@op("round")
def _round(m, func, args, kwargs):
    d = int(kwargs.get("decimals", 0) or 0)
    s = Fraction(10) ** d
    return ufunc(lambda v: alg.mul(alg.rnd(alg.mul(v, s)), 1 / s), 1)(m.elems(args[0]))


@op("div", "true_divide", "divide")
def _div(m, func, args, kwargs):
    a, b = m.elems(args[0]), m.elems(args[1])
    rm = kwargs.get("rounding_mode", args[2] if len(args) > 2 else None)
    f = {None: alg.div, "floor": alg.floordiv, "trunc": alg.truncdiv}[rm]
    return ufunc(f, 2)(a, b)


@op("pow")
def _pow(m, func, args, kwargs):
    return ufunc(alg.power, 2)(m.elems(args[0]), m.elems(args[1]))


@op("addcmul", "addcdiv")
def _addc(m, func, args, kwargs):
    v = conc(kwargs.get("value", 1))
    f = alg.mul if "mul" in func._schema.name else alg.div
    p = ufunc(f, 2)(m.elems(args[1]), m.elems(args[2]))
    return ufunc(alg.add, 2)(m.elems(args[0]), ufunc(alg.mul, 2)(p, _wrap(v)))


@op("lerp")
def _lerp(m, func, args, kwargs):
    a, b, w = [m.elems(x) for x in args[:3]]
    return ufunc(lambda a, b, w: alg.add(a, alg.mul(w, alg.sub(b, a))), 3)(a, b, w)


@op("where")
def _where(m, func, args, kwargs):
    if len(args) == 1:
        raise EngineUnsupported("where(cond)")
    return ufunc(alg.where, 3)(*[m.elems(a) for a in args[:3]])


@op("masked_fill")
def _mfill(m, func, args, kwargs):
    return ufunc(lambda x, c, v: alg.where(c, v, x), 3)(*[m.elems(a) for a in args[:3]])


@op("clamp", "clip", "clamp_min", "clamp_max")
def _clamp(m, func, args, kwargs):
    n = func._schema.name.split("::")[1].rstrip("_")
    x = m.elems(args[0])
    lo = kwargs.get("min", args[1] if len(args) > 1 and n != "clamp_max" else None)
    hi = kwargs.get("max", args[2] if len(args) > 2 else (args[1] if n == "clamp_max" and len(args) > 1 else None))
    if n == "clamp_min":
        hi = None
    if n == "clamp_max":
        lo = None
    lo_a = m.elems(lo) if lo is not None else None
    hi_a = m.elems(hi) if hi is not None else None
    if lo_a is not None and hi_a is not None:
        return ufunc(alg.clamp, 3)(x, lo_a, hi_a)
    if lo_a is not None:
        return ufunc(lambda a, l: alg.clamp(a, l, None), 2)(x, lo_a)
    if hi_a is not None:
        return ufunc(lambda a, h: alg.clamp(a, None, h), 2)(x, hi_a)
    return x


@op("hardtanh")
def _hardtanh(m, func, args, kwargs):
    lo = args[1] if len(args) > 1 else -1
    hi = args[2] if len(args) > 2 else 1
    return ufunc(lambda a: alg.clamp(a, conc(lo), conc(hi)), 1)(m.elems(args[0]))


@op("leaky_relu")
def _lrelu(m, func, args, kwargs):
    s = conc(args[1] if len(args) > 1 else kwargs.get("negative_slope", 0.01))
    return ufunc(lambda v: v if alg.ctx_bool(alg.le(0, v)) else alg.mul(v, s), 1)(m.elems(args[0]))


@op("threshold_backward")
def _thrb(m, func, args, kwargs):
    t = conc(args[2])
    return ufunc(lambda g, s: alg.where(alg.le(s, t), Fraction(0), g), 2)(m.elems(args[0]), m.elems(args[1]))


@op("tanh_backward")
def _tanhb(m, func, args, kwargs):
    return ufunc(lambda g, o: alg.mul(g, alg.sub(Fraction(1), alg.mul(o, o))), 2)(m.elems(args[0]), m.elems(args[1]))


@op("sigmoid_backward")
def _sigb(m, func, args, kwargs):
    return ufunc(lambda g, o: alg.mul(g, alg.mul(o, alg.sub(Fraction(1), o))), 2)(m.elems(args[0]), m.elems(args[1]))


# -- copies / creation -----------------------------------------------------------
@op("clone", "_to_copy", "lift", "contiguous", "_unsafe_masked_index_dummy")
def _clone(m, func, args, kwargs):
    return m.elems(args[0])


@op("copy")
def _copy(m, func, args, kwargs):
    dst, src = args[0], args[1]
    return np.broadcast_to(m.elems(src), tuple(dst.shape)).copy()


@op("fill")
def _fill(m, func, args, kwargs):
    v = m.elems(args[1])
    return np.broadcast_to(v, tuple(args[0].shape)).copy()


@op("zero")
def _zero(m, func, args, kwargs):
    return obj(args[0].shape, Fraction(0))


@special("empty_like", "new_empty", "new_zeros", "new_ones", "new_full", "full_like",
         "rand_like_plain", "new_empty_strided", "sym_size", "is_same_size")
def _plainlike(m, func, args, kwargs):
    out = func(*args, **kwargs)
    n = func._schema.name.split("::")[1]
    if n == "full_like" and m.has(args[1] if len(args) > 1 else None):
        raise EngineUnsupported("full_like symbolic")
    m.keep.append(out)
    return out


@special("zeros_like", "ones_like")
def _like(m, func, args, kwargs):
    out = func(*args, **kwargs)
    m.keep.append(out)
    return out


@special("_local_scalar_dense", "item")
def _lsd(m, func, args, kwargs):
    t = args[0]
    v = m.elems(t).reshape(-1)[0]
    if isinstance(v, BoolE):
        return alg.CTX.branch(v)
    if t.dtype is torch.bool:
        return alg.ctx_bool(_asb(v))
    if not t.dtype.is_floating_point:
        if isinstance(v, Poly):
            return alg.CTX.concretize(v)
        return int(v)
    if isinstance(v, Poly):
        v = alg.CTX.resolve(v)
    if isinstance(v, Poly):
        raise EngineUnsupported("item() of a symbolic real")
    return float(v)


@special("is_nonzero")
def _isnz(m, func, args, kwargs):
    v = m.elems(args[0]).reshape(-1)[0]
    return alg.ctx_bool(_asb(v))


@special("equal")
def _equal(m, func, args, kwargs):
    a, b = args[:2]
    if a.shape != b.shape:
        return False
    for x, y in zip(m.elems(a).flat, m.elems(b).flat):
        if not alg.ctx_bool(_beq(x, y)):
            return False
    return True


@special("resize_", "set_", "storage_dummy")
def _unsup(m, func, args, kwargs):
    raise EngineUnsupported(str(func))


@op("cat", "concatenate")
def _cat(m, func, args, kwargs):
    d = kwargs.get("dim", args[1] if len(args) > 1 else 0)
    ts = [t for t in args[0] if not (t.dim() == 1 and t.numel() == 0)]
    return np.concatenate([m.elems(t) for t in ts], axis=d)


@op("stack")
def _stack(m, func, args, kwargs):
    d = kwargs.get("dim", args[1] if len(args) > 1 else 0)
    return np.stack([m.elems(t) for t in args[0]], axis=d)


@op("repeat")
def _repeat(m, func, args, kwargs):
    x = m.elems(args[0])
    r = tuple(args[1])
    x = x.reshape((1,) * (len(r) - x.ndim) + x.shape)
    return np.tile(x, r)


@op("repeat_interleave")
def _ri(m, func, args, kwargs):
    raise EngineUnsupported("repeat_interleave.Tensor")


@op("flip")
def _flip(m, func, args, kwargs):
    return np.flip(m.elems(args[0]), axis=tuple(args[1]))


@op("roll")
def _roll(m, func, args, kwargs):
    x = m.elems(args[0])
    dims = args[2] if len(args) > 2 else []
    if not dims:
        return np.roll(x.reshape(-1), args[1][0]).reshape(x.shape)
    return np.roll(x, tuple(args[1]), axis=tuple(dims))


@op("tril", "triu")
def _tri(m, func, args, kwargs):
    x = m.elems(args[0])
    k = args[1] if len(args) > 1 else 0
    low = "tril" in func._schema.name
    out = x.copy()
    for ix in np.ndindex(*x.shape):
        i, j = ix[-2], ix[-1]
        keep = (j - i <= k) if low else (j - i >= k)
        if not keep:
            out[ix] = Fraction(0)
    return out


@op("constant_pad_nd")
def _pad(m, func, args, kwargs):
    x = m.elems(args[0])
    pad = list(args[1])
    v = conc(args[2] if len(args) > 2 else 0)
    if isinstance(v, int):
        v = Fraction(v)
    shape = list(x.shape)
    src = [slice(None)] * x.ndim
    dst = [slice(None)] * x.ndim
    for i in range(len(pad) // 2):
        d = x.ndim - 1 - i
        lo, hi = pad[2 * i], pad[2 * i + 1]
        shape[d] += lo + hi
        src[d] = slice(max(0, -lo), x.shape[d] - max(0, -hi))
        dst[d] = slice(max(0, lo), shape[d] - max(0, hi))
    out = obj(shape, v)
    out[tuple(dst)] = x[tuple(src)]
    return out


# -- reductions -------------------------------------------------------------------
def sumv(vals):
    """Sum of elements with a single accumulation."""
    acc = {}
    const = Fraction(0)
    special = None
    other = None
    for v in vals:
        v = alg.num(v)
        if isinstance(v, Poly):
            for mm, c in v.t.items():
                s = acc.get(mm)
                acc[mm] = c if s is None else s + c
        elif isinstance(v, float) and not math.isfinite(v):
            special = v if special is None else special + v
        elif isinstance(v, (int, Fraction, float)):
            const += Fraction(v)
        else:
            other = v if other is None else other + v
    if other is not None:
        r = other
        if const != 0:
            r = r + const
        if acc:
            raise EngineUnsupported("mixed domains")
        return r
    if special is not None:
        return special
    if const != 0:
        acc[()] = acc.get((), 0) + const
    return alg.mk({k: c for k, c in acc.items() if c != 0})


def prodv(vals):
    r = Fraction(1)
    for v in vals:
        r = alg.mul(r, v)
    return r


def _dims(x, dim):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(x.ndim))
    if isinstance(dim, int):
        dim = [dim]
    return tuple(d % max(x.ndim, 1) for d in dim)


def reduce(x, dim, keep, f):
    dims = _dims(x, dim)
    if x.ndim == 0:
        return _wrap(f([x[()]]))
    rest = [d for d in range(x.ndim) if d not in dims]
    y = x.transpose(rest + list(dims)).reshape([x.shape[d] for d in rest] + [-1])
    out = obj([x.shape[d] for d in rest])
    for ix in np.ndindex(*out.shape):
        out[ix] = f(list(y[ix]))
    if keep:
        out = out.reshape([1 if d in dims else x.shape[d] for d in range(x.ndim)])
    return out


def _argn(args, kwargs, i, name, default):
    return kwargs.get(name, args[i] if len(args) > i else default)


@op("sum")
def _sum(m, func, args, kwargs):
    return reduce(m.elems(args[0]), _argn(args, kwargs, 1, "dim", None), _argn(args, kwargs, 2, "keepdim", False), sumv)


@op("mean")
def _mean(m, func, args, kwargs):
    def f(v):
        return alg.div(sumv(v), Fraction(len(v))) if v else float("nan")

    return reduce(m.elems(args[0]), _argn(args, kwargs, 1, "dim", None), _argn(args, kwargs, 2, "keepdim", False), f)


@op("prod")
def _prod(m, func, args, kwargs):
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    return reduce(m.elems(args[0]), d, _argn(args, kwargs, 2, "keepdim", False), prodv)


@op("var", "std", "var_mean")
def _var(m, func, args, kwargs):
    x = m.elems(args[0])
    n = func._schema.name.split("::")[1]
    dim = _argn(args, kwargs, 1, "dim", None)
    if "correction" in [a.name for a in func._schema.arguments]:
        corr = kwargs.get("correction", 1)
        corr = 1 if corr is None else corr
    else:
        corr = 1
    keep = kwargs.get("keepdim", False)

    def f(v):
        mu = alg.div(sumv(v), Fraction(len(v)))
        s = sumv([alg.mul(alg.sub(a, mu), alg.sub(a, mu)) for a in v])
        r = alg.div(s, Fraction(len(v) - corr))
        return alg.sqrt(r) if n == "std" else r

    r = reduce(x, dim, keep, f)
    if n == "var_mean":
        return (r, reduce(x, dim, keep, lambda v: alg.div(sumv(v), Fraction(len(v)))))
    return r


def maxv(v):
    r = v[0]
    for a in v[1:]:
        r = alg.maximum(r, a)
    return r


def minv(v):
    r = v[0]
    for a in v[1:]:
        r = alg.minimum(r, a)
    return r


@op("amax", "amin")
def _amax(m, func, args, kwargs):
    f = maxv if "amax" in func._schema.name else minv
    return reduce(m.elems(args[0]), _argn(args, kwargs, 1, "dim", None), _argn(args, kwargs, 2, "keepdim", False), f)


def argmaxv(v):
    k = 0
    for i in range(1, len(v)):
        if alg.ctx_bool(alg.lt(v[k], v[i])):
            k = i
    return k


def argminv(v):
    k = 0
    for i in range(1, len(v)):
        if alg.ctx_bool(alg.lt(v[i], v[k])):
            k = i
    return k


@op("max", "min")
def _max(m, func, args, kwargs):
    ismax = "max" in func._schema.name
    x = m.elems(args[0])
    if len(args) > 1 and isinstance(args[1], torch.Tensor):
        return ufunc(alg.maximum if ismax else alg.minimum, 2)(x, m.elems(args[1]))
    dim = _argn(args, kwargs, 1, "dim", None)
    if dim is None:
        return reduce(x, None, False, maxv if ismax else minv)
    keep = _argn(args, kwargs, 2, "keepdim", False)
    am = argmaxv if ismax else argminv
    idx = reduce(x, dim, keep, am)
    val = reduce(x, dim, keep, lambda v: v[am(v)])
    return (val, idx)


@op("argmax", "argmin")
def _argmax(m, func, args, kwargs):
    f = argmaxv if "argmax" in func._schema.name else argminv
    d = _argn(args, kwargs, 1, "dim", None)
    return reduce(m.elems(args[0]), d, _argn(args, kwargs, 2, "keepdim", False), f)


@op("any")
def _any(m, func, args, kwargs):
    d = _argn(args, kwargs, 1, "dim", None)
    return reduce(m.elems(args[0]), d, _argn(args, kwargs, 2, "keepdim", False), lambda v: alg.disj([_asb(a) for a in v]))


@op("all")
def _all(m, func, args, kwargs):
    d = _argn(args, kwargs, 1, "dim", None)
    return reduce(m.elems(args[0]), d, _argn(args, kwargs, 2, "keepdim", False), lambda v: alg.conj([_asb(a) for a in v]))


@op("cumsum", "cumprod")
def _cumsum(m, func, args, kwargs):
    x = m.elems(args[0])
    d = args[1]
    y = np.moveaxis(x, d, -1).copy() if x.ndim else x
    f = alg.add if "cumsum" in func._schema.name else alg.mul
    for ix in np.ndindex(*y.shape[:-1]):
        acc = None
        for k in range(y.shape[-1]):
            acc = y[ix + (k,)] if acc is None else f(acc, y[ix + (k,)])
            y[ix + (k,)] = acc
    return np.moveaxis(y, -1, d) if x.ndim else y


def normv(v, p):
    if p == float("inf"):
        return maxv([alg.absv(a) for a in v])
    if p == float("-inf"):
        return minv([alg.absv(a) for a in v])
    if p == 0:
        return sumv([1 if not alg.ctx_bool(alg.eq(a, 0)) else 0 for a in v])
    if p == 1:
        return sumv([alg.absv(a) for a in v])
    if p == 2:
        return alg.sqrt(sumv([alg.mul(a, a) for a in v]))
    raise EngineUnsupported(f"{p}-norm")


@op("linalg_vector_norm", "norm")
def _norm(m, func, args, kwargs):
    x = m.elems(args[0])
    p = _argn(args, kwargs, 1, "ord" if "linalg" in func._schema.name else "p", 2)
    p = 2 if p is None else p
    d = _argn(args, kwargs, 2, "dim", None)
    k = _argn(args, kwargs, 3, "keepdim", False)
    return reduce(x, d, k, lambda v: normv(v, p))


def softmaxv(v):
    """Exponentials normalised by their sum.  A masked (-inf) entry is 0."""
    if all(isinstance(a, float) and a == -math.inf for a in v):
        return [float("nan")] * len(v)
    e = [alg.exp(a) for a in v]
    s = sumv(e)
    return [alg.div(a, s) for a in e]


def along(x, d, f):
    if x.ndim == 0:
        return _wrap(f([x[()]])[0])
    y = np.moveaxis(x, d, -1)
    out = obj(y.shape)
    for ix in np.ndindex(*y.shape[:-1]):
        r = f(list(y[ix]))
        for k, v in enumerate(r):
            out[ix + (k,)] = v
    return np.moveaxis(out, -1, d)


@op("_softmax", "softmax", "_safe_softmax")
def _softmax(m, func, args, kwargs):
    return along(m.elems(args[0]), args[1], softmaxv)


@op("_log_softmax", "log_softmax")
def _lsoftmax(m, func, args, kwargs):
    def f(v):
        s = alg.log(sumv([alg.exp(a) for a in v]))
        return [alg.sub(a, s) for a in v]

    return along(m.elems(args[0]), args[1], f)


@op("logsumexp")
def _lse(m, func, args, kwargs):
    return reduce(m.elems(args[0]), args[1], _argn(args, kwargs, 2, "keepdim", False),
                  lambda v: alg.log(sumv([alg.exp(a) for a in v])))


# -- linear algebra -----------------------------------------------------------------
def dotv(a, b):
    return sumv([alg.mul(x, y) for x, y in zip(a, b) if not (_iszero(x) or _iszero(y))])


def _iszero(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool) and v == 0


def matmul(a, b):
    n, k = a.shape
    k2, p = b.shape
    out = obj((n, p))
    for i in range(n):
        for j in range(p):
            out[i, j] = dotv(a[i], b[:, j])
    return out


def bmatmul(a, b):
    out = obj((a.shape[0], a.shape[1], b.shape[2]))
    for i in range(a.shape[0]):
        out[i] = matmul(a[i], b[i])
    return out


@op("mm")
def _mm(m, func, args, kwargs):
    return matmul(m.elems(args[0]), m.elems(args[1]))


@op("bmm")
def _bmm(m, func, args, kwargs):
    return bmatmul(m.elems(args[0]), m.elems(args[1]))


@op("mv")
def _mv(m, func, args, kwargs):
    return matmul(m.elems(args[0]), m.elems(args[1]).reshape(-1, 1)).reshape(-1)


@op("dot", "vdot")
def _dot(m, func, args, kwargs):
    return _wrap(dotv(m.elems(args[0]), m.elems(args[1])))


@op("addmm", "baddbmm", "addmv")
def _addmm(m, func, args, kwargs):
    n = func._schema.name.split("::")[1].rstrip("_")
    beta, alpha = conc(kwargs.get("beta", 1)), conc(kwargs.get("alpha", 1))
    a, b = m.elems(args[1]), m.elems(args[2])
    if n == "addmm":
        p = matmul(a, b)
    elif n == "baddbmm":
        p = bmatmul(a, b)
    else:
        p = matmul(a, b.reshape(-1, 1)).reshape(-1)
    c = m.elems(args[0])
    if alpha != 1:
        p = ufunc(alg.mul, 2)(p, _wrap(alpha))
    if beta == 0:
        return p
    if beta != 1:
        c = ufunc(alg.mul, 2)(c, _wrap(beta))
    return ufunc(alg.add, 2)(c, p)


@op("linear")
def _linear(m, func, args, kwargs):
    x, w = m.elems(args[0]), m.elems(args[1])
    y = matmul(x.reshape(-1, x.shape[-1]), w.T).reshape(x.shape[:-1] + (w.shape[0],))
    b = args[2] if len(args) > 2 else None
    if b is not None:
        y = ufunc(alg.add, 2)(y, m.elems(b))
    return y


# -- indexing ---------------------------------------------------------------------------
def _np_index(m, idx, shape):
    """Decided numpy index tuple for aten.index semantics."""
    out = []
    for i in idx:
        if i is None:
            out.append(slice(None))
        elif i.dtype in (torch.bool, torch.uint8):
            b = m.bools(i)
            out.extend(np.nonzero(b))
        else:
            out.append(m.ints(i))
    return out


def _advanced(x, idx):
    """numpy advanced indexing with torch's placement rule (same as numpy's)."""
    return x[tuple(idx)]


@special("index", "_unsafe_index")
def _index(m, func, args, kwargs):
    idx = [m.decided(i) for i in args[1]]
    src = args[0]
    out = func(src, idx)
    m.keep.append(out)
    if m.has(src):
        arr = _wrap(m.elems(src)[tuple(_np_index(m, idx, src.shape))])
        m.make(out, arr)
    return out


def _do_index_put(m, dst_arr, idx, vals, acc):
    ni = tuple(_np_index(m, idx, dst_arr.shape))
    # positions array to honour duplicates and broadcasting
    pos = np.arange(dst_arr.size).reshape(dst_arr.shape)[ni]
    vals = np.broadcast_to(vals, pos.shape)
    flat = dst_arr.reshape(-1)
    for p, v in zip(pos.flat, vals.flat):
        flat[p] = alg.add(flat[p], v) if acc else v
    return flat.reshape(dst_arr.shape)


@special("index_put", "index_put_", "_unsafe_index_put", "_index_put_impl_")
def _index_put(m, func, args, kwargs):
    idx = [m.decided(i) for i in args[1]]
    acc = _argn(args, kwargs, 3, "accumulate", False)
    dst, vals = args[0], args[2]
    arr = _do_index_put(m, m.elems(dst).copy(), idx, m.elems(vals), acc)
    a = (dst, idx, vals) + tuple(args[3:])
    out = func(*a, **kwargs)
    inplace = func._schema.name.split("::")[1].endswith("_")
    t = dst if inplace else out
    if m.has(dst) or m.has(vals):
        arr = m.cast(arr, t.dtype)
        m.put(t, arr)
    m.keep.append(out)
    return out


@special("index_select")
def _index_select(m, func, args, kwargs):
    idx = m.decided(args[2])
    out = func(args[0], args[1], idx)
    m.keep.append(out)
    if m.has(args[0]):
        x = m.elems(args[0])
        if x.ndim == 0:
            x = x.reshape(1)
        m.make(out, np.take(x, m.ints(idx).reshape(-1), axis=args[1]).reshape(tuple(out.shape)))
    return out


@special("embedding")
def _embedding(m, func, args, kwargs):
    idx = m.decided(args[1])
    out = func(args[0], idx, *args[2:], **kwargs)
    m.keep.append(out)
    if m.has(args[0]):
        m.make(out, m.elems(args[0])[m.ints(idx)])
    return out


@special("gather")
def _gather(m, func, args, kwargs):
    idx = m.decided(args[2])
    out = func(args[0], args[1], idx, **kwargs)
    m.keep.append(out)
    if m.has(args[0]):
        m.make(out, np.take_along_axis(m.elems(args[0]), m.ints(idx), axis=args[1]))
    return out


@special("scatter", "scatter_", "scatter_add", "scatter_add_")
def _scatter(m, func, args, kwargs):
    if kwargs.get("reduce"):
        raise EngineUnsupported("scatter reduce")
    idx = m.decided(args[2])
    n = func._schema.name.split("::")[1]
    add = "add" in n
    dst = args[0]
    arr = m.elems(dst).copy()
    ii = m.ints(idx)
    src = m.elems(args[3])
    d = args[1] % max(arr.ndim, 1)
    for ix in np.ndindex(*ii.shape):
        t = list(ix)
        t[d] = ii[ix]
        v = src[ix] if src.ndim else src[()]
        t = tuple(t)
        arr[t] = alg.add(arr[t], v) if add else v
    out = func(dst, args[1], idx, *args[3:], **kwargs)
    m.keep.append(out)
    t = dst if n.endswith("_") else out
    m.put(t, m.cast(arr, t.dtype))
    return out


@special("index_add", "index_add_", "index_fill", "index_fill_", "index_copy", "index_copy_")
def _index_add(m, func, args, kwargs):
    n = func._schema.name.split("::")[1]
    idx = m.decided(args[2])
    dst = args[0]
    arr = np.moveaxis(m.elems(dst).copy(), args[1], 0)
    src = m.elems(args[3])
    ii = m.ints(idx).reshape(-1)
    s = np.moveaxis(src, args[1], 0) if src.ndim else None
    for k, i in enumerate(ii):
        v = s[k] if s is not None else src
        arr[i] = ufunc(alg.add, 2)(arr[i], v) if "add" in n else v
    arr = np.moveaxis(arr, 0, args[1])
    out = func(dst, args[1], idx, *args[3:], **kwargs)
    m.keep.append(out)
    t = dst if n.endswith("_") else out
    m.put(t, m.cast(arr, t.dtype))
    return out


@special("masked_select")
def _msel(m, func, args, kwargs):
    mask = m.decided(args[1])
    out = func(args[0], mask)
    m.keep.append(out)
    if m.has(args[0]):
        x, b = np.broadcast_arrays(m.elems(args[0]), m.bools(mask))
        m.make(out, x[b])
    return out


@special("masked_scatter", "masked_scatter_")
def _mscat(m, func, args, kwargs):
    mask = m.decided(args[1])
    n = func._schema.name.split("::")[1]
    arr = m.elems(args[0]).copy()
    b = np.broadcast_to(m.bools(mask), arr.shape)
    src = m.elems(args[2]).reshape(-1)
    arr[b] = src[: int(b.sum())]
    out = func(args[0], mask, args[2])
    t = args[0] if n.endswith("_") else out
    m.put(t, arr)
    m.keep.append(out)
    return out


@special("nonzero")
def _nonzero(m, func, args, kwargs):
    out = func(m.decided_nz(args[0]))
    m.keep.append(out)
    return out


def _decided_nz(self, t):
    return torch.tensor(self.bools(t).tolist(), dtype=torch.bool).reshape(t.shape)


Shadow.decided_nz = _decided_nz


@special("count_nonzero")
def _cnz(m, func, args, kwargs):
    out = func(m.decided_nz(args[0]), *args[1:], **kwargs)
    m.keep.append(out)
    return out


@special("slice_scatter", "select_scatter", "as_strided_scatter", "diagonal_scatter")
def _scatterview(m, func, args, kwargs):
    raise EngineUnsupported(str(func))


@op("slice_backward")
def _sliceb(m, func, args, kwargs):
    g, sizes, dim, start, end, step = args
    out = obj(sizes, Fraction(0))
    ix = [slice(None)] * len(sizes)
    ix[dim] = slice(start, end, step) if start >= 0 or True else None
    out[tuple(ix)] = m.elems(g)
    return out


@op("select_backward")
def _selb(m, func, args, kwargs):
    g, sizes, dim, i = args
    out = obj(sizes, Fraction(0))
    ix = [slice(None)] * len(sizes)
    ix[dim] = i
    out[tuple(ix)] = m.elems(g)
    return out


@op("sort", "topk", "argsort")
def _sort(m, func, args, kwargs):
    n = func._schema.name.split("::")[1]
    x = m.elems(args[0])
    names = [a.name for a in func._schema.arguments]
    vals = dict(zip(names, args))
    vals.update(kwargs)
    dim = vals.get("dim", -1)
    desc = vals.get("descending", False) or (n == "topk" and vals.get("largest", True))
    k = vals.get("k")

    def order(v):
        idx = []
        for i in range(len(v)):
            j = len(idx)
            while j > 0 and alg.ctx_bool(
                alg.lt(v[idx[j - 1]], v[i]) if desc else alg.lt(v[i], v[idx[j - 1]])
            ):
                j -= 1
            idx.insert(j, i)
        return idx

    oi = along(x, dim, order)
    ov = along(x, dim, lambda v: [v[i] for i in order(v)])
    if k is not None:
        sl = [slice(None)] * x.ndim
        sl[dim] = slice(0, k)
        oi, ov = oi[tuple(sl)], ov[tuple(sl)]
    if n == "argsort":
        return oi
    return (ov, oi)


# -- convolution / pooling ------------------------------------------------------------------
def conv_nd(x, w, b, stride, pad, dil, groups):
    nd = x.ndim - 2
    N, C = x.shape[:2]
    O, Cg = w.shape[:2]
    ks = w.shape[2:]
    os_ = [
        (x.shape[2 + i] + 2 * pad[i] - dil[i] * (ks[i] - 1) - 1) // stride[i] + 1
        for i in range(nd)
    ]
    out = obj([N, O] + os_)
    og = O // groups
    for n in range(N):
        for o in range(O):
            g = o // og
            for pos in np.ndindex(*os_):
                terms = []
                for kk in np.ndindex(*ks):
                    p = [pos[i] * stride[i] - pad[i] + kk[i] * dil[i] for i in range(nd)]
                    if any(q < 0 or q >= x.shape[2 + i] for i, q in enumerate(p)):
                        continue
                    for c in range(Cg):
                        xv = x[(n, g * Cg + c) + tuple(p)]
                        wv = w[(o, c) + kk]
                        if _iszero(xv) or _iszero(wv):
                            continue
                        terms.append(alg.mul(xv, wv))
                if b is not None:
                    terms.append(b[o])
                out[(n, o) + pos] = sumv(terms)
    return out


def conv_transpose_nd(x, w, b, stride, pad, dil, outpad, groups):
    nd = x.ndim - 2
    N, C = x.shape[:2]
    Og = w.shape[1]
    ks = w.shape[2:]
    os_ = [
        (x.shape[2 + i] - 1) * stride[i] - 2 * pad[i] + dil[i] * (ks[i] - 1) + outpad[i] + 1
        for i in range(nd)
    ]
    O = Og * groups
    acc = obj([N, O] + os_)
    for ix in np.ndindex(*acc.shape):
        acc[ix] = []
    cg = C // groups
    for n in range(N):
        for c in range(C):
            g = c // cg
            for pos in np.ndindex(*x.shape[2:]):
                xv = x[(n, c) + pos]
                if _iszero(xv):
                    continue
                for kk in np.ndindex(*ks):
                    p = [pos[i] * stride[i] - pad[i] + kk[i] * dil[i] for i in range(nd)]
                    if any(q < 0 or q >= os_[i] for i, q in enumerate(p)):
                        continue
                    for o in range(Og):
                        wv = w[(c, o) + kk]
                        if not _iszero(wv):
                            acc[(n, g * Og + o) + tuple(p)].append(alg.mul(xv, wv))
    for ix in np.ndindex(*acc.shape):
        t = acc[ix]
        if b is not None:
            t.append(b[ix[1]])
        acc[ix] = sumv(t)
    return acc


@op("convolution", "_convolution")
def _conv(m, func, args, kwargs):
    x, w = m.elems(args[0]), m.elems(args[1])
    b = m.elems(args[2]) if args[2] is not None else None
    stride, pad, dil, transposed, outpad, groups = args[3:9]
    nd = x.ndim - 2

    def ex(v):
        v = list(v)
        return v * nd if len(v) == 1 else v

    stride, pad, dil, outpad = map(ex, (stride, pad, dil, outpad))
    if transposed:
        return conv_transpose_nd(x, w, b, stride, pad, dil, outpad, groups)
    return conv_nd(x, w, b, stride, pad, dil, groups)


@op("convolution_backward")
def _convb(m, func, args, kwargs):
    g, x, w = m.elems(args[0]), m.elems(args[1]), m.elems(args[2])
    bias_sizes, stride, pad, dil, transposed, outpad, groups, mask = args[3:11]
    nd = x.ndim - 2

    def ex(v):
        v = list(v)
        return v * nd if len(v) == 1 else v

    stride, pad, dil, outpad = map(ex, (stride, pad, dil, outpad))
    N, C = x.shape[:2]
    if transposed:
        Og, ks = w.shape[1], w.shape[2:]
        cg = C // groups
        gx, gw = {}, {}
        for n in range(N):
            for c in range(C):
                gr = c // cg
                for pos in np.ndindex(*x.shape[2:]):
                    for kk in np.ndindex(*ks):
                        p = tuple(pos[i] * stride[i] - pad[i] + kk[i] * dil[i] for i in range(nd))
                        if any(q < 0 or q >= g.shape[2 + i] for i, q in enumerate(p)):
                            continue
                        for o in range(Og):
                            gv = g[(n, gr * Og + o) + p]
                            if _iszero(gv):
                                continue
                            if mask[0]:
                                gx.setdefault((n, c) + pos, []).append(alg.mul(gv, w[(c, o) + kk]))
                            if mask[1]:
                                gw.setdefault((c, o) + kk, []).append(alg.mul(gv, x[(n, c) + pos]))
        return _convb_out(g, x, w, gx, gw, mask)
    O, Cg = w.shape[:2]
    og = O // groups
    ks = w.shape[2:]
    gx, gw = {}, {}
    for n in range(N):
        for o in range(O):
            gr = o // og
            for pos in np.ndindex(*g.shape[2:]):
                gv = g[(n, o) + pos]
                if _iszero(gv):
                    continue
                for kk in np.ndindex(*ks):
                    p = tuple(pos[i] * stride[i] - pad[i] + kk[i] * dil[i] for i in range(nd))
                    if any(q < 0 or q >= x.shape[2 + i] for i, q in enumerate(p)):
                        continue
                    for c in range(Cg):
                        ci = gr * Cg + c
                        if mask[0]:
                            gx.setdefault((n, ci) + p, []).append(alg.mul(gv, w[(o, c) + kk]))
                        if mask[1]:
                            gw.setdefault((o, c) + kk, []).append(alg.mul(gv, x[(n, ci) + p]))

    return _convb_out(g, x, w, gx, gw, mask)


def _convb_out(g, x, w, gx, gw, mask):
    def build(shape, d):
        a = obj(shape)
        for ix in np.ndindex(*shape):
            a[ix] = sumv(d.get(ix, []))
        return a

    return (
        build(x.shape, gx) if mask[0] else None,
        build(w.shape, gw) if mask[1] else None,
        reduce(np.moveaxis(g, 1, 0), list(range(1, g.ndim)), False, sumv) if mask[2] else None,
    )


def _pool_windows(x, ks, stride, pad, dil, ceil):
    nd = len(ks)
    sp = x.shape[-nd:]
    os_ = []
    for i in range(nd):
        num = sp[i] + 2 * pad[i] - dil[i] * (ks[i] - 1) - 1
        o = (-(-num // stride[i]) if ceil else num // stride[i]) + 1
        if ceil and (o - 1) * stride[i] >= sp[i] + pad[i]:
            o -= 1
        os_.append(o)
    return sp, os_


def _exn(v, nd):
    if isinstance(v, int):
        return [v] * nd
    v = list(v)
    return v * nd if len(v) == 1 else v


@op("max_pool2d_with_indices", "max_pool1d_with_indices", "max_pool3d_with_indices")
def _maxpool(m, func, args, kwargs):
    nd = int(func._schema.name.split("pool")[1][0])
    x = m.elems(args[0])
    ks = _exn(args[1], nd)
    st = _argn(args, kwargs, 2, "stride", [])
    stride = _exn(st, nd) if st else ks
    pad = _exn(_argn(args, kwargs, 3, "padding", 0), nd)
    dil = _exn(_argn(args, kwargs, 4, "dilation", 1), nd)
    ceil = _argn(args, kwargs, 5, "ceil_mode", False)
    sp, os_ = _pool_windows(x, ks, stride, pad, dil, ceil)
    lead = x.shape[:-nd]
    out, oi = obj(lead + tuple(os_)), obj(lead + tuple(os_))
    for l in np.ndindex(*lead):
        for pos in np.ndindex(*os_):
            best = bi = None
            for kk in np.ndindex(*ks):
                p = tuple(pos[i] * stride[i] - pad[i] + kk[i] * dil[i] for i in range(nd))
                if any(q < 0 or q >= sp[i] for i, q in enumerate(p)):
                    continue
                v = x[l + p]
                if best is None or alg.ctx_bool(alg.lt(best, v)):
                    best, bi = v, int(np.ravel_multi_index(p, sp))
            out[l + pos], oi[l + pos] = best, bi
    return (out, oi)


@op("avg_pool2d", "avg_pool1d", "avg_pool3d")
def _avgpool(m, func, args, kwargs):
    nd = int(func._schema.name.split("pool")[1][0])
    x = m.elems(args[0])
    ks = _exn(args[1], nd)
    st = _argn(args, kwargs, 2, "stride", [])
    stride = _exn(st, nd) if st else ks
    pad = _exn(_argn(args, kwargs, 3, "padding", 0), nd)
    ceil = _argn(args, kwargs, 4, "ceil_mode", False)
    incl = _argn(args, kwargs, 5, "count_include_pad", True)
    divo = _argn(args, kwargs, 6, "divisor_override", None)
    if ceil:
        raise EngineUnsupported("avg_pool ceil_mode")
    sp, os_ = _pool_windows(x, ks, stride, pad, [1] * nd, ceil)
    lead = x.shape[:-nd]
    out = obj(lead + tuple(os_))
    for l in np.ndindex(*lead):
        for pos in np.ndindex(*os_):
            t = []
            for kk in np.ndindex(*ks):
                p = tuple(pos[i] * stride[i] - pad[i] + kk[i] for i in range(nd))
                if any(q < 0 or q >= sp[i] for i, q in enumerate(p)):
                    continue
                t.append(x[l + p])
            d = divo or (math.prod(ks) if incl else len(t))
            out[l + pos] = alg.div(sumv(t), Fraction(d))
    return out


@op("_adaptive_avg_pool2d", "adaptive_avg_pool2d", "adaptive_avg_pool1d", "_adaptive_avg_pool3d")
def _aap(m, func, args, kwargs):
    x = m.elems(args[0])
    osz = list(args[1])
    nd = len(osz)
    sp = x.shape[-nd:]
    lead = x.shape[:-nd]
    out = obj(lead + tuple(osz))
    for l in np.ndindex(*lead):
        for pos in np.ndindex(*osz):
            rs = [range((pos[i] * sp[i]) // osz[i], -(-((pos[i] + 1) * sp[i]) // osz[i])) for i in range(nd)]
            t = [x[l + p] for p in itertools.product(*rs)]
            out[l + pos] = alg.div(sumv(t), Fraction(len(t)))
    return out


# -- normalisation layers --------------------------------------------------------------------
@op("native_layer_norm")
def _ln(m, func, args, kwargs):
    x = m.elems(args[0])
    shape, w, b, eps = args[1:5]
    k = len(shape)
    lead = x.shape[: x.ndim - k]
    y = x.reshape(lead + (-1,))
    out = obj(y.shape)
    mu_o, rs_o = obj(lead), obj(lead)
    w = m.elems(w).reshape(-1) if w is not None else None
    b = m.elems(b).reshape(-1) if b is not None else None
    for ix in np.ndindex(*lead):
        v = list(y[ix])
        mu = alg.div(sumv(v), Fraction(len(v)))
        c = [alg.sub(a, mu) for a in v]
        var = alg.div(sumv([alg.mul(a, a) for a in c]), Fraction(len(v)))
        r = alg.rsqrt(alg.add(var, conc(float(eps))))
        mu_o[ix], rs_o[ix] = mu, r
        for j, a in enumerate(c):
            o = alg.mul(a, r)
            if w is not None:
                o = alg.mul(o, w[j])
            if b is not None:
                o = alg.add(o, b[j])
            out[ix + (j,)] = o
    one = lead + (1,) * k
    return (out.reshape(x.shape), mu_o.reshape(one), rs_o.reshape(one))


@special("native_batch_norm", "_native_batch_norm_legit", "cudnn_batch_norm", "_batch_norm_with_update", "_native_batch_norm_legit_no_training")
def _bn(m, func, args, kwargs):
    names = [a.name for a in func._schema.arguments]
    kv = dict(zip(names, args))
    kv.update(kwargs)
    x = m.elems(kv["input"])
    training = kv.get("training", False if "no_training" in func._schema.name else True)
    eps = conc(float(kv["eps"]))
    mom = conc(float(kv["momentum"]))
    C = x.shape[1]
    w = m.elems(kv["weight"]) if kv.get("weight") is not None else None
    b = m.elems(kv["bias"]) if kv.get("bias") is not None else None
    rm, rv = kv.get("running_mean"), kv.get("running_var")
    out = obj(x.shape)
    sm, si = [], []
    new_m, new_v = [], []
    for c in range(C):
        v = list(x[:, c].reshape(-1))
        if training:
            mu = alg.div(sumv(v), Fraction(len(v)))
            var = alg.div(sumv([alg.mul(alg.sub(a, mu), alg.sub(a, mu)) for a in v]), Fraction(len(v)))
            if rm is not None:
                new_m.append(alg.add(alg.mul(m.elems(rm)[c], 1 - mom), alg.mul(mu, mom)))
                if len(v) > 1:
                    uv = alg.mul(var, Fraction(len(v), len(v) - 1))
                else:
                    uv = float("nan")
                new_v.append(alg.add(alg.mul(m.elems(rv)[c], 1 - mom), alg.mul(uv, mom)))
        else:
            mu, var = m.elems(rm)[c], m.elems(rv)[c]
        r = alg.rsqrt(alg.add(var, eps))
        sm.append(mu)
        si.append(r)
        f = r if w is None else alg.mul(r, w[c])
        y = ufunc(lambda a: alg.add(alg.mul(alg.sub(a, mu), f), b[c] if b is not None else Fraction(0)), 1)(x[:, c])
        out[:, c] = y
    outs = func(*args, **kwargs)
    m.make(outs[0], out)
    for o, vals in zip(outs[1:3], (sm, si)):
        if o.numel() == C:
            a = obj((C,))
            a[:] = vals
            m.make(o, a)
    for o in outs:
        m.keep.append(o)
    if training and rm is not None:
        for t, vals in ((rm, new_m), (rv, new_v)):
            a = obj((C,))
            a[:] = vals
            m.put(t, a)
    return outs


# -- losses ------------------------------------------------------------------------------------
@op("mse_loss")
def _mse(m, func, args, kwargs):
    red = _argn(args, kwargs, 2, "reduction", 1)
    d = ufunc(lambda a, b: alg.mul(alg.sub(a, b), alg.sub(a, b)), 2)(m.elems(args[0]), m.elems(args[1]))
    if red == 0:
        return d
    s = sumv(list(d.flat))
    return _wrap(s if red == 2 else alg.div(s, Fraction(d.size)))


@special("nll_loss_forward", "nll_loss2d_forward")
def _nll(m, func, args, kwargs):
    x = m.elems(args[0])
    tgt = m.decided(args[1])
    w = m.elems(args[2]) if args[2] is not None else None
    red, ign = args[3], args[4]
    outs = func(args[0], tgt, *args[2:], **kwargs)
    t = m.ints(tgt)
    if x.ndim == 1:
        x2, t2 = x.reshape(1, -1), t.reshape(1)
    else:
        x2 = np.moveaxis(x, 1, -1).reshape(-1, x.shape[1])
        t2 = t.reshape(-1)
    losses, ws = [], []
    for i, k in enumerate(t2):
        if k == ign:
            losses.append(Fraction(0))
            continue
        wk = w[k] if w is not None else Fraction(1)
        losses.append(alg.neg(alg.mul(x2[i, k], wk)))
        ws.append(wk)
    if red == 0:
        a = obj((len(losses),))
        a[:] = losses
        r = a.reshape(tuple(outs[0].shape))
    else:
        s = sumv(losses)
        r = _wrap(s if red == 2 else alg.div(s, sumv(ws)))
    m.make(outs[0], r)
    m.make(outs[1], _wrap(sumv(ws)) if red != 0 else _wrap(Fraction(0)))
    return outs


@special("_foreach_dummy")
def _fd(m, func, args, kwargs):
    raise EngineUnsupported("foreach")


@op("diagonal_copy", "expand_copy", "view_copy")
def _vc(m, func, args, kwargs):
    raise EngineUnsupported(str(func))


# -- randomness --------------------------------------------------------------------------------
@random_op("rand", "rand_like")
def _rand(m, func, args, kwargs):
    out = func(*args, **kwargs)
    return m._fresh(out, "rand", Fraction(0), Fraction(1))


@random_op("uniform_")
def _uniform(m, func, args, kwargs):
    lo = _argn(args, kwargs, 1, "from", 0.0)
    hi = _argn(args, kwargs, 2, "to", 1.0)
    t = args[0]
    return m._fresh(t, "uni", Fraction(lo), Fraction(hi))


@random_op("normal_", "randn", "randn_like", "normal")
def _normal(m, func, args, kwargs):
    n = func._schema.name.split("::")[1]
    mean, std = 0.0, 1.0
    if n == "normal_":
        mean = _argn(args, kwargs, 1, "mean", 0.0)
        std = _argn(args, kwargs, 2, "std", 1.0)
        out = args[0]
    elif n == "normal":
        out = func(*args, **kwargs)
        m._fresh(out, "gauss", Fraction(-4), Fraction(4))
        mean, std = (m.elems(a) if isinstance(a, torch.Tensor) else _wrap(conc(float(a)))
                     for a in (_argn(args, kwargs, 0, "mean", 0.0), _argn(args, kwargs, 1, "std", 1.0)))
        shape = tuple(out.shape)
        mean, std, g = np.broadcast_to(mean, shape), np.broadcast_to(std, shape), m.elems(out)
        arr = ufunc(lambda a, b, c: alg.add(a, alg.mul(b, c)), 3)(mean, std, g)
        m.put(out, arr)
        with torch.no_grad(), _NoModes():
            out.detach().mul_(_argn(args, kwargs, 1, "std", 1.0)).add_(_argn(args, kwargs, 0, "mean", 0.0))
        return out
    else:
        out = func(*args, **kwargs)
    m._fresh(out, "gauss", Fraction(-4), Fraction(4))
    if (mean, std) != (0.0, 1.0):
        arr = m.elems(out)
        m.put(out, ufunc(lambda v: alg.add(alg.mul(v, conc(float(std))), conc(float(mean))), 1)(arr))
        with torch.no_grad():
            out.detach().mul_(std).add_(mean)
    return out


# -- function-level interception -------------------------------------------------------------------
class Funcs(TorchFunctionMode):
    """Operations that leave the dispatcher: item() of a symbolic real stays a
    0-d tensor; torch.tensor() of such values stacks them; printing is skipped."""

    def __init__(self, m):
        super().__init__()
        self.m = m

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if func in (torch.Tensor.item,):
            t = args[0]
            if self.m.has(t) and t.dtype.is_floating_point:
                v = self.m.elems(t).reshape(-1)
                if v.size == 1 and isinstance(alg.CTX.resolve(v[0]), Poly):
                    return t.detach().reshape(())
        elif func in (torch.Tensor.tolist,):
            t = args[0]
            if self.m.has(t):
                return self._tolist(t)
        elif func in (torch.Tensor.__repr__, torch.Tensor.__format__, torch.Tensor.__str__):
            with _NoModes():
                return func(*args, **kwargs)
        elif func is torch.Tensor.numpy or func is torch.Tensor.__array__:
            if self.m.has(args[0]):
                raise EngineUnsupported("numpy() of a symbolic tensor")
        elif func in (torch.tensor, torch.as_tensor) and args:
            data = args[0]
            if _has_sym(data, self.m):
                if isinstance(data, torch.Tensor):
                    out = data.detach().clone()
                else:
                    out = _build(data)
                if kwargs.get("dtype") is not None:
                    out = out.to(kwargs["dtype"])
                return out
        return func(*args, **kwargs)

    def _tolist(self, t):
        if t.dim() == 0:
            if t.dtype.is_floating_point:
                return t.item()
            return t.item()
        return [self._tolist(r) for r in t.unbind(0)]


def _has_sym(data, m):
    if isinstance(data, torch.Tensor):
        return m.has(data)
    if isinstance(data, (list, tuple)):
        return any(_has_sym(d, m) for d in data)
    return False


def _build(data):
    if isinstance(data, torch.Tensor):
        return data.detach()
    if isinstance(data, (list, tuple)):
        return torch.stack([_build(d) for d in data])
    return torch.tensor(data)


class Patches:
    """Environment of a run: silent print, symbolic random.random()."""

    def __init__(self, m=None, rand=None):
        self.m = m
        self.rand = rand

    def __enter__(self):
        self.p = builtins.print
        self.r = (_random.random, _random.uniform)
        builtins.print = lambda *a, **k: None
        if self.rand is not None:
            cnt = itertools.count()
            self.cnt = cnt

            def rnd():
                return self.rand(f"pyrand{next(cnt)}", Fraction(0), Fraction(1))

            _random.random = rnd
            _random.uniform = lambda a, b: a + (b - a) * rnd()
        return self

    def __exit__(self, *e):
        builtins.print = self.p
        _random.random, _random.uniform = self.r
