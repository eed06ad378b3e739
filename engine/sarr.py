"""Symbolic arrays: numpy object arrays whose elements are symbolic terms."""
from __future__ import annotations

import functools
import inspect
import itertools
import math
import operator
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import B, R, Unsupported, lift


def is_sym(x):
    """does x contain a symbolic (non-constant) term?"""
    if isinstance(x, (R, B)):
        return not (isinstance(x, R) and x.is_const())
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(is_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(is_sym(e) for e in x)
    if isinstance(x, dict):
        return any(is_sym(e) for e in x.values())
    return getattr(x, "_symbolic_", False) is True


def has_terms(x):
    """does x contain engine values at all (constant or not)?"""
    if isinstance(x, (R, B, SArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_terms(e) for e in x.flat)
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_terms(e) for e in x)
    if isinstance(x, dict):
        return any(has_terms(e) for e in x.values())
    return False


def elem(x):
    if isinstance(x, (R, B)):
        return x
    if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, SArr) and x.ndim == 0:
        return x.flat[0]
    return lift(x)


def _to_plain(v):
    """constant term -> python number"""
    if isinstance(v, R):
        if v.is_const():
            c = v.const()
            return int(c) if c.denominator == 1 else float(c)
        n = v.num_const()
        if n is not None:
            return float(n)
        raise Unsupported("symbolic value where a concrete one is needed")
    if isinstance(v, B):
        raise Unsupported("symbolic truth value where a concrete one is needed")
    return v


def conc(x, force=None):
    """concrete numpy/python version of a term structure without symbols"""
    if isinstance(x, R):
        v = _to_plain(x)
        return v
    if isinstance(x, B):
        return bool(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        vals = [conc(e) for e in x.flat]
        flags = [isinstance(v, (bool, np.bool_)) for v in vals]
        if vals and all(flags):
            dt = bool
        elif vals and all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in vals) and getattr(x, "_int", True):
            dt = int
        else:
            dt = float
        try:
            a = np.empty(x.shape, dtype=dt)
            a_flat = np.array(vals, dtype=dt) if vals else np.empty(0, dtype=dt)
            return a_flat.reshape(x.shape)
        except (TypeError, ValueError):
            return np.asarray(vals, dtype=object).reshape(x.shape)
    if isinstance(x, list):
        return [conc(e) for e in x]
    if isinstance(x, tuple):
        if hasattr(x, "_fields"):
            return type(x)(*[conc(e) for e in x])
        return tuple(conc(e) for e in x)
    if isinstance(x, dict):
        return {k: conc(v) for k, v in x.items()}
    return x


def arr(x):
    """anything array-like -> SArr (copying)"""
    if isinstance(x, SArr):
        return x.copy()
    return asarr(x)


def asarr(x):
    if isinstance(x, SArr):
        return x
    if hasattr(x, "_sym_array_"):
        return asarr(x._sym_array_())
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        f32 = x.dtype == np.float32
        if x.dtype == object:
            out[...] = x
            for i in np.ndindex(*x.shape):
                out[i] = elem(out[i])
        else:
            for i in np.ndindex(*x.shape):
                out[i] = elem(x[i])
        return out.view(SArr)
    if isinstance(x, (list, tuple)):
        parts = [asarr(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object).view(SArr)
        sh = parts[0].shape
        for p in parts:
            if p.shape != sh:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i, ...] = np.asarray(p) if sh else p.flat[0]
        return out.view(SArr)
    if isinstance(x, (R, B, bool, int, float, Fraction, np.number, np.bool_)):
        out = np.empty((), dtype=object)
        out[()] = elem(x)
        return out.view(SArr)
    if hasattr(x, "__array__") or hasattr(x, "__jax_array__"):
        return asarr(np.asarray(x))
    if isinstance(x, range):
        return asarr(list(x))
    if hasattr(x, "__iter__") and not isinstance(x, (str, dict)):
        return asarr(list(x))
    raise TypeError(f"cannot make a symbolic array from {type(x).__name__}")


def un0(x):
    """0-d array -> scalar term"""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.flat[0] if x.dtype == object else x[()]
    return x


# ------------------------------------------------------------------------------- scalar ops
def _num(x):
    """Boolean -> 0/1 term"""
    if isinstance(x, B):
        return x._r()
    if isinstance(x, (bool, np.bool_)):
        return S.R_const(int(x))
    if isinstance(x, float):
        return x
    return lift(x)


def _bool(x):
    if isinstance(x, (B, bool, np.bool_)):
        return x
    if isinstance(x, float):
        return x != 0
    return S.cmp_ne(lift(x), S.R_const(0))


def _isb(x):
    return isinstance(x, (B, bool, np.bool_))


def s_add(a, b):
    if _isb(a) and _isb(b):
        return S.or_(a, b)
    return _num(a) + _num(b)


def s_addn(a, b):
    return _num(a) + _num(b)


def s_sub(a, b):
    return _num(a) - _num(b)


def s_mul(a, b):
    if _isb(a) and _isb(b):
        return S.and_(a, b)
    return _num(a) * _num(b)


def s_div(a, b):
    a, b = _num(a), _num(b)
    return S.div(a, b)


def s_log(a):
    a = _num(a)
    return S.ln_(a)


def s_cmp(f):
    def g(a, b):
        if _isb(a) or _isb(b):
            a, b = _num(a), _num(b)
        return f(lift(a), lift(b))

    return g


def s_eq(a, b):
    if _isb(a) and _isb(b):
        return S.iff(a, b)
    return S.cmp_eq(_num(a), _num(b))


def s_isnan(a):
    return isinstance(a, float) and a != a


def s_isinf(a):
    return isinstance(a, float) and math.isinf(a)


def s_isfinite(a):
    return not isinstance(a, float)


def s_max(a, b):
    if _isb(a) and _isb(b):
        return S.or_(a, b)
    if SORT_MODE["kth"] and isinstance(a, R) and isinstance(b, R):
        return S.kth(1, [a, b])
    return S.max_(_num(a), _num(b))


def s_min(a, b):
    if _isb(a) and _isb(b):
        return S.and_(a, b)
    return S.min_(_num(a), _num(b))


def s_logaddexp(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if a == -math.inf and isinstance(a, float):
            return b
        if b == -math.inf and isinstance(b, float):
            return a
        return math.inf
    return S.ln_(S.exp_(a) + S.exp_(b))


def s_invert(a):
    if _isb(a):
        return S.not_(a)
    return -a - 1


def s_and(a, b):
    if _isb(a) or _isb(b):
        return S.and_(_bool(a), _bool(b))
    if a.is_const() and b.is_const():
        return S.R_const(int(a.const()) & int(b.const()))
    raise Unsupported("bitwise and on symbolic integers")


def s_or(a, b):
    if _isb(a) or _isb(b):
        return S.or_(_bool(a), _bool(b))
    if a.is_const() and b.is_const():
        return S.R_const(int(a.const()) | int(b.const()))
    raise Unsupported("bitwise or on symbolic integers")


def s_xor(a, b):
    return S.or_(S.and_(_bool(a), S.not_(_bool(b))), S.and_(_bool(b), S.not_(_bool(a))))


def s_pow(a, b):
    a, b = _num(a), _num(b)
    return S.power(a, b)


def _f1(f):
    return lambda a: f(_num(a))


def s_cbrt(a):
    a = _num(a)
    return S.ite(a >= 0, S.power(S.abs_(a), Fraction(1, 3)), -S.power(S.abs_(a), Fraction(1, 3)))


def s_mod(a, b):
    return S.mod(_num(a), _num(b))


UFUNCS = {
    "add": s_add, "subtract": s_sub, "multiply": s_mul, "divide": s_div, "true_divide": s_div,
    "floor_divide": lambda a, b: S.floordiv(_num(a), _num(b)), "remainder": s_mod, "mod": s_mod,
    "power": s_pow, "float_power": s_pow, "negative": lambda a: -_num(a), "positive": lambda a: a,
    "absolute": lambda a: S.abs_(_num(a)), "fabs": lambda a: S.abs_(_num(a)), "sqrt": _f1(S.sqrt_),
    "square": lambda a: _num(a) * _num(a), "cbrt": s_cbrt, "exp": _f1(S.exp_),
    "exp2": lambda a: S.exp_(_num(a) * S.ln_(S.R_const(2))), "expm1": lambda a: S.exp_(_num(a)) - 1,
    "log": s_log, "log2": lambda a: s_div(s_log(a), s_log(2)), "log10": lambda a: s_div(s_log(a), s_log(10)),
    "log1p": lambda a: s_log(_num(a) + 1), "sin": _f1(S.sin_), "cos": _f1(S.cos_),
    "tan": lambda a: s_div(S.sin_(_num(a)), S.cos_(_num(a))), "arctan": _f1(S.atan_),
    "sinh": _f1(S.sinh_), "cosh": _f1(S.cosh_), "tanh": _f1(S.tanh_), "arcsinh": _f1(S.asinh_),
    "sign": _f1(S.sign_), "floor": _f1(S.floor_), "ceil": lambda a: -S.floor_(-_num(a)), "trunc": _f1(S.trunc_),
    "rint": _f1(S.round_), "maximum": s_max, "minimum": s_min, "fmax": s_max, "fmin": s_min,
    "greater": s_cmp(lambda a, b: S.cmp_lt(b, a)), "greater_equal": s_cmp(lambda a, b: S.cmp_le(b, a)),
    "less": s_cmp(S.cmp_lt), "less_equal": s_cmp(S.cmp_le), "equal": s_eq, "not_equal": lambda a, b: S.not_(s_eq(a, b)),
    "logical_and": lambda a, b: S.and_(_bool(a), _bool(b)), "logical_or": lambda a, b: S.or_(_bool(a), _bool(b)),
    "logical_not": lambda a: S.not_(_bool(a)), "logical_xor": s_xor, "isnan": s_isnan, "isinf": s_isinf,
    "isfinite": s_isfinite, "reciprocal": lambda a: s_div(1, a), "hypot": lambda a, b: S.sqrt_(a * a + b * b),
    "logaddexp": s_logaddexp, "conjugate": lambda a: a, "bitwise_and": s_and, "bitwise_or": s_or, "invert": s_invert,
    "bitwise_xor": s_xor, "deg2rad": lambda a: _num(a) * S.PI() / 180, "rad2deg": lambda a: _num(a) * 180 / S.PI(),
    # scipy.special style names
    "erf": _f1(S.erf_), "digamma": _f1(S.digamma_), "psi": _f1(S.digamma_), "gammaln": _f1(S.gammaln_),
    "loggamma": _f1(S.gammaln_), "gamma": _f1(S.gamma_), "lgamma": _f1(S.gammaln_),
    "ndtr": lambda a: (1 + S.erf_(_num(a) / S.sqrt_(S.R_const(2)))) / 2,
    "erfinv": _f1(S.erfinv_), "expit": lambda a: s_div(1, 1 + S.exp_(-_num(a))), "erfc": lambda a: 1 - S.erf_(_num(a)),
    "xlogy": lambda a, b: S.ite(s_eq(a, 0), S.R_const(0), 0) if s_eq(a, 0) is True else (_num(a) * s_log(b)),
    "ndtri": lambda a: S.sqrt_(S.R_const(2)) * S.erfinv_(2 * _num(a) - 1),
}

# NumPy's object loops (reached through pandas) look a ufunc up as a method of the element
for _n in ("log2", "log10", "log1p", "exp2", "expm1", "log", "tanh", "floor", "ceil", "rint", "square", "cbrt", "tan", "arctan", "sinh", "cosh", "arcsinh", "reciprocal"):
    if _n == "log" or not hasattr(S.R, _n):
        setattr(S.R, _n, (lambda f: lambda self: f(self))(UFUNCS[_n]))

REDUCE_INIT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def _wrap_el(v):
    if isinstance(v, (R, B)):
        return v
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    return elem(v)


def emap(f, *args):
    """elementwise map with broadcasting; scalars in -> scalar out"""
    arrs = [asarr(a) for a in args]
    if all(a.ndim == 0 for a in arrs):
        return _wrap_el(f(*[a.flat[0] for a in arrs]))
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    bs = [np.broadcast_to(a.view(np.ndarray), shape) for a in arrs]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = _wrap_el(f(*[b[i] for b in bs]))
    return out.view(SArr)


def extreme(f, row):
    """maximum / minimum of several values"""
    if all(isinstance(x, R) for x in row):
        row = list({x.h: x for x in row}.values())
        if len(row) == 1:
            return row[0]
        known = getattr(S.CTX, "known_truth", None)
        if known is not None:
            ge = S.cmp_le if f is s_max else (lambda a, b: S.cmp_le(b, a))

            def dom(a, b):
                c = ge(a, b)
                return c if isinstance(c, bool) else known(c) is True

            for c in row:
                if all(x is c or dom(x, c) for x in row):
                    return c
            row.sort(key=lambda x: x.h)
    acc = row[0]
    for x in row[1:]:
        acc = f(acc, x)
    return acc


def reduce_(f, a, axis=None, keepdims=False, init=None):
    a = asarr(a)
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = (axis,) if isinstance(axis, (int, np.integer, R)) else tuple(axis)
        axes = tuple(int(x) % max(a.ndim, 1) for x in axes)
    keep = [i for i in range(a.ndim) if i not in axes]
    v = a.view(np.ndarray).transpose(keep + list(axes))
    kshape = tuple(a.shape[i] for i in keep)
    n = 1
    for i in axes:
        n *= a.shape[i]
    v = v.reshape(kshape + (n,))
    out = np.empty(kshape, dtype=object)
    for i in np.ndindex(*kshape):
        row = v[i]
        if n == 0:
            if init is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            out[i] = elem(init)
            continue
        if (f is s_max or f is s_min) and n > 1 and init is None:
            out[i] = _wrap_el(extreme(f, list(row)))
            continue
        acc = row[0]
        if init is not None:
            acc = f(elem(init), acc)
        for x in row[1:]:
            acc = f(acc, x)
        out[i] = _wrap_el(acc)
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    if out.ndim == 0:
        return out[()]
    return out.view(SArr)


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    A, Bm = a.view(np.ndarray), b.view(np.ndarray)
    if A.ndim == 0 or Bm.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    sa = A.ndim == 1
    sb = Bm.ndim == 1
    if sa:
        A = A[None, :]
    if sb:
        Bm = Bm[:, None]
    if A.shape[-1] != Bm.shape[-2]:
        raise ValueError(f"matmul: mismatch in core dimension {a.shape} {b.shape}")
    batch = np.broadcast_shapes(A.shape[:-2], Bm.shape[:-2])
    A = np.broadcast_to(A, batch + A.shape[-2:])
    Bm = np.broadcast_to(Bm, batch + Bm.shape[-2:])
    out = np.empty(batch + (A.shape[-2], Bm.shape[-1]), dtype=object)
    for i in np.ndindex(*out.shape):
        r = A[i[:-1]]
        c = Bm[i[:-2]][:, i[-1]]
        acc = S.R_const(0)
        for x, y in zip(r, c):
            acc = s_addn(acc, s_mul(x, y))
        out[i] = acc
    if sa:
        out = out[..., 0, :]
    if sb:
        out = out[..., 0]
    if out.ndim == 0:
        return out[()]
    return out.view(SArr)


class _At:
    def __init__(self, a, idx=None):
        self.a, self.idx = a, idx

    def __getitem__(self, idx):
        return _At(self.a, idx)

    def set(self, v, **k):
        o = self.a.copy()
        o[self.idx] = v
        return o

    def _op(self, f, v):
        o = self.a.copy()
        cur = o[self.idx]
        o[self.idx] = emap(f, cur, v)
        return o

    def add(self, v, **k):
        return self._op(s_addn, v)

    def subtract(self, v, **k):
        return self._op(s_sub, v)

    def multiply(self, v, **k):
        return self._op(s_mul, v)

    def divide(self, v, **k):
        return self._op(s_div, v)

    def max(self, v, **k):
        return self._op(s_max, v)

    def min(self, v, **k):
        return self._op(s_min, v)

    def power(self, v, **k):
        return self._op(s_pow, v)

    def get(self, **k):
        return self.a[self.idx]


def _idx(a, idx):
    """normalise an index: constant terms -> ints, constant arrays -> int/bool arrays."""
    def one(i):
        if isinstance(i, R):
            return int(i) if i.is_const() else i
        if isinstance(i, B):
            return bool(i)
        if isinstance(i, np.ndarray) and i.dtype == object:
            if is_sym(i):
                if all(_isb(e) for e in i.flat):
                    return np.array([bool(e) for e in i.flat], dtype=bool).reshape(i.shape)
                return i
            c = conc(i)
            return c.astype(int) if c.dtype == float else c
        if isinstance(i, list) and has_terms(i):
            return one(asarr(i))
        if isinstance(i, slice):
            return slice(*[None if p is None else int(p) for p in (i.start, i.stop, i.step)])
        if hasattr(i, "__jax_array__") or type(i).__module__.startswith("jax"):
            return np.asarray(i)
        return i

    if isinstance(idx, tuple):
        return tuple(one(i) for i in idx)
    return one(idx)


class SArr(np.ndarray):
    __array_priority__ = 10000
    _symbolic_ = None

    def __array_finalize__(self, obj):
        pass

    # ---- ufuncs / functions
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        kw.pop("dtype", None)
        kw.pop("casting", None)
        kw.pop("order", None)
        kw.pop("subok", None)
        where = kw.pop("where", True)
        if name == "matmul" and method == "__call__":
            res = matmul(*inputs)
        elif name == "vecdot" and method == "__call__":
            res = reduce_(s_addn, emap(s_mul, *inputs), -1)
        elif name == "divmod":
            return emap(UFUNCS["floor_divide"], *inputs), emap(UFUNCS["remainder"], *inputs)
        else:
            f = UFUNCS.get(name)
            if f is None:
                raise Unsupported(f"ufunc {name} on symbolic values")
            if method == "__call__":
                res = emap(f, *inputs)
                if where is not True:
                    if out is None:
                        raise Unsupported("ufunc where without out")
                    o = out[0] if isinstance(out, tuple) else out
                    res = emap(lambda c, x, y: S.ite(c, x, y) if isinstance(c, B) else (x if c else y), where, res, o)
            elif method == "reduce":
                init = kw.pop("initial", None)
                if init is np._NoValue:
                    init = None
                if init is None:
                    init = REDUCE_INIT.get(name)
                g = s_addn if name == "add" else f
                res = reduce_(g, inputs[0], kw.get("axis", 0), kw.get("keepdims", False), init)
            elif method == "accumulate":
                res = accumulate(s_addn if name == "add" else f, inputs[0], kw.get("axis", 0))
            elif method == "outer":
                a, b = asarr(inputs[0]), asarr(inputs[1])
                res = emap(f, a.reshape(a.shape + (1,) * b.ndim), b)
            elif method == "at":
                a, idx = inputs[0], inputs[1]
                vals = inputs[2] if len(inputs) > 2 else None
                idxs = np.asarray(conc(asarr(idx)))
                for n_, i in enumerate(idxs.flat):
                    v = asarr(vals).flat[n_] if vals is not None and asarr(vals).ndim else vals
                    a[i] = emap(s_addn if name == "add" else f, a[i], v) if vals is not None else emap(f, a[i])
                return None
            else:
                raise Unsupported(f"ufunc method {method}")
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if not (isinstance(o, np.ndarray) and o.dtype == object):
                if is_sym(res):
                    raise Unsupported("symbolic result stored into a concrete array")
                o[...] = conc(res)
                return o
            o[...] = res
            return o
        return res

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func.__name__)
        if h is not None and getattr(func, "__module__", "").startswith("numpy"):
            return call_func(h, func, args, kwargs)
        if func.__name__ in NATIVE:
            r = super().__array_function__(func, types, args, kwargs)
            return r
        from . import jx

        return jx.np_fallback(func, args, kwargs)

    # ---- indexing
    def __getitem__(self, idx):
        if _has_order(idx):
            return _order_get(self, idx)
        i = _idx(self, idx)
        if _has_symidx(i):
            return _sym_get(self, i)
        r = super().__getitem__(i)
        return r

    def __setitem__(self, idx, v):
        i = _idx(self, idx) if not _is_symmask(idx) else idx
        if isinstance(i, np.ndarray) and i.dtype == object:
            if all(_isb(e) for e in i.flat):
                if i.shape == self.shape and (not isinstance(v, np.ndarray) or v.ndim == 0):
                    for j in np.ndindex(*self.shape):
                        c = i[j]
                        if isinstance(c, B):
                            super().__setitem__(j, S.ite(c, elem(un0(v)), super().__getitem__(j)))
                        elif c:
                            super().__setitem__(j, elem(un0(v)))
                    return
                i = np.array([bool(e) for e in i.flat], dtype=bool).reshape(i.shape)
        if _has_symidx(i):
            i = _concretize_idx(self, i)
        if isinstance(v, SArr):
            vv = v.view(np.ndarray) if v.ndim else v.flat[0]
        elif isinstance(v, (R, B)):
            vv = v
        else:
            w = asarr(v)
            vv = w.view(np.ndarray) if w.ndim else w.flat[0]
        super().__setitem__(i, vv)

    @property
    def at(self):
        return _At(self)

    # ---- conversions
    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        v = self.flat[0]
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, float):
            return v != 0
        return S.truth(_bool(v))

    def __float__(self):
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return float(self.flat[0])

    def __int__(self):
        return int(self.flat[0])

    def __index__(self):
        if self.size != 1 or self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self.flat[0])

    def __round__(self, n=0):
        return emap(lambda e: S.round_(_num(e), n or 0), self)

    def __contains__(self, x):
        return bool(reduce_(lambda a, b: S.or_(a, b), emap(s_eq, self, x), init=False))

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def astype(self, dtype=None, *a, **k):
        dt = np.dtype(_np_dtype(dtype))
        if dt.kind == "f":
            return self._m(lambda e: _num(e))
        if dt.kind in "iu":
            return self._m(lambda e: S.trunc_(_num(e)) if not _isb(e) else _num(e))
        if dt.kind == "b":
            return self._m(_bool)
        if dt.kind == "O":
            return self.copy()
        raise Unsupported(f"astype({dtype})")

    def _m(self, f):
        out = np.empty(self.shape, dtype=object)
        for i in np.ndindex(*self.shape):
            out[i] = _wrap_el(f(super().__getitem__(i) if self.ndim else self.flat[0]))
        return out.view(SArr)

    # ---- reductions as methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_sum(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return f_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return f_std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(s_mul, self, axis, keepdims, 1)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(s_max, self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(s_min, self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(lambda a, b: S.and_(_bool(a), _bool(b)), self, axis, keepdims, True)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(lambda a, b: S.or_(_bool(a), _bool(b)), self, axis, keepdims, False)

    def cumsum(self, axis=None, dtype=None, out=None):
        return f_cumsum(self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        a = self.ravel() if axis is None else self
        return accumulate(s_mul, a, 0 if axis is None else axis)

    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        return f_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = f_sort(self, axis)

    def argmax(self, axis=None, out=None, keepdims=False):
        return f_arg(self, axis, lambda a, b: S.cmp_lt(b, a))

    def argmin(self, axis=None, out=None, keepdims=False):
        return f_arg(self, axis, lambda a, b: S.cmp_lt(a, b))

    def dot(self, b, out=None):
        return f_dot(self, b)

    def trace(self, *a, **k):
        return f_trace(self)

    def clip(self, a_min=None, a_max=None, out=None, min=None, max=None):
        return f_clip(self, a_min if a_min is not None else min, a_max if a_max is not None else max)

    def round(self, decimals=0, out=None):
        return emap(lambda e: S.round_(_num(e), decimals), self)

    def conj(self):
        return self

    def block_until_ready(self):
        return self

    @property
    def real(self):
        return self

    def squeeze(self, axis=None):
        return np.ndarray.squeeze(self, axis=None if axis is None else int(axis)) if not isinstance(axis, tuple) else np.ndarray.squeeze(self, axis=axis)

    def reshape(self, *shape, **k):
        order = k.pop("order", "C")
        if "newshape" in k or "shape" in k:
            shape = (k.get("newshape", k.get("shape")),)
        sh = shape[0] if len(shape) == 1 else shape
        if isinstance(sh, (R,)):
            sh = int(sh)
        if isinstance(sh, (tuple, list)):
            sh = tuple(int(x) for x in sh)
        return np.ndarray.reshape(self, sh, order=order)

    def __repr__(self):
        return f"SArr{self.shape}({[repr(e)[:40] for e in list(self.flat)[:6]]}...)"

    __str__ = __repr__

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.flat[0], spec)
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")


def _np_dtype(d):
    if d is None:
        return float
    nm = getattr(d, "__name__", None)
    if isinstance(d, type) and nm == "float":
        return float
    if isinstance(d, type) and nm == "int":
        return int
    if isinstance(d, type) and nm == "bool":
        return bool
    try:
        return np.dtype(d)
    except TypeError:
        dt = getattr(d, "dtype", None)
        if dt is not None:
            return np.dtype(dt)
        raise


def _is_symmask(i):
    return isinstance(i, np.ndarray) and i.dtype == object and i.size and all(_isb(e) for e in i.flat) and is_sym(i)


def _has_symidx(i):
    if isinstance(i, tuple):
        return any(_has_symidx(j) for j in i)
    return isinstance(i, R) or (isinstance(i, np.ndarray) and i.dtype == object)


def _concretize_idx(a, i):
    def one(j):
        if isinstance(j, R):
            return int(j)
        if isinstance(j, np.ndarray) and j.dtype == object:
            return np.array([int(e) for e in j.flat], dtype=int).reshape(j.shape)
        return j

    return tuple(one(j) for j in i) if isinstance(i, tuple) else one(i)


def _sym_get(a, i):
    if isinstance(i, tuple):
        return np.ndarray.__getitem__(a, _concretize_idx(a, i))
    n = a.shape[0]

    def pick(j):
        if j.is_const():
            return np.ndarray.__getitem__(a, int(j))
        lo, hi = S.CTX.int_bounds(j)
        lo = 0 if lo is None or lo < 0 else lo
        hi = n - 1 if hi is None or hi > n - 1 else hi
        acc = np.ndarray.__getitem__(a, hi)
        for k in range(hi - 1, lo - 1, -1):
            c = S.cmp_eq(j, S.R_const(k))
            acc = emap(lambda x, y: S.ite(c, x, y) if isinstance(c, B) else (x if c else y), np.ndarray.__getitem__(a, k), acc)
        return acc

    if isinstance(i, R):
        return pick(i)
    rows = [asarr(pick(lift(e))) for e in i.flat]
    out = np.empty(i.shape + a.shape[1:], dtype=object)
    for k, j in enumerate(np.ndindex(*i.shape)):
        out[j] = rows[k].view(np.ndarray) if a.ndim > 1 else rows[k].flat[0]
    return out.view(SArr)


# ------------------------------------------------------------------------------- functions
def _ax(axis):
    if isinstance(axis, R):
        return int(axis)
    return axis


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    a = asarr(a)
    if where is not None and where is not np._NoValue:
        a = emap(lambda c, x: S.ite(c, _num(x), S.R_const(0)) if isinstance(c, B) else (x if c else 0), where, a)
    if keepdims is np._NoValue:
        keepdims = False
    return reduce_(s_addn, a, _ax(axis), keepdims, 0)


def _count(a, axis):
    a = asarr(a)
    if axis is None:
        return a.size
    axes = (axis,) if isinstance(axis, (int, np.integer, R)) else tuple(axis)
    n = 1
    for x in axes:
        n *= a.shape[int(x)]
    return n


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    if keepdims is np._NoValue:
        keepdims = False
    n = _count(a, axis)
    s = f_sum(a, axis, keepdims=keepdims)
    if n == 0:
        return emap(lambda x: math.nan, s)
    return emap(s_div, s, n)


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=None, correction=None):
    if keepdims is np._NoValue:
        keepdims = False
    if correction is not None:
        ddof = correction
    a = asarr(a)
    m = f_mean(a, axis, keepdims=True)
    d = emap(s_sub, a, m)
    s = f_sum(emap(s_mul, d, d), axis, keepdims=keepdims)
    n = _count(a, axis)
    return emap(s_div, s, lift(n) - lift(ddof))


def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=None, correction=None):
    return emap(_f1(S.sqrt_), f_var(a, axis, ddof=ddof, keepdims=keepdims, correction=correction))


def accumulate(f, a, axis=0):
    a = asarr(a)
    axis = int(axis) % a.ndim
    v = np.moveaxis(a.view(np.ndarray), axis, 0)
    out = np.empty(v.shape, dtype=object)
    for rest in np.ndindex(*v.shape[1:]):
        acc = None
        for i in range(v.shape[0]):
            x = v[(i,) + rest]
            acc = x if acc is None else f(acc, x)
            out[(i,) + rest] = _wrap_el(acc)
    return np.moveaxis(out, 0, axis).view(SArr)


def f_cumsum(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return accumulate(s_addn, a, axis)


def less(a, b):
    return S.cmp_lt(_num(a), _num(b))


def _sorted_idx(vals, key=None):
    """stable insertion sort with forks on undecided comparisons -> concrete permutation"""
    order = []
    for i, v in enumerate(vals):
        lo = len(order)
        while lo > 0 and S.truth(less(v, vals[order[lo - 1]])):
            lo -= 1
        order.insert(lo, i)
    return order


SORT_MODE = {"network": False, "kth": False}


class _Row:
    """the values one argsort looked at; the permutation is only computed (by forking) when it is really needed"""

    __slots__ = ("vals", "perm")

    def __init__(self, vals):
        self.vals, self.perm = vals, None

    def order(self):
        if self.perm is None:
            self.perm = _sorted_idx(self.vals)
        return self.perm


class OrderIdx:
    """position of the j-th smallest value of a row; indexing the row with it gives a canonical order statistic"""

    __slots__ = ("row", "pos")

    def __init__(self, row, pos):
        self.row, self.pos = row, pos

    def __index__(self):
        return self.row.order()[self.pos]

    __int__ = __index__

    def __eq__(self, o):
        if isinstance(o, OrderIdx) and o.row is self.row:
            return self.pos == o.pos
        return int(self) == o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(int(self))

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __lt__(self, o):
        return int(self) < int(o)

    def __gt__(self, o):
        return int(self) > int(o)

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__


def _has_order(i):
    if isinstance(i, tuple):
        return any(_has_order(j) for j in i)
    return isinstance(i, OrderIdx) or (isinstance(i, np.ndarray) and i.dtype == object and i.size > 0 and all(isinstance(e, OrderIdx) for e in i.flat))


def _force_order(i):
    if isinstance(i, tuple):
        return tuple(_force_order(j) for j in i)
    if isinstance(i, OrderIdx):
        return int(i)
    if isinstance(i, np.ndarray) and i.dtype == object and i.size and all(isinstance(e, OrderIdx) for e in i.flat):
        return np.array([int(e) for e in i.flat], dtype=int).reshape(i.shape)
    return i


def _kth_of(row, ix):
    """row[ix] as an order statistic when ix comes from an argsort of that very row"""
    vals = [lift(e) for e in row]
    if len(vals) == len(ix.row.vals) and all(a is b for a, b in zip(vals, ix.row.vals)):
        return S.kth(ix.pos, vals)
    return row[int(ix)]


def _order_get(a, i):
    v = a.view(np.ndarray)
    if isinstance(i, OrderIdx):
        return _kth_of(list(v), i) if v.ndim == 1 else np.ndarray.__getitem__(a, int(i))
    if isinstance(i, np.ndarray) and v.ndim == 1:
        out = np.empty(i.shape, dtype=object)
        for j in np.ndindex(*i.shape):
            out[j] = _kth_of(list(v), i[j])
        return out.view(SArr)
    if isinstance(i, tuple) and len(i) == 2 and v.ndim == 2 and not _has_order(i[0]):
        if isinstance(i[0], (int, np.integer)):
            return _order_get(np.ndarray.__getitem__(a, int(i[0])), i[1])
        if isinstance(i[0], (np.ndarray, list)) and isinstance(i[1], np.ndarray):
            r, c = np.broadcast_arrays(np.asarray(i[0]), i[1])
            if r.dtype.kind in "iu":
                out = np.empty(r.shape, dtype=object)
                for j in np.ndindex(*r.shape):
                    out[j] = _kth_of(list(v[int(r[j])]), c[j])
                return out.view(SArr)
    return np.ndarray.__getitem__(a, _force_order(i))


def f_argsort(a, axis=-1, kind=None, order=None, stable=None, descending=False):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    v = np.moveaxis(a.view(np.ndarray), int(axis), -1)
    if SORT_MODE["kth"] and is_sym(a):
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape[:-1]):
            row = _Row([lift(e) for e in v[i]])
            for j in range(v.shape[-1]):
                out[i + (j,)] = OrderIdx(row, j)
        return np.moveaxis(out, -1, int(axis))
    out = np.empty(v.shape, dtype=int)
    for i in np.ndindex(*v.shape[:-1]):
        out[i] = _sorted_idx(list(v[i]))
    return np.moveaxis(out, -1, int(axis))


def _partition_order(n, kth):
    """position -> rank for a partition around kth: any order is allowed between the pivots, take the reverse of the sorted one"""
    ks = kth if isinstance(kth, (list, tuple, np.ndarray)) else [kth]
    ks = sorted({int(un0(asarr(k)).const()) if isinstance(un0(asarr(k)), R) else int(k) for k in np.ravel(np.asarray(ks, dtype=object))})
    ks = sorted({k + n if k < 0 else k for k in ks})
    if any(k < 0 or k >= n for k in ks):
        raise ValueError(f"kth(={ks}) out of bounds ({n})")
    order, lo = [], 0
    for k in ks + [n]:
        order += list(range(k - 1, lo - 1, -1))
        if k < n:
            order.append(k)
        lo = k + 1
    return order


def f_argpartition(a, kth, axis=-1, kind="introselect", order=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    r = f_argsort(a, axis)
    return np.take(r, _partition_order(a.shape[int(axis)], kth), axis=int(axis))


def f_partition(a, kth, axis=-1, kind="introselect", order=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    r = f_sort(a, axis)
    return np.take(r.view(np.ndarray), _partition_order(a.shape[int(axis)], kth), axis=int(axis)).view(SArr)


def py_sorted(it, /, *, key=None, reverse=False):
    """builtin sorted"""
    xs = list(it)
    if SORT_MODE["kth"] and not reverse and xs:
        ks = [un0(asarr(key(x))) if key is not None else x for x in xs] if key is not None or all(isinstance(x, R) for x in xs) else None
        if ks and all(isinstance(e, R) for e in ks) and is_sym(ks):
            if key is None:
                return [S.kth(j, ks) for j in range(len(ks))]
            if all(isinstance(x, (int, np.integer)) for x in xs) and [int(x) for x in xs] == list(range(len(xs))):
                row = _Row(ks)
                return [OrderIdx(row, j) for j in range(len(xs))]
            return [xs[i] for i in _sorted_idx(ks)]
    return sorted(xs, key=key, reverse=reverse)


def sort_network(vals):
    """symbolic sort by compare-exchange (odd-even transposition), no forks"""
    v = list(vals)
    n = len(v)
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            a, b = v[i], v[i + 1]
            c = less(b, a)
            if isinstance(c, B):
                v[i], v[i + 1] = S.ite(c, b, a), S.ite(c, a, b)
            elif c:
                v[i], v[i + 1] = b, a
    return v


def f_sort(a, axis=-1, kind=None, order=None, stable=None, descending=False):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    v = np.moveaxis(a.view(np.ndarray), int(axis), -1)
    out = np.empty(v.shape, dtype=object)
    for i in np.ndindex(*v.shape[:-1]):
        row = list(v[i])
        if SORT_MODE["kth"] and is_sym(row):
            s = [S.kth(j, row) for j in range(len(row))]
        elif SORT_MODE["network"]:
            s = sort_network(row)
        else:
            s = [row[j] for j in _sorted_idx(row)]
        for j, x in enumerate(s):
            out[i + (j,)] = x
    return np.moveaxis(out, -1, int(axis)).view(SArr)


def f_arg(a, axis, better):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    v = np.moveaxis(a.view(np.ndarray), int(axis), -1)
    out = np.empty(v.shape[:-1], dtype=object)
    for i in np.ndindex(*v.shape[:-1]):
        row = [_num(x) for x in v[i]]
        bi, bv = S.R_const(0), row[0]
        for j in range(1, len(row)):
            c = better(row[j], bv)
            bi = S.ite(c, S.R_const(j), bi)
            bv = S.ite(c, row[j], bv)
        out[i] = bi
    return out[()] if out.ndim == 0 else out.view(SArr)


def f_dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return emap(s_mul, a, b)
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(a, b)
    return np.tensordot(a.view(np.ndarray), b.view(np.ndarray), axes=([-1], [-2 if b.ndim > 1 else 0])).view(SArr)


def f_trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    a = asarr(a)
    d = np.diagonal(a.view(np.ndarray), offset, axis1, axis2)
    return reduce_(s_addn, d.view(SArr), -1, init=0)


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    r = asarr(a)
    if a_min is not None:
        r = emap(s_max, r, a_min)
    if a_max is not None:
        r = emap(s_min, r, a_max)
    return r


def f_where(c, x=None, y=None):
    if x is None:
        m = asarr(c)
        mm = np.array([bool(e) for e in m.flat], dtype=bool).reshape(m.shape)
        return np.where(mm)
    return emap(lambda c, a, b: S.ite(c, a, b) if isinstance(c, B) else (a if c else b), emap(_bool, c), x, y)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = _num(x), _num(y)
        if isinstance(x, float) or isinstance(y, float):
            if isinstance(x, float) and isinstance(y, float):
                return x == y or (equal_nan and x != x and y != y)
            return False
        d = S.abs_(x - y)
        return S.cmp_le(d, lift(atol) + lift(rtol) * S.abs_(y))

    return emap(f, a, b)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return reduce_(lambda x, y: S.and_(x, y), asarr(f_isclose(a, b, rtol, atol, equal_nan)), init=True)


def f_array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return reduce_(lambda x, y: S.and_(x, y), asarr(emap(s_eq, a, b)), init=True)


def f_diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    v = np.moveaxis(a.view(np.ndarray), axis, 0)
    return np.moveaxis(emap(s_sub, v[1:].view(SArr), v[:-1].view(SArr)).view(np.ndarray), 0, axis).view(SArr)


# ---- linear algebra
def _sq(a):
    a = asarr(a)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return a


def det2(M):
    """determinant by cofactor expansion with memo (fraction free)"""
    n = len(M)
    memo = {}

    def rec(r, cols):
        if r == n:
            return S.R_const(1)
        k = (r, cols)
        if k in memo:
            return memo[k]
        acc = S.R_const(0)
        sgn = 1
        for idx, c in enumerate(cols):
            x = _num(M[r][c])
            if not (isinstance(x, R) and not x.t):
                t = x * rec(r + 1, cols[:idx] + cols[idx + 1:])
                acc = acc + t if sgn > 0 else acc - t
            sgn = -sgn
        memo[k] = acc
        return acc

    return rec(0, tuple(range(n)))


def fl(a):
    return np.array([[float(e) for e in r] for r in a.view(np.ndarray)], dtype=float)


def l_det(a):
    a = _sq(a)
    if a.ndim > 2:
        return asarr([l_det(x) for x in a])
    if a.shape[0] > 3 and not is_sym(a):
        return lift(float(np.linalg.det(fl(a))))
    return det2([list(r) for r in a.view(np.ndarray)])


class _SlogdetResult(tuple):
    @property
    def sign(self):
        return self[0]

    @property
    def logabsdet(self):
        return self[1]


def l_slogdet(a, **k):
    a = _sq(a)
    if a.ndim == 2 and a.shape[0] > 3 and not is_sym(a):
        sg, ld = np.linalg.slogdet(fl(a))
        return _SlogdetResult((lift(float(sg)), lift(float(ld))))
    d = l_det(a)
    if isinstance(d, SArr):
        return _SlogdetResult((emap(S.sign_, d), emap(lambda x: S.ln_(S.abs_(x)), d)))
    if S.syn_pos(d) or S.CTX.known_pos(d):
        return _SlogdetResult((S.R_const(1), S.ln_(d)))
    return _SlogdetResult((S.sign_(d), S.ln_(S.abs_(d))))


def l_cholesky(a, *, upper=False, symmetrize_input=True, **k):
    a = _sq(a)
    if a.ndim > 2:
        return asarr([l_cholesky(x) for x in a])
    n = a.shape[0]
    if n > 3 and not is_sym(a):
        try:
            r = asarr(np.linalg.cholesky(fl(a)))
        except np.linalg.LinAlgError:
            return None
        return r.T if upper else r
    M = a.view(np.ndarray)
    L = np.empty((n, n), dtype=object)
    L[...] = S.R_const(0)
    nan = False
    for j in range(n):
        s = _num(M[j, j])
        for k_ in range(j):
            s = s - L[j, k_] * L[j, k_]
        if not (S.syn_pos(s) or S.CTX.known_pos(s)):
            if not S.truth(S.cmp_lt(S.R_const(0), s)):
                return None
        L[j, j] = S.sqrt_(s)
        for i in range(j + 1, n):
            t = _num(M[i, j])
            for k_ in range(j):
                t = t - L[i, k_] * L[j, k_]
            L[i, j] = S.div(t, L[j, j])
    out = L.view(SArr)
    return out.T if upper else out


def np_cholesky(a, **k):
    r = l_cholesky(a, **k)
    if r is None:
        raise np.linalg.LinAlgError("Matrix is not positive definite")
    return r


def jnp_cholesky(a, **k):
    r = l_cholesky(a, **k)
    if r is None:
        a = asarr(a)
        o = np.empty(a.shape, dtype=object)
        o[...] = math.nan
        return o.view(SArr)
    return r


def l_inv(a):
    a = _sq(a)
    if a.ndim > 2:
        return asarr([l_inv(x) for x in a])
    n = a.shape[0]
    if n > 3 and not is_sym(a):
        return asarr(np.linalg.inv(fl(a)))
    M = [list(r) for r in a.view(np.ndarray)]
    d = det2(M)
    if not (S.syn_pos(d) or S.CTX.known_nonzero(d)):
        if S.truth(S.cmp_eq(d, S.R_const(0))):
            raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            co = det2(minor) if n > 1 else S.R_const(1)
            out[i, j] = S.div(co if (i + j) % 2 == 0 else -co, d)
    return out.view(SArr)


def l_solve(a, b, **k):
    return matmul(l_inv(a), b)


def tri_solve(a, b, lower=True, unit=False):
    """solve a x = b, a triangular"""
    a = asarr(a).view(np.ndarray)
    b = asarr(b)
    vec = b.ndim == 1
    Bm = (b.view(np.ndarray)[:, None] if vec else b.view(np.ndarray))
    n = a.shape[0]
    X = np.empty(Bm.shape, dtype=object)
    rng = range(n) if lower else range(n - 1, -1, -1)
    for c in range(Bm.shape[1]):
        for i in rng:
            t = _num(Bm[i, c])
            js = range(i) if lower else range(i + 1, n)
            for j in js:
                t = t - _num(a[i, j]) * X[j, c]
            X[i, c] = t if unit else S.div(t, _num(a[i, i]))
    return (X[:, 0] if vec else X).view(SArr)


def l_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro") or (ord == 2 and asarr(x).ndim > 1 and axis is None):
        raise Unsupported("norm ord")
    x = asarr(x)
    return emap(_f1(S.sqrt_), f_sum(emap(s_mul, x, x), axis, keepdims=keepdims))


class EigVals(np.ndarray):
    pass


def l_eigvals(a, *args, **k):
    """eigenvalues: for 2x2 symmetric / diagonal exact; otherwise fresh values constrained by the
    characteristic polynomial's sign conditions (symmetric case: all > 0 iff leading minors > 0)."""
    a = _sq(a)
    n = a.shape[0]
    if n > 2 and not is_sym(a):
        return np.linalg.eigvals(fl(a))
    M = a.view(np.ndarray)
    off0 = all(isinstance(M[i, j], R) and not M[i, j].t for i in range(n) for j in range(n) if i != j)
    if off0 or n == 1:
        return asarr([M[i, i] for i in range(n)])
    name = "eig" + "_".join(str(getattr(e, "h", e)) for e in M.flat)
    vals = [S.uf(f"{name}#{i}") for i in range(n)]
    if not getattr(S.CTX, "pc", None) is None:
        ctx = S.CTX
        minors = [det2([list(r[:k_]) for r in M[:k_]]) for k_ in range(1, n + 1)]
        pd = S.and_(*[S.cmp_lt(S.R_const(0), m) for m in minors])
        # smallest eigenvalue positive <=> Sylvester (for symmetric matrices)
        allpos = S.and_(*[S.cmp_lt(S.R_const(0), v) for v in vals])
        return EigProxy(vals, pd, M)
    raise Unsupported("eigenvalues")


class EigProxy:
    """eigenvalues of a symmetric matrix; only their signs are represented (Sylvester)."""

    _symbolic_ = True

    def __init__(self, vals, pd, M):
        self.vals, self.pd, self.M = vals, pd, M
        self.shape = (len(vals),)
        self.real = self

    def __len__(self):
        return len(self.vals)

    def _sylv(self):
        # the equivalence needs symmetry: require it on this path
        n = self.shape[0]
        for i in range(n):
            for j in range(i):
                if not S.truth(f_isclose(self.M[i, j], self.M[j, i], 1e-4, 1e-6)):
                    raise Unsupported("eigenvalues of a non-symmetric matrix")
        return self.pd

    def _zero(self, x):
        return not isinstance(x, np.ndarray) and float(x) == 0 or (not is_sym(x) and abs(float(x)) < 1e-5)

    def _psd(self):
        """positive semi-definite <=> all principal minors non-negative"""
        self._sylv()
        n = self.shape[0]
        out = []
        for k in range(1, n + 1):
            for sub in itertools.combinations(range(n), k):
                out.append(S.cmp_le(S.R_const(0), det2([[self.M[i, j] for j in sub] for i in sub])))
        return S.and_(*out)

    def __gt__(self, o):
        return EigCmp(self, ">", o)

    def __ge__(self, o):
        return EigCmp(self, ">=", o)

    def __le__(self, o):
        return EigCmp(self, "<=", o)

    def __lt__(self, o):
        return EigCmp(self, "<", o)

    def min(self, *a, **k):
        return EigMin(self)

    def __iter__(self):
        return iter([EigMin(self) for _ in range(len(self.vals))])

    def __getitem__(self, i):
        if i == 0:
            return EigMin(self)
        raise Unsupported("individual eigenvalues")

    def prod(self):
        return det2([list(r) for r in self.M])

    def sum(self):
        return f_trace(self.M.view(SArr))


class EigMin:
    def __init__(self, p):
        self.p = p

    def _s(self, o):
        if not self.p._zero(o):
            raise Unsupported("eigenvalue compared with a non-zero bound")
        return self.p._sylv()

    def __gt__(self, o):
        return self._s(o)

    def __ge__(self, o):
        self._s(o)
        return self.p._psd()

    def __lt__(self, o):
        return S.not_(self.__ge__(o))

    def __le__(self, o):
        return S.not_(self._s(o))


class EigCmp:
    """elementwise comparison of all eigenvalues with a bound near zero"""

    _symbolic_ = True

    def __init__(self, p, op, o):
        if not p._zero(o):
            raise Unsupported("eigenvalues compared with a non-zero bound")
        self.p, self.op = p, op

    def all(self, *a, **k):
        if self.op == ">":
            return self.p._sylv()
        if self.op == ">=":
            return self.p._psd()
        raise Unsupported("all eigenvalues non-positive")

    def any(self, *a, **k):
        if self.op == "<=":
            return S.not_(self.p._sylv())
        if self.op == "<":
            return S.not_(self.p._psd())
        raise Unsupported("any eigenvalue positive")

    def __iter__(self):
        raise Unsupported("iterating eigenvalue comparisons")

    def __invert__(self):
        return EigCmp(self.p, {">": "<=", ">=": "<", "<": ">=", "<=": ">"}[self.op], 0)


def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = asarr(m)
    if X.ndim == 1:
        X = X.reshape(1, -1)
    elif not rowvar:
        X = X.T
    if y is not None:
        Y = asarr(y)
        if Y.ndim == 1:
            Y = Y.reshape(1, -1)
        elif not rowvar:
            Y = Y.T
        X = np.concatenate([X.view(np.ndarray), Y.view(np.ndarray)], axis=0).view(SArr)
    if ddof is None:
        ddof = 0 if bias else 1
    n = X.shape[1]
    d = emap(s_sub, X, f_mean(X, axis=1, keepdims=True))
    c = emap(s_div, asarr(matmul(d, d.T)), n - ddof)
    return un0(c.squeeze())


def f_corrcoef(x, y=None, rowvar=True, **k):
    c = f_cov(x, y, rowvar)
    if not isinstance(c, SArr):
        return S.R_const(1)
    d = [S.sqrt_(c[i, i]) for i in range(c.shape[0])]
    out = np.empty(c.shape, dtype=object)
    for i in range(len(d)):
        for j in range(len(d)):
            out[i, j] = S.R_const(1) if i == j else S.div(c[i, j], d[i] * d[j])
    return out.view(SArr)


def f_concatenate(arrays, axis=0, **k):
    arrays = [asarr(a) for a in arrays]
    if axis is None:
        arrays = [a.ravel() for a in arrays]
        axis = 0
    return np.concatenate([a.view(np.ndarray) for a in arrays], axis=int(axis)).view(SArr)


def _many(f):
    def g(arrays, *a, **k):
        k.pop("dtype", None)
        k.pop("casting", None)
        return f([asarr(x).view(np.ndarray) for x in arrays], *a, **k).view(SArr)

    return g


def f_einsum(spec, *ops, **k):
    ins, _, out = spec.replace(" ", "").partition("->")
    ins = ins.split(",")
    ops = [asarr(o).view(np.ndarray) for o in ops]
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    if not _:
        cnt = "".join(ins)
        out = "".join(sorted(ch for ch in set(cnt) if cnt.count(ch) == 1))
    summed = [ch for ch in dims if ch not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        acc = S.R_const(0)
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = S.R_const(1)
            for s, o in zip(ins, ops):
                t = s_mul(t, o[tuple(env[c] for c in s)])
            acc = s_addn(acc, t)
        res[oi] = acc
    return res[()] if res.ndim == 0 else res.view(SArr)


def f_logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False, where=None):
    a = asarr(a)
    if where is not None:
        a = f_where(where, a, -math.inf)
    e = emap(lambda x: S.exp_(_num(x)), a)
    if b is not None:
        e = emap(s_mul, e, b)
    s = f_sum(e, axis, keepdims=keepdims)
    return emap(s_log, s)


def f_searchsorted(a, v, side="left", sorter=None):
    a = asarr(a)

    def one(x):
        acc = S.R_const(0)
        for e in a.flat:
            c = less(e, x) if side == "left" else S.not_(less(x, e))
            acc = acc + _num(c)
        return acc

    return emap(one, v)


def f_digitize(x, bins, right=False):
    return f_searchsorted(bins, x, side="left" if right else "right")


def f_histogramdd(sample, bins=10, range=None, density=None, weights=None):
    smp = asarr(sample)
    if smp.ndim == 1:
        smp = smp.reshape(-1, 1)
    n, d = smp.shape
    if isinstance(bins, (int, np.integer, R)):
        bins = [bins] * d
    nb = []
    for b in bins:
        if isinstance(b, np.ndarray) and b.ndim:
            raise Unsupported("explicit histogram edges")
        b = un0(b)
        bi = int(b)
        if bi < 1:
            raise ValueError("`bins` must be positive, when an integer")
        nb.append(bi)
    los, his, edges = [], [], []
    for j in builtins_range(d):
        if range is not None and range[j] is not None:
            lo, hi = lift(range[j][0]), lift(range[j][1])
        else:
            lo, hi = reduce_(s_min, smp[:, j]), reduce_(s_max, smp[:, j])
        if S.truth(S.cmp_eq(lo, hi)):
            lo, hi = lo - Fraction(1, 2), hi + Fraction(1, 2)
        los.append(lo)
        his.append(hi)
        edges.append(asarr([lo + (hi - lo) * Fraction(k, nb[j]) for k in builtins_range(nb[j] + 1)]))
    H = np.empty(tuple(nb), dtype=object)
    H[...] = S.R_const(0)
    # membership of point i in bin k of coordinate j
    memb = []
    for i in builtins_range(n):
        row = []
        for j in builtins_range(d):
            x = _num(smp[i, j])
            ge = [S.cmp_le(edges[j][k], x) for k in builtins_range(nb[j] + 1)]
            cells = []
            for k in builtins_range(nb[j]):
                up = S.not_(ge[k + 1]) if k < nb[j] - 1 else S.cmp_le(x, edges[j][k + 1])
                cells.append(S.and_(ge[k], up))
            row.append(cells)
        memb.append(row)
    w = asarr(weights) if weights is not None else None
    if HIST_FORK["on"]:
        # decide the cell of every point by forking
        for i in builtins_range(n):
            idx = []
            for j in builtins_range(d):
                for k in builtins_range(nb[j]):
                    if k == nb[j] - 1 and range is None:
                        idx.append(k)
                        break
                    if S.truth(memb[i][j][k]):
                        idx.append(k)
                        break
                else:
                    idx = None
                    break
            if idx is not None:
                H[tuple(idx)] = H[tuple(idx)] + (w[i] if w is not None else 1)
    else:
        for cell in np.ndindex(*nb):
            acc = S.R_const(0)
            for i in builtins_range(n):
                acc = acc + _num(S.and_(*[memb[i][j][cell[j]] for j in builtins_range(d)])) * (w[i] if w is not None else 1)
            H[cell] = acc
    if density:
        raise Unsupported("density histogram")
    return H.view(SArr), edges


HIST_FORK = {"on": True}
builtins_range = range


def f_histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    H, e = f_histogramdd(np.stack([asarr(x).view(np.ndarray), asarr(y).view(np.ndarray)], axis=1).view(SArr), bins, range, density, weights)
    return H, e[0], e[1]


def f_histogram(a, bins=10, range=None, density=None, weights=None):
    H, e = f_histogramdd(asarr(a).reshape(-1, 1), [bins], None if range is None else [range], density, weights)
    return H, e[0]


def f_full(shape, v, dtype=None, **k):
    sh = _shape(shape)
    out = np.empty(sh, dtype=object)
    v = asarr(v)
    out[...] = v.view(np.ndarray) if v.ndim else v.flat[0]
    return out.view(SArr)


def _shape(s):
    if isinstance(s, (int, np.integer, R)):
        return (int(s),)
    if isinstance(s, np.ndarray):
        return tuple(int(e) for e in s.flat)
    return tuple(int(x) for x in s)


def f_zeros(shape, dtype=None, **k):
    return f_full(shape, False if dtype is not None and np.dtype(_np_dtype(dtype)).kind == "b" else 0)


def f_ones(shape, dtype=None, **k):
    return f_full(shape, 1)


def f_eye(n, m=None, k=0, dtype=None, **kw):
    n = int(n)
    m = n if m is None else int(m)
    o = f_zeros((n, m))
    for i in range(n):
        if 0 <= i + k < m:
            np.ndarray.__setitem__(o, (i, i + int(k)), S.R_const(1))
    return o


def f_arange(*args, dtype=None, **k):
    c = [conc(lift(a)) if isinstance(a, (R,)) else a for a in args]
    return np.arange(*c)


def f_array(x, dtype=None, copy=True, ndmin=0, **k):
    a = arr(x)
    if dtype is not None:
        a = a.astype(dtype)
    while a.ndim < ndmin:
        a = a[None]
    return a


def f_asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        return x if dtype is None else x.astype(dtype)
    return f_array(x, dtype)


def f_unique(a, *args, **k):
    if args or k:
        raise Unsupported("unique with options on symbolic values")
    a = asarr(a).ravel()
    s = f_sort(a)
    out = []
    for x in s:
        if not out or not S.truth(s_eq(out[-1], x)):
            out.append(x)
    return asarr(out)


def f_median(a, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    s = np.moveaxis(f_sort(a, axis).view(np.ndarray), axis, 0)
    n = s.shape[0]
    m = emap(lambda x, y: (_num(x) + _num(y)) / 2, s[(n - 1) // 2].view(SArr) if s.ndim > 1 else s[(n - 1) // 2], s[n // 2].view(SArr) if s.ndim > 1 else s[n // 2])
    return m


def f_outer(a, b, out=None):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return emap(s_mul, a[:, None], b[None, :])


def f_diag(v, k=0):
    v = asarr(v)
    k = int(k)
    if v.ndim == 1:
        n = len(v) + abs(k)
        o = f_zeros((n, n))
        for i in range(len(v)):
            np.ndarray.__setitem__(o, (i + max(-k, 0), i + max(k, 0)), v[i])
        return o
    return np.diagonal(v.view(np.ndarray), k).copy().view(SArr)


def f_fill_diagonal(a, val, wrap=False):
    v = asarr(val)
    for i in range(min(a.shape)):
        np.ndarray.__setitem__(a, (i,) * a.ndim, v.flat[i % v.size] if v.ndim else v.flat[0])


def f_average(a, axis=None, weights=None, **k):
    if weights is None:
        return f_mean(a, axis)
    w = asarr(weights)
    a = asarr(a)
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        w = w.reshape([-1 if i == axis % a.ndim else 1 for i in range(a.ndim)])
    return emap(s_div, f_sum(emap(s_mul, a, w), axis), f_sum(emap(lambda x, y: _num(y), a, w), axis))


def f_atleast(n):
    def g(*xs):
        out = []
        for x in xs:
            a = asarr(x)
            out.append(getattr(np, f"atleast_{n}d")(a.view(np.ndarray)).view(SArr))
        return out[0] if len(out) == 1 else out

    return g


def f_vectorize(*a, **k):
    raise Unsupported("vectorize")


def _like(v):
    def g(a, *args, dtype=None, **k):
        return f_full(np.shape(a), v)

    return g


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        if isinstance(e, float):
            if e != e:
                return nan
            return (posinf if posinf is not None else 3.4e38) if e > 0 else (neginf if neginf is not None else -3.4e38)
        return e

    return emap(f, x)


def f_tri(keep):
    def g(m, k=0):
        m = asarr(m)
        o = m.copy()
        for idx in np.ndindex(*m.shape):
            i, j = idx[-2], idx[-1]
            if not keep(i, j, int(k)):
                np.ndarray.__setitem__(o, idx, S.R_const(0))
        return o

    return g


def f_array_split(*a, **k):
    raise Unsupported("array_split")


def f_take_along_axis(a, idx, axis):
    if _has_order(idx) and asarr(a).ndim == 2 and axis in (1, -1):
        return asarr(a)[np.arange(len(idx))[:, None], idx]
    idx = _force_order(idx)
    i = asarr(idx)
    return np.take_along_axis(asarr(a).view(np.ndarray), np.array([int(e) for e in i.flat]).reshape(i.shape), axis).view(SArr)


def f_take(a, idx, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    ii = _idx(a, idx)
    if _has_symidx(ii):
        ii = _concretize_idx(a, ii) if axis else ii
        if axis == 0:
            return a[ii]
    return un0(np.take(a.view(np.ndarray), ii, axis=int(axis)).view(SArr)) if not np.isscalar(ii) or a.ndim > 1 else a[int(ii)]


def f_linspace(a, b, num=50, endpoint=True, **k):
    a, b = lift(un0(a)), lift(un0(b))
    n = int(num)
    d = n - 1 if endpoint else n
    return asarr([a + (b - a) * Fraction(i, d) if d else a for i in range(n)])


def f_size(a, axis=None):
    return np.size(np.asarray(asarr(a)), axis)


def f_delete(a, obj, axis=None):
    return np.delete(asarr(a).view(np.ndarray), conc(obj), axis).view(SArr)


def _nat(f):
    """run a structural numpy function on the plain object array"""
    def g(a, *args, **k):
        args = [conc(x) if has_terms(x) else x for x in args]
        k = {q: (conc(v) if has_terms(v) else v) for q, v in k.items()}
        r = f(asarr(a).view(np.ndarray), *args, **k)
        if isinstance(r, np.ndarray) and r.dtype == object:
            return r.view(SArr)
        if isinstance(r, (list, tuple)):
            return type(r)(x.view(SArr) if isinstance(x, np.ndarray) and x.dtype == object else x for x in r)
        return r

    return g


def _maybe_list(f):
    return f


FUNCS = {
    "sum": f_sum, "mean": f_mean, "nanmean": f_mean, "nansum": f_sum, "var": f_var, "std": f_std, "average": f_average,
    "prod": lambda a, axis=None, keepdims=False, **k: reduce_(s_mul, a, axis, keepdims is True, 1),
    "max": lambda a, axis=None, out=None, keepdims=False, **k: reduce_(s_max, a, axis, keepdims is True),
    "min": lambda a, axis=None, out=None, keepdims=False, **k: a.min() if isinstance(a, EigProxy) else reduce_(s_min, a, axis, keepdims is True),
    "all": lambda a, axis=None, out=None, keepdims=False, **k: a.all() if isinstance(a, EigCmp) else asarr(a).all(axis, keepdims=keepdims is True),
    "any": lambda a, axis=None, out=None, keepdims=False, **k: a.any() if isinstance(a, EigCmp) else asarr(a).any(axis, keepdims=keepdims is True),
    "cumsum": f_cumsum, "cumprod": lambda a, axis=None, **k: asarr(a).cumprod(axis),
    "argpartition": f_argpartition, "partition": f_partition, "argsort": f_argsort, "sort": f_sort, "argmax": lambda a, axis=None, **k: asarr(a).argmax(axis),
    "argmin": lambda a, axis=None, **k: asarr(a).argmin(axis), "dot": f_dot, "inner": lambda a, b: f_dot(a, asarr(b).T),
    "vdot": lambda a, b: f_dot(asarr(a).ravel(), asarr(b).ravel()), "outer": f_outer, "trace": f_trace, "clip": f_clip,
    "where": f_where, "isclose": f_isclose, "allclose": f_allclose, "array_equal": f_array_equal, "diff": f_diff,
    "det": l_det, "slogdet": l_slogdet, "inv": l_inv, "solve": l_solve, "norm": l_norm, "eigvals": l_eigvals,
    "eigvalsh": l_eigvals, "cov": f_cov, "corrcoef": f_corrcoef, "concatenate": f_concatenate,
    "cholesky": np_cholesky,
    "vstack": _many(np.vstack), "hstack": _many(np.hstack), "dstack": _many(np.dstack), "column_stack": _many(np.column_stack),
    "stack": lambda arrays, axis=0, **k: np.stack([asarr(x).view(np.ndarray) for x in arrays], axis=int(axis)).view(SArr),
    "einsum": f_einsum, "logsumexp": f_logsumexp, "searchsorted": f_searchsorted, "digitize": f_digitize,
    "histogramdd": f_histogramdd, "histogram2d": f_histogram2d, "histogram": f_histogram, "full": f_full,
    "zeros": f_zeros, "ones": f_ones, "empty": f_zeros, "eye": f_eye, "identity": f_eye, "array": f_array,
    "asarray": f_asarray, "asanyarray": f_asarray, "ascontiguousarray": f_asarray, "unique": f_unique, "median": f_median,
    "diag": f_diag, "fill_diagonal": f_fill_diagonal, "atleast_1d": f_atleast(1), "atleast_2d": f_atleast(2),
    "zeros_like": _like(0), "ones_like": _like(1), "empty_like": _like(0),
    "full_like": lambda a, v, **k: f_full(np.shape(a), v),
    "nan_to_num": f_nan_to_num, "triu": f_tri(lambda i, j, k: j >= i + k), "tril": f_tri(lambda i, j, k: j <= i + k),
    "take": f_take, "take_along_axis": f_take_along_axis, "linspace": f_linspace, "delete": f_delete,
    "size": f_size, "shape": lambda a: asarr(a).shape, "ndim": lambda a: asarr(a).ndim,
    "copy": lambda a, **k: arr(a), "round": lambda a, decimals=0, **k: asarr(a).round(decimals),
    "reshape": lambda a, newshape=None, order="C", *, shape=None, **k: asarr(a).reshape(newshape if shape is None else shape, order=order), "ravel": lambda a, **k: asarr(a).ravel(),
    "squeeze": _nat(np.squeeze), "expand_dims": _nat(np.expand_dims), "transpose": _nat(np.transpose),
    "swapaxes": _nat(np.swapaxes), "moveaxis": _nat(np.moveaxis), "repeat": _nat(np.repeat), "tile": _nat(np.tile),
    "flip": _nat(np.flip), "roll": _nat(np.roll), "broadcast_to": _nat(np.broadcast_to), "diagonal": _nat(np.diagonal),
    "split": _nat(np.split), "array_split": _nat(np.array_split), "hsplit": _nat(np.hsplit), "flipud": _nat(np.flipud),
    "fliplr": _nat(np.fliplr), "rollaxis": _nat(np.rollaxis), "atleast_3d": f_atleast(3),
    "append": lambda a, v, axis=None: f_concatenate([asarr(a).ravel() if axis is None else a, asarr(v).ravel() if axis is None else v], axis or 0),
    "block": lambda rows: _block(rows), "isrealobj": lambda a: True, "iscomplexobj": lambda a: False,
    "tensordot": lambda a, b, axes=2: _nat2(np.tensordot, a, b, axes=axes), "kron": lambda a, b: _kron(a, b),
    "count_nonzero": lambda a, axis=None, **k: f_sum(emap(_bool, a), axis), "ptp": lambda a, axis=None, **k: asarr(a).max(axis) - asarr(a).min(axis),
    "nanmax": lambda a, axis=None, **k: asarr(a).max(axis), "nanmin": lambda a, axis=None, **k: asarr(a).min(axis),
    "result_type": lambda *a: np.dtype(float), "can_cast": lambda *a, **k: True,
    "may_share_memory": lambda a, b: np.may_share_memory(np.asarray(a), np.asarray(b)),
    "shares_memory": lambda a, b: np.shares_memory(np.asarray(a), np.asarray(b)),
    "nonzero": lambda a: f_where(emap(_bool, a)), "flatnonzero": lambda a: f_where(emap(_bool, asarr(a).ravel()))[0],
    "meshgrid": lambda *xs, **k: [m.view(SArr) for m in np.meshgrid(*[asarr(x).view(np.ndarray) for x in xs], **k)],
    "logspace": lambda a, b, num=50, base=10.0, **k: emap(lambda e: S.power(lift(base), e), f_linspace(a, b, num)),
    "matmul": matmul,
    "sum_": f_sum, "amax": lambda a, axis=None, out=None, keepdims=False, **k: reduce_(s_max, a, axis, keepdims is True),
    "amin": lambda a, axis=None, out=None, keepdims=False, **k: reduce_(s_min, a, axis, keepdims is True),
}
_SIGS: dict = {}


def _params(f):
    r = _SIGS.get(f)
    if r is None:
        try:
            r = list(inspect.signature(f).parameters.values())
        except (TypeError, ValueError):
            r = []
        _SIGS[f] = r
    return r


def call_func(h, fn, args, kw):
    """call the model h of fn with fn's own keyword names"""
    hp = _params(h)
    names = {p.name for p in hp}
    if kw and not all(k in names for k in kw):
        real = [p.name for p in _params(fn)]
        args, kw = list(args), dict(kw)
        for k in list(kw):
            if k in names or k not in real:
                continue
            i = real.index(k)
            if i < len(hp) and hp[i].kind is inspect.Parameter.POSITIONAL_OR_KEYWORD and hp[i].name not in kw and i >= len(args):
                kw[hp[i].name] = kw.pop(k)
            elif i == len(args):
                args.append(kw.pop(k))
    if hp:
        try:
            inspect.signature(h).bind(*args, **kw)
        except TypeError as e:
            raise Unsupported(f"{getattr(fn, '__name__', fn)}: {e}") from None
    return h(*args, **kw)


NATIVE = {"array_repr", "array_str", "array2string"}


def _nat2(f, a, b, **k):
    r = f(asarr(a).view(np.ndarray), asarr(b).view(np.ndarray), **k)
    return r.view(SArr) if isinstance(r, np.ndarray) and r.ndim else un0(r)


def _kron(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("kron")
    out = emap(s_mul, a[:, None, :, None], b[None, :, None, :])
    return out.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def _block(rows):
    if not isinstance(rows[0], (list, tuple)):
        return f_concatenate([np.atleast_2d(asarr(x).view(np.ndarray)) if asarr(x).ndim < 2 else x for x in rows], -1)
    return f_concatenate([f_concatenate([asarr(x) if asarr(x).ndim == 2 else asarr(x).reshape(1, -1) for x in r], 1) for r in rows], 0)


# ---- array-like methods on scalar terms
def _scalar_api(cls):
    def reshape(self, *shape, **k):
        return asarr(self).reshape(*shape)

    def __getitem__(self, i):
        if i is None or i is Ellipsis or i == () or isinstance(i, tuple):
            r = asarr(self)[i]
            return r
        raise IndexError("invalid index to scalar variable.")

    cls.reshape = reshape
    cls.__getitem__ = __getitem__
    cls.flatten = lambda self, *a: asarr(self).reshape(-1)
    cls.ravel = cls.flatten
    cls.squeeze = lambda self, *a, **k: self
    cls.tolist = lambda self: self
    cls.copy = lambda self: self
    cls.block_until_ready = lambda self: self
    cls.any = lambda self, *a, **k: _bool(self)
    cls.all = lambda self, *a, **k: _bool(self)
    cls.round = lambda self, nd=0: S.round_(_num(self), nd)
    cls.clip = lambda self, *a, **k: f_clip(self, *a, **k)
    cls.__iter__ = None


_scalar_api(R)
_scalar_api(B)


def _r_array(self, dtype=None, copy=None):
    # numpy converting a symbolic scalar: keep it as a 0-d object array
    o = np.empty((), dtype=object)
    o[()] = self
    return o.view(SArr)


# numpy ufuncs called with scalar terms
def _r_ufunc(self, ufunc, method, *inputs, **kw):
    return SArr.__array_ufunc__(asarr(self), ufunc, method, *inputs, **kw)


R.__array_ufunc__ = _r_ufunc
B.__array_ufunc__ = _r_ufunc


def _r_func(self, func, types, args, kwargs):
    return SArr.__array_function__(asarr(self), func, types, args, kwargs)


R.__array_function__ = _r_func
B.__array_function__ = _r_func
