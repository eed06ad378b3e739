"""TensorFlow-Probability objects with symbolic parameters: the constructor call is recorded, and methods are evaluated by tracing the
real object, rebuilt on traced parameters, through the jaxpr interpreter."""
from __future__ import annotations

import contextlib

import jax
import jax.numpy as jnp
import numpy as np

from . import sarr as A
from . import sym as S
from .sarr import SArr, asarr, conc, has_terms, is_sym
from .sym import B, R, Unsupported

_WR: dict = {}


class LazyMeta(type):
    def __instancecheck__(cls, x):
        if type.__instancecheck__(cls, x):
            return True
        real = cls.__dict__.get("_real")
        if real is None:
            return False
        if isinstance(x, Lazy):
            return issubclass(type(x)._real, real)
        return isinstance(x, real)

    def __subclasscheck__(cls, c):
        real = cls.__dict__.get("_real")
        if type.__subclasscheck__(cls, c):
            return True
        if real is None:
            return False
        cr = getattr(c, "_real", None)
        if isinstance(c, LazyMeta) and cr is not None:
            return issubclass(cr, real)
        return isinstance(c, type) and issubclass(c, real)

    def __getattr__(cls, k):
        if k.startswith("_"):
            raise AttributeError(k)
        return getattr(cls._real, k)


METHODS = {
    "log_prob", "prob", "forward", "inverse", "forward_log_det_jacobian", "inverse_log_det_jacobian", "mean", "covariance", "variance",
    "stddev", "mode", "entropy", "event_shape_tensor", "batch_shape_tensor", "cdf", "log_cdf", "to_dense", "matmul", "matvec", "solve",
    "unnormalized_log_prob", "kl_divergence", "cross_entropy", "log_abs_determinant", "__call__", "survival_function", "quantile",
    "probs_parameter", "logits_parameter", "diag_part", "determinant",
}


def _tree(o, leaves):
    """object -> rebuild closure; symbolic leaves are appended to leaves"""
    if isinstance(o, Lazy):
        a = [_tree(x, leaves) for x in o._args]
        k = {n: _tree(x, leaves) for n, x in o._kw.items()}
        real = type(o)._real
        return lambda ls: real(*[f(ls) for f in a], **{n: f(ls) for n, f in k.items()})
    if isinstance(o, (R, B, SArr)) or (isinstance(o, np.ndarray) and o.dtype == object):
        i = len(leaves)
        leaves.append(o)
        return lambda ls: ls[i]
    if isinstance(o, list):
        fs = [_tree(x, leaves) for x in o]
        return lambda ls: [f(ls) for f in fs]
    if isinstance(o, tuple):
        fs = [_tree(x, leaves) for x in o]
        return lambda ls: tuple(f(ls) for f in fs)
    if isinstance(o, dict):
        fs = {n: _tree(x, leaves) for n, x in o.items()}
        return lambda ls: {n: f(ls) for n, f in fs.items()}
    return lambda ls: o


@contextlib.contextmanager
def _exact():
    """while tracing, numerically-stabilised library functions are replaced by their mathematical definition"""
    from tensorflow_probability.substrates.jax.distributions import multivariate_student_t as mst
    from tensorflow_probability.substrates.jax.math import numeric, special
    from tensorflow_probability.substrates import jax as tfp

    lg = jax.lax.lgamma
    new = [
        (numeric, "log1psquare", lambda x, name=None: jnp.log1p(x * x)),
        (tfp.math, "log1psquare", lambda x, name=None: jnp.log1p(x * x)),
        (special, "log_gamma_difference", lambda x, y, name=None: lg(1.0 * y) - lg(1.0 * (x + y))),
        (tfp.math, "log_gamma_difference", lambda x, y, name=None: lg(1.0 * y) - lg(1.0 * (x + y))),
    ]
    import types

    for m in (mst,):
        for k, v in list(vars(m).items()):
            if k in ("log1psquare", "log_gamma_difference") and not isinstance(v, types.ModuleType):
                new.append((m, k, dict((b, c) for _, b, c in new)[k]))
    old = [(m, k, getattr(m, k)) for m, k, _ in new if hasattr(m, k)]
    try:
        for m, k, v in new:
            if hasattr(m, k):
                setattr(m, k, v)
        yield
    finally:
        for m, k, v in old:
            setattr(m, k, v)


class Lazy(metaclass=LazyMeta):
    _real = None

    def __init__(self, *args, **kw):
        from .world import _deep_unshim

        self._args = tuple(_deep_unshim(a) for a in args)
        self._kw = {k: _deep_unshim(v) for k, v in kw.items()}

    def _shadow(self):
        """a real object of the same shape with numeric stand-ins"""
        leaves = []
        b = _tree(self, leaves)
        ls = []
        for l in leaves:
            a = asarr(l)
            if not is_sym(a):
                ls.append(_num(a))
            elif a.ndim == 2 and a.shape[0] == a.shape[1]:
                ls.append(jnp.eye(a.shape[0]))
            else:
                ls.append(jnp.ones(a.shape))
        return b(ls)

    def _call(self, name, args, kw):
        from . import jx

        leaves = []
        b = _tree(self, leaves)
        al = []
        fa = _tree(tuple(args), al)
        fk = _tree(dict(kw), al)
        if not is_sym(leaves) and not is_sym(al):
            r = getattr(b([_num(l) for l in leaves]), name)(*fa([_num(l) for l in al]), **fk([_num(l) for l in al]))
            return _jout(r)

        def f(ls, xs):
            return getattr(b(ls), name)(*fa(xs), **fk(xs))

        with _exact():
            return jx.trace_call(f, (leaves, al), {})

    def sample(self, sample_shape=(), seed=None, name="sample", **kw):
        from . import overrides as O

        if kw:
            raise Unsupported("sample with extra arguments")
        ev = tuple(int(v) for v in self._shadow().event_shape)
        bs = tuple(int(v) for v in self._shadow().batch_shape)
        shape = O.shp(sample_shape) if not isinstance(sample_shape, int) else (sample_shape,)
        key = O.as_key(seed)
        O.ctx_log(("tfp_sample", self, key, shape))
        return O.fresh("tfp", key, shape + bs + ev, extra=f":{type(self)._real.__name__}:{self._ident()}")

    def _ident(self):
        leaves = []

        def walk(o):
            if isinstance(o, Lazy):
                return (type(o)._real.__name__, tuple(walk(x) for x in o._args), tuple((k, walk(v)) for k, v in sorted(o._kw.items())))
            if isinstance(o, (list, tuple)):
                return tuple(walk(x) for x in o)
            if isinstance(o, (R, B)):
                return o.h
            if isinstance(o, np.ndarray) and o.dtype == object:
                return (o.shape, tuple(getattr(S.lift(e), "h", e) if not isinstance(e, B) else e.h for e in o.flat))
            if isinstance(o, (np.ndarray, jax.Array)):
                return (o.shape, tuple(np.asarray(o).ravel().tolist()))
            if isinstance(o, (int, float, str)) or o is None:
                return o
            return id(o)

        return abs(hash(walk(self))) % 10 ** 12

    @property
    def event_shape(self):
        return self._shadow().event_shape

    @property
    def batch_shape(self):
        return self._shadow().batch_shape

    def experimental_sample_and_log_prob(self, *a, **k):
        raise Unsupported("sample_and_log_prob")

    def __getattr__(self, k):
        if k.startswith("__") or k in ("_args", "_kw"):
            raise AttributeError(k)
        if k in ("event_shape_tensor", "batch_shape_tensor"):
            return lambda *a, **kw: np.asarray(getattr(self._shadow(), k)(*a, **kw))
        if k in METHODS:
            return lambda *a, **kw: self._call(k, a, kw)
        return self._attr(k)

    def _attr(self, k):
        """constructor parameters are returned as given"""
        import inspect

        if k in self._kw:
            return self._kw[k]
        try:
            names = [p for p in inspect.signature(type(self)._real.__init__).parameters if p != "self"]
            if k in names:
                i = names.index(k)
                if i < len(self._args):
                    return self._args[i]
        except (TypeError, ValueError):
            pass
        sh = self._shadow()
        v = getattr(sh, k)  # AttributeError for unknown names
        if callable(v):
            return lambda *a, **kw: self._call(k, a, kw)
        if isinstance(v, (jax.Array, np.ndarray, float)):
            raise Unsupported(f"attribute {k} of a symbolic distribution")
        return v

    def __call__(self, *a, **k):
        if a and isinstance(a[0], Lazy):
            raise Unsupported("bijector composition by call")
        return self._call("__call__", a, k)

    def __deepcopy__(self, memo):
        return self


def _num(l):
    """a constant leaf as a float array"""
    if not (isinstance(l, (R, B, SArr)) or (isinstance(l, np.ndarray) and l.dtype == object)):
        return l
    v = np.asarray(conc(l))
    return jnp.asarray(v, dtype=jnp.float32) if v.dtype.kind in "fi" else jnp.asarray(v)


def _jout(x):
    from .world import jout

    return jout(x)


def wrap_class(c, full):
    if not isinstance(c, type):
        return None
    w = _WR.get(c)
    if w is None:
        w = LazyMeta(c.__name__, (Lazy,), {"_real": c, "__module__": c.__module__, "__doc__": c.__doc__})
        _WR[c] = w
    return w
