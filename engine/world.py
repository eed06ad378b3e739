"""A private copy of the bmi package, loaded from /repo's current source, whose imports of numeric
libraries go through shims that understand symbolic values."""
from __future__ import annotations

import builtins
import functools
import importlib
import inspect
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import sarr as A
from . import sym as S
from .sarr import SArr, asarr, conc, emap, has_terms, is_sym
from .sym import B, R, Unsupported, lift

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PRE = "symbmi"


# ------------------------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, R):
            return not x.is_int
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class float_(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        return to_float(x)

    @classmethod
    def __get_validators__(cls):
        yield cls._validate

    @classmethod
    def _validate(cls, v):
        if isinstance(v, (R, SArr)):
            return to_float(v)
        if isinstance(v, B):
            return v._r()
        from pydantic.validators import float_validator

        return float_validator(v)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, R):
            return x.is_int
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class int_(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        return to_int(x, *a)

    @classmethod
    def __get_validators__(cls):
        yield cls._validate

    @classmethod
    def _validate(cls, v):
        if isinstance(v, (R, SArr)):
            return to_int(v)
        from pydantic.validators import int_validator

        return int_validator(v)


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (range, SymRange))


class range_(metaclass=_RangeMeta):
    """range with symbolic integer ends: narrow ones are enumerated, wide ones are walked step by step"""

    def __new__(cls, *a):
        for v in a:
            if isinstance(v, R) and not v.is_const():
                lo, hi = S.CTX.int_bounds(v) if v.is_int else (None, None)
                if v.is_int and (lo is None or hi is None or hi - lo > 64):
                    return SymRange(*a)
        return range(*a)


class SymRange:
    LIMIT = 64

    def __init__(self, *a):
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) == 3 else 1)
        if S.truth(self.step == 0):
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        up = S.truth(self.step > 0)
        v = self.start
        for _ in range(self.LIMIT):
            if not S.truth(v < self.stop if up else v > self.stop):
                return
            yield v
            v = v + self.step
        raise S.Unsupported("a range with more than 64 steps")


float_.__name__ = "float"
float_.__qualname__ = "float"
int_.__name__ = "int"
int_.__qualname__ = "int"


def to_float(x=0.0):
    if isinstance(x, np.ndarray) and x.dtype == object:
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.flat[0]
    if isinstance(x, B):
        return x._r()
    if isinstance(x, R):
        return x
    if isinstance(x, (str, bytes)):
        s = x.decode() if isinstance(x, bytes) else x
        if "\x01" in s:
            parts = [p for p in S.text_terms(s.strip())]
            if len(parts) == 1 and not isinstance(parts[0], str):
                return parts[0][0]
            raise ValueError(f"could not convert string to float: {s!r}")
        return float(x)
    if hasattr(x, "_sym_array_"):
        return to_float(x._sym_array_())
    return float(x)


def to_int(x=0, *a):
    if isinstance(x, np.ndarray) and x.dtype == object:
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.flat[0]
    if isinstance(x, B):
        return x._r()
    if isinstance(x, R):
        if x.is_const():
            return int(x.const())
        return S.trunc_(x)
    if isinstance(x, float) and not isinstance(x, R):
        return int(x)
    return int(x, *a)


def _minmax(pick, native):
    def f(*args, key=None, default=_NO):
        xs = args[0] if len(args) == 1 else args
        if isinstance(xs, np.ndarray) and xs.dtype == object and xs.ndim == 1:
            xs = list(xs)
        else:
            xs = list(xs)
        if key is None and xs and any(isinstance(x, (R, B)) or (isinstance(x, np.ndarray) and x.dtype == object and x.ndim == 0) for x in xs):
            r = A.un0(xs[0])
            for y in xs[1:]:
                r = pick(r, A.un0(y))
            return r
        kw = {}
        if key is not None:
            kw["key"] = key
        if default is not _NO:
            kw["default"] = default
        return native(xs, **kw)

    return f


_NO = object()


def _round(x, nd=None):
    x = A.un0(x) if isinstance(x, np.ndarray) else x
    if isinstance(x, R):
        return S.round_(x, 0 if nd is None else int(nd))
    return round(x, nd) if nd is not None else round(x)


def _isinstance(x, t):
    return isinstance(x, t)


def _print(*a, **k):
    return None


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, B))

    def __subclasscheck__(cls, c):
        return issubclass(c, bool)


class bool_(int, metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SArr) and x.size == 1:
            x = x.flat[0]
        if isinstance(x, B):
            return x  # stays symbolic until branched on
        if isinstance(x, R):
            return S.cmp_ne(x, S.R_const(0))
        return bool(x)

    @classmethod
    def __get_validators__(cls):
        yield cls._validate

    @classmethod
    def _validate(cls, v):
        if isinstance(v, (B,)):
            return v
        from pydantic.validators import bool_validator

        return bool_validator(v)


bool_.__name__ = "bool"
bool_.__qualname__ = "bool"


def unshim(x):
    """replace shim types by the real ones in arguments passed to real functions"""
    if x is float_:
        return float
    if x is int_:
        return int
    if x is bool_:
        return bool
    if isinstance(x, Wrapped):
        return x.fn
    if isinstance(x, Shim):
        return x._real
    return x


# ------------------------------------------------------------------------------- module shims
OVERRIDES: dict = {}  # dotted name -> object
STUBS: dict = {}  # dotted name -> object, set by a harness (per path)


def override(name):
    def deco(f):
        OVERRIDES[name] = f
        return f

    return deco


class Shim(types.ModuleType):
    """attribute proxy for a real module"""

    def __init__(self, real, dotted):
        super().__init__(dotted)
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_dotted", dotted)
        object.__setattr__(self, "_memo", {})

    def __getattr__(self, name):
        if name.startswith("__") and name not in ("__version__", "__file__"):
            return getattr(self._real, name)
        full = f"{self._dotted}.{name}"
        if full in STUBS:
            return STUBS[full]
        if name in self._memo:
            return self._memo[name]
        v = wrap_attr(self._real, self._dotted, name)
        self._memo[name] = v
        return v

    def __dir__(self):
        return dir(self._real)


ALIASES = {
    "jax.numpy.linalg": "jnp.linalg", "jax.numpy": "jnp", "numpy": "np", "numpy.linalg": "np.linalg",
    "tensorflow_probability.substrates.jax": "tfp",
}


def wrap_attr(real, dotted, name):
    full = f"{dotted}.{name}"
    if full in OVERRIDES:
        return OVERRIDES[full]
    try:
        v = getattr(real, name)
    except AttributeError:
        # a sub-module that has not been imported yet
        try:
            v = importlib.import_module(f"{real.__name__}.{name}")
        except ImportError:
            raise AttributeError(f"module {dotted!r} has no attribute {name!r}") from None
    return wrap_value(v, full)


def wrap_value(v, full):
    if isinstance(v, types.ModuleType):
        return shim_module(v.__name__ if full.split(".")[0] != "tfp" else full, v, full)
    if isinstance(v, type):
        h = class_wrapper(v, full)
        return h if h is not None else v
    if isinstance(v, (float, int, str, tuple, list, dict, type(None))):
        return v
    if callable(v):
        return Wrapped(v, full)
    return v


_SHIMS: dict = {}


def shim_module(name, real=None, dotted=None):
    dotted = dotted or name
    s = _SHIMS.get(dotted)
    if s is None:
        if real is None:
            real = importlib.import_module(name)
        s = Shim(real, dotted)
        _SHIMS[dotted] = s
    return s


def class_wrapper(c, full):
    if full.startswith("tensorflow_probability") and any(s in full for s in (".distributions.", ".bijectors.", ".linalg.")):
        from . import lazytf

        return lazytf.wrap_class(c, full)
    return None


def _deep_unshim(x):
    if isinstance(x, (float, int, str)) or x is None:
        return x
    if isinstance(x, type) or isinstance(x, (Wrapped, Shim)):
        return unshim(x)
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(_deep_unshim(e) for e in x)
    if isinstance(x, list):
        return [_deep_unshim(e) for e in x]
    return x


CREATE = {"zeros", "ones", "empty", "eye", "identity", "full", "zeros_like", "empty_like", "ones_like", "full_like", "diag"}


class Wrapped:
    """a library function: symbolic arguments go to the engine, others to the real function"""

    def __init__(self, fn, full):
        self.fn = fn
        self.full = full
        try:
            functools.update_wrapper(self, fn)
        except (AttributeError, TypeError):
            pass

    def __getattr__(self, k):
        if k in ("fn", "full"):
            raise AttributeError(k)
        return getattr(self.fn, k)

    def __get__(self, obj, owner=None):
        return self

    def __call__(self, *args, **kw):
        if self.full in STUBS:
            return STUBS[self.full](*args, **kw)
        args = tuple(_deep_unshim(a) for a in args)
        kw = {k: _deep_unshim(v) for k, v in kw.items()}
        return dispatch(self.fn, self.full, args, kw)

    def __repr__(self):
        return f"<shim {self.full}>"


def dispatch(fn, full, args, kw):
    base, _, name = full.rpartition(".")
    lib = base.split(".")[0]
    if lib == "numpy":
        return np_call(fn, base, name, args, kw)
    if lib == "jax":
        return jax_call(fn, base, name, args, kw)
    if lib == "scipy":
        return scipy_call(fn, base, name, args, kw)
    if lib == "math":
        return math_call(fn, name, args, kw)
    syms = is_sym_deep(args) or is_sym_deep(kw)
    if not syms:
        return fn(*conc_deep(args), **conc_deep(kw))
    raise Unsupported(f"library call {full} with symbolic arguments")


def is_sym_deep(x):
    if isinstance(x, (list, tuple)):
        return any(is_sym_deep(e) for e in x)
    if isinstance(x, dict):
        return any(is_sym_deep(e) for e in x.values())
    return is_sym(x)


def conc_deep(x):
    if isinstance(x, (list, tuple, dict, R, B, SArr)):
        return conc(x)
    return x


def np_call(fn, base, name, args, kw):
    if base.startswith("numpy.random"):
        raise Unsupported(f"numpy.random.{name}")
    terms = has_terms(args) or has_terms(kw)
    if not terms:
        if name in CREATE and base == "numpy":
            dt = kw.get("dtype")
            if dt in (int, bool, str, object) or (dt is not None and np.dtype(dt).kind not in "f"):
                return fn(*args, **kw)
            if name == "diag":
                return fn(*args, **kw)
            return A.call_func(A.FUNCS[name], fn, args, kw)
        return fn(*args, **kw)
    if isinstance(fn, np.ufunc):
        out = kw.pop("out", None)
        if out is not None:
            return SArr.__array_ufunc__(asarr(args[0]), fn, "__call__", *args, out=out)
        if name == "matmul":
            return A.matmul(*args)
        f = A.UFUNCS.get(name)
        if f is None:
            raise Unsupported(f"ufunc {name}")
        return emap(f, *args[: fn.nin])
    h = A.FUNCS.get(name)
    if h is not None:
        return A.call_func(h, fn, args, kw)
    if name == "isscalar":
        return True if isinstance(args[0], (R, B)) else np.isscalar(conc(args[0]))
    if not is_sym_deep(args) and not is_sym_deep(kw):
        return fn(*conc_deep(args), **conc_deep(kw))
    from . import jx

    return jx.np_fallback(fn, args, kw)


JNP_SPECIAL = {"cholesky": A.jnp_cholesky, "std": A.f_std, "var": A.f_var}


def jout(x):
    """results in the jax world are symbolic arrays"""
    import jax

    if isinstance(x, jax.Array):
        a = np.asarray(x)
        if a.dtype.kind in "fiub" and a.size <= 20000:
            return A.un0(asarr(a)) if a.ndim == 0 and False else asarr(a)
        return x
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[jout(e) for e in x])
    if isinstance(x, (tuple, list)):
        return type(x)(jout(e) for e in x)
    if isinstance(x, dict):
        return {k: jout(v) for k, v in x.items()}
    return x


def jax_call(fn, base, name, args, kw):
    from . import jx

    if base.startswith("jax.numpy"):
        h = JNP_SPECIAL.get(name) or A.FUNCS.get(name)
        if name in A.UFUNCS and name not in ("round",):
            if not kw:
                u = A.UFUNCS[name]
                nin = u.__code__.co_argcount
                if len(args) == nin:
                    return emap(u, *args)
        if name == "einsum" and (not isinstance(args[0], str) or "..." in args[0]):
            h = None
        if name in ("arange",) and not is_sym_deep(args):
            return jout(fn(*conc_deep(args), **conc_deep(kw)))
        if h is not None:
            kw.pop("precision", None)
            r = A.call_func(h, fn, args, kw)
            if isinstance(r, np.ndarray) and r.dtype != object:
                return asarr(r)
            return r
    if base.startswith("jax.scipy"):
        if name in A.UFUNCS and not kw:
            return emap(A.UFUNCS[name], *args)
        if name == "logsumexp":
            return A.f_logsumexp(*args, **kw)
        if name == "cho_solve" or name == "solve":
            pass
    if not has_terms(args) and not has_terms(kw):
        return jout(fn(*args, **kw))
    if name in ("issubdtype", "result_type", "shape", "ndim"):
        return fn(*conc_deep(args), **kw)
    if base.startswith("jax.tree_util") or base.startswith("jax.tree"):
        return fn(*args, **kw)
    return jx.trace_call(fn, args, kw)


def scipy_call(fn, base, name, args, kw):
    if not is_sym_deep(args) and not is_sym_deep(kw):
        if base == "scipy.special" and name in A.UFUNCS and has_terms(args):
            return emap(A.UFUNCS[name], *args)
        if base == "scipy.special" and name in ("digamma", "psi") and len(args) == 1 and not kw:
            a = np.asarray(args[0])  # exact at positive integers: a rational minus Euler's constant
            if a.dtype.kind in "iu" and a.size and 0 < a.min() and a.max() <= 400:
                return emap(A.UFUNCS[name], args[0]) if a.ndim else S.digamma_(lift(int(a)))
        return fn(*conc_deep(args), **conc_deep(kw))
    if base == "scipy.special":
        if name in A.UFUNCS:
            return emap(A.UFUNCS[name], *args)
        if name == "logsumexp":
            return A.f_logsumexp(*args, **kw)
    if base == "scipy.linalg" and name in ("det", "inv", "cholesky", "solve"):
        if name == "cholesky":
            return A.np_cholesky(args[0], upper=not kw.get("lower", False))
        return A.FUNCS[name](*args)
    if base == "scipy.stats" and name == "norm":
        pass
    raise Unsupported(f"scipy function {base}.{name} with symbolic arguments")


MATH = {
    "log": lambda x, b=None: A.s_log(x) if b is None else A.s_div(A.s_log(x), A.s_log(lift(b))), "exp": A.UFUNCS["exp"], "sqrt": A.UFUNCS["sqrt"],
    "sin": A.UFUNCS["sin"], "cos": A.UFUNCS["cos"], "tanh": A.UFUNCS["tanh"], "asinh": A.UFUNCS["arcsinh"], "floor": A.UFUNCS["floor"],
    "ceil": A.UFUNCS["ceil"], "fabs": A.UFUNCS["absolute"], "isnan": A.s_isnan, "isinf": A.s_isinf, "isfinite": A.s_isfinite,
    "log2": A.UFUNCS["log2"], "log1p": A.UFUNCS["log1p"], "expm1": A.UFUNCS["expm1"], "erf": A.UFUNCS["erf"], "lgamma": A.UFUNCS["gammaln"],
    "gamma": A.UFUNCS["gamma"], "pow": A.s_pow, "trunc": A.UFUNCS["trunc"], "log10": A.UFUNCS["log10"], "atan": A.UFUNCS["arctan"],
    "hypot": A.UFUNCS["hypot"], "copysign": None, "sinh": A.UFUNCS["sinh"], "cosh": A.UFUNCS["cosh"], "tan": A.UFUNCS["tan"],
    "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: A.f_isclose(a, b, rel_tol, abs_tol), "fsum": lambda xs: A.f_sum(asarr(list(xs))),
    "prod": lambda xs, start=1: A.reduce_(A.s_mul, asarr(list(xs)), init=start), "erfc": A.UFUNCS["erfc"],
}


def math_call(fn, name, args, kw):
    if not has_terms(args) and not has_terms(kw):
        return fn(*args, **kw)
    if not is_sym_deep(args):
        try:
            return fn(*conc_deep(args), **kw)
        except (ValueError, OverflowError):
            raise
    h = MATH.get(name)
    if h is None:
        raise Unsupported(f"math.{name}")
    args = tuple(A.un0(a) if isinstance(a, np.ndarray) else (lift(a) if isinstance(a, (int, float)) else a) for a in args)
    if name in ("log", "log2", "log10", "log1p"):
        x = args[0] + (1 if name == "log1p" else 0)
        if not S.truth(x > 0):
            raise ValueError("math domain error")
    if name == "sqrt" and not S.truth(args[0] >= 0):
        raise ValueError("math domain error")
    r = h(*args, **kw)
    return r


# ------------------------------------------------------------------------------- loader
SHIMMED = ("numpy", "jax", "scipy", "math", "tensorflow_probability", "optax", "equinox", "sklearn", "pandas", "pydantic", "subprocess",
           "tempfile", "time", "tqdm", "numpyro", "matplotlib", "mpl_toolkits", "os", "pathlib", "yaml")
# modules that are left real unless a harness stubs something in them
TRANSPARENT = ("tempfile", "time", "os", "pathlib", "yaml", "tqdm", "subprocess", "pandas", "matplotlib", "mpl_toolkits")


class World:
    def __init__(self):
        self.builtins = dict(vars(builtins))
        self.builtins.update(
            __import__=self.imp, float=float_, int=int_, bool=bool_, min=_minmax(S.min_, builtins.min), max=_minmax(S.max_, builtins.max),
            round=_round, print=_print, range=range_, sorted=A.py_sorted,
        )
        self.loaded = {}

    # ---- import machinery
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            parts = pkg.split(".")
            base = ".".join(parts[: len(parts) - (level - 1)])
            full = base + ("." + name if name else "")
            real = "bmi" + full[len(PRE):] if full.startswith(PRE) else full
            return self._bmi(real, fromlist or ("",), leaf=True)
        top = name.split(".")[0]
        if top == "bmi":
            return self._bmi(name, fromlist)
        if top in SHIMMED and (name in STUBMODS or top not in ()):
            importlib.import_module(name)
            if fromlist:
                # make sure sub-modules named in fromlist are importable
                return self._shim_leaf(name)
            return self._shim_leaf(top)
        return importlib.__import__(name, globals, locals, fromlist, level)

    def _shim_leaf(self, name):
        real = sys.modules[name]
        if name == "tensorflow_probability.substrates.jax":
            return shim_module(name, real)
        return shim_module(name, real)

    def _bmi(self, name, fromlist, leaf=False):
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f and f != "*" and not hasattr(m, f):
                    try:
                        self.load(f"{name}.{f}")
                    except ModuleNotFoundError:
                        pass
            return m
        return self.load("bmi")

    def path_of(self, name):
        p = os.path.join(SRC, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        raise ModuleNotFoundError(f"No module named {name!r}")

    def load(self, name):
        sym = PRE + name[len("bmi"):]
        m = sys.modules.get(sym)
        if m is not None:
            return m
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            m = sys.modules.get(sym)
            if m is not None:
                return m
        path, pkg = self.path_of(name)
        m = types.ModuleType(sym)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        m.__package__ = sym if pkg else sym.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)] if path else []
        sys.modules[sym] = m
        self.loaded[name] = m
        try:
            if name in MODSTUBS:
                m.__dict__.update(MODSTUBS[name])
            elif path:
                exec(code_of(path), m.__dict__)
        except BaseException:
            del sys.modules[sym]
            self.loaded.pop(name, None)
            raise
        if parent:
            setattr(sys.modules[PRE + parent[len("bmi"):]], name.rpartition(".")[2], m)
        return m

    def load_file(self, path, name=None):
        name = name or (PRE + "_file_" + os.path.basename(path).replace(".py", "").replace("-", "_"))
        m = sys.modules.get(name)
        if m is not None:
            return m
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        sys.modules[name] = m
        exec(code_of(path), m.__dict__)
        return m


_CODE: dict = {}


def code_of(path):
    c = _CODE.get(path)
    if c is None:
        with open(path) as f:
            c = _CODE[path] = compile(f.read(), path, "exec")
    return c


STUBMODS = {}
# modules whose import would build every benchmark task: empty in the symbolic copy unless a harness asks for them
MODSTUBS = {"bmi.benchmark.task_list": {"BENCHMARK_TASKS_LIST": []}}
_WORLD = None


def world():
    global _WORLD
    if _WORLD is None:
        from . import overrides  # noqa: F401  (registers OVERRIDES)

        _WORLD = World()
    return _WORLD


def reset():
    """forget the loaded copy (a fresh module state for every path)"""
    global _WORLD
    for k in [k for k in sys.modules if k == PRE or k.startswith(PRE + ".") or k.startswith(PRE + "_file_")]:
        del sys.modules[k]
    if _WORLD is not None:
        _WORLD.loaded = {}
