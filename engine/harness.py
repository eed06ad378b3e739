"""Harness API: the same case function runs on symbolic values (over a private copy of bmi) and on numbers (over the real bmi)."""
from __future__ import annotations

import contextlib
import importlib
import json
import math
import os
import random
import re
import sys
import time
import traceback
import types
import warnings
from fractions import Fraction

import numpy as np

from . import explore, smt
from . import sarr as A
from . import sym as S
from . import world as W
from .sarr import SArr, asarr
from .sym import B, R, Unsupported, lift

CASES: dict = {}  # property -> [Case]


class Case:
    def __init__(self, prop, fn, quick, thorough, opts):
        self.prop, self.fn, self.name, self.quick, self.thorough, self.opts = prop, fn, fn.__name__, quick, thorough, opts


def case(prop, quick=({},), thorough=None, **opts):
    """register a case; quick / thorough are lists of bound parameters"""

    def deco(fn):
        CASES.setdefault(prop, []).append(Case(prop, fn, list(quick), list(thorough if thorough is not None else quick), opts))
        return fn

    return deco


class Mismatch(Exception):
    def __init__(self, label, msg):
        super().__init__(f"{label}: {msg}")
        self.label = label


class Skip(Exception):
    """an assumption does not hold for these values"""


class _Base:
    symbolic = False

    # convenience built on the primitives
    def reals(self, name, n, **k):
        return [self.real(f"{name}{i}", **k) for i in range(n)]

    def pd(self, name, n):
        """a symmetric positive-definite matrix: L L^T for an arbitrary lower-triangular L with positive diagonal (every one is)"""
        L = [[self.real(f"{name}{i}{j}", lo=0, lo_open=True) if i == j else (self.real(f"{name}{i}{j}") if j < i else 0.0)
              for j in range(n)] for i in range(n)]
        return self.mat([[self.add(*[L[i][k] * L[j][k] for k in range(min(i, j) + 1)]) for j in range(n)] for i in range(n)])

    @staticmethod
    def add(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = r + x
        return r

    def det(self, m):
        """Laplace expansion, independent of the code under test"""
        m = [list(r) for r in m]
        n = len(m)
        if n == 1:
            return m[0][0]
        out = None
        for j in range(n):
            t = m[0][j] * self.det([r[:j] + r[j + 1:] for r in m[1:]])
            t = t if j % 2 == 0 else -t
            out = t if out is None else out + t
        return out

    def sub(self, m, rows, cols):
        return [[m[i][j] for j in cols] for i in rows]


class _Generic:
    """one fixed generic value per atom"""

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        import zlib

        at = S.ATOMS[k] if isinstance(k, int) else None
        name = repr(at) if at is not None else repr(k)
        v = (zlib.crc32(name.encode()) % 9973) / 9973
        return 0.07 + 0.86 * v

    def get(self, k, d=None):
        return self[k]


class SymH(_Base):
    symbolic = True

    def __init__(self, ex, tier):
        self.ex, self.tier = ex, tier
        self.labels = set()
        self.bounds = {}
        self.stack = contextlib.ExitStack()

    # ---- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return self.ex.declare(name, lo, hi, "real", lo_open, hi_open)

    def int(self, name, lo, hi):
        return self.ex.declare(name, lo, hi, "int")

    def bool(self, name):
        return S.truth(S.cmp_eq(self.ex.declare(name, 0, 1, "int"), S.R_const(1)))

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self.ex.declare("pick:" + name, 0, len(options) - 1, "int")
        for i in range(len(options) - 1):
            if S.truth(S.cmp_eq(v, S.R_const(i))):
                return options[i]
        return options[-1]

    def perm(self, name, n):
        left = list(range(n))
        out = []
        for j in range(n - 1):
            out.append(self.pick(f"{name}{j}", left))
            left = [x for x in left if x != out[-1]]
        return out + left

    def array(self, name, shape, lo=None, hi=None, **k):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            o[ix] = self.real(f"{name}[{','.join(map(str, ix))}]", lo, hi, **k)
        return o.view(SArr)

    jarray = array

    def intarray(self, name, shape, lo, hi):
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*o.shape):
            o[ix] = self.int(f"{name}[{','.join(map(str, ix))}]", lo, hi)
        return o.view(SArr)

    def mat(self, rows):
        return asarr([list(r) for r in rows])

    vec = staticmethod(lambda xs: asarr(list(xs)))
    jmat = mat
    jvec = vec

    def seed(self, name="seed"):
        return self.ex.declare(name, 0, 2 ** 31 - 1, "int")

    def uf(self, name, *args, **k):
        """an arbitrary real-valued function"""
        a = []
        for x in args:
            a += [lift(e) for e in asarr(x).flat]
        nm = f"{name}({','.join(str(getattr(e, 'h', e)) for e in a)})"
        v = self.ex.fresh.get(nm)
        if v is None:
            i = self.ex.fresh.setdefault(("n", name), 0)
            self.ex.fresh[("n", name)] = i + 1
            v = self.ex.declare(f"{name}#{i}", **k)
            # congruence with the earlier applications
            for b, w in self.ex.fresh.setdefault(("apps", name), []):
                if len(a) == len(b):
                    same = S.and_(*[S.cmp_eq(x, y) for x, y in zip(a, b)]) if a else True
                    if same is False:
                        continue
                    if isinstance(same, B):
                        self.ex.assume(S.implies(same, S.cmp_eq(v, w)))
            self.ex.fresh[("apps", name)].append((a, v))
            self.ex.fresh[nm] = v
        return v

    # ---- code
    def mod(self, name):
        w = W.world()
        if name.split(".")[0] == "bmi":
            return w.load(name)
        importlib.import_module(name)
        return W.shim_module(name)

    def file(self, path):
        return W.world().load_file(os.path.join(W.REPO, path))

    @property
    def np(self):
        return W.shim_module("numpy")

    @property
    def jnp(self):
        return W.shim_module("jax.numpy")

    @property
    def jax(self):
        return W.shim_module("jax")

    @property
    def tfp(self):
        importlib.import_module("tensorflow_probability.substrates.jax")
        return W.shim_module("tensorflow_probability.substrates.jax")

    def stub(self, dotted, obj):
        W.STUBS[dotted] = obj

    def numpy_stub(self, dotted, obj):
        self.stub(dotted, obj)

    def patch(self, owner, name, obj):
        """replace an attribute of a class for this run"""
        from unittest import mock

        self.stack.enter_context(mock.patch.object(owner, name, obj))

    # ---- control
    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = A.f_all(c) if hasattr(A, "f_all") else S.and_(*[A._bool(e) for e in c.flat])
        if isinstance(c, B):
            self.ex.assume(c)
        elif not c:
            raise explore.PathAbort()

    def truth(self, c):
        if isinstance(c, np.ndarray):
            c = A.un0(asarr(c))
        return S.truth(c) if isinstance(c, B) else bool(c)

    # ---- obligations
    def _el(self, x, y, label, tol, scale):
        x, y = A.un0(asarr(x)) if isinstance(x, np.ndarray) else x, A.un0(asarr(y)) if isinstance(y, np.ndarray) else y
        if isinstance(x, (B, bool, np.bool_)) and isinstance(y, (B, bool, np.bool_)):
            return self.ex.prove(S.iff(x, y), label)
        try:
            x, y = lift(x), lift(y)
        except TypeError:
            return self.ex.prove(bool(x == y), label)
        if isinstance(x, float) or isinstance(y, float):
            ok = isinstance(x, float) and isinstance(y, float) and (x == y or (x != x and y != y))
            return self.ex.prove(ok, label)
        return self.ex.prove_zero(x - y, label, scale=scale)

    def eq(self, a, b, label, tol=None, scale=1.0, atol=None):
        self.labels.add(label)
        if isinstance(a, str) or isinstance(b, str):
            return self.ex.prove(text_equal(a, b), label)
        if a is None or b is None or isinstance(a, (bool, type)) and isinstance(b, (bool, type)):
            return self.ex.prove(a is b or (a is not None and b is not None and a == b), label)
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
                return self.ex.prove(False, label)
            return all([self.eq(a[k], b[k], label, tol, scale) for k in a])
        try:
            x, y = asarr(a), asarr(b)
        except (TypeError, ValueError, Unsupported):
            return self.ex.prove(bool(a == b), label)
        if x.shape != y.shape:
            return self.ex.prove(False, label)
        r = True
        for p, q in zip(x.flat, y.flat):
            r = self._el(p, q, label, tol, scale) and r
        return r

    def true(self, c, label, detail=None):
        self.labels.add(label)
        if isinstance(c, np.ndarray):
            ok = True
            for e in asarr(c).flat:
                ok = self.ex.prove(A._bool(e) if isinstance(e, (R, B)) else bool(e), label) and ok
            return ok
        if isinstance(c, R):
            c = S.cmp_ne(c, S.R_const(0))
        return self.ex.prove(c if isinstance(c, B) else bool(c), label)

    def le(self, a, b, label, tol=None):
        self.labels.add(label)
        a, b = np.broadcast_arrays(asarr(a).view(np.ndarray), asarr(b).view(np.ndarray))
        for x, y in zip(a.flat, b.flat):
            self.ex.prove(S.cmp_le(lift(x), lift(y)), label)

    def lt(self, a, b, label, tol=None):
        self.labels.add(label)
        a, b = np.broadcast_arrays(asarr(a).view(np.ndarray), asarr(b).view(np.ndarray))
        for x, y in zip(a.flat, b.flat):
            self.ex.prove(S.cmp_lt(lift(x), lift(y)), label)

    def raises(self, exc, fn, label):
        self.labels.add(label)
        try:
            fn()
        except exc:
            self.ex.prove(True, label)
            return True
        except Exception as e:
            self.ex.prove_fail(label, explore._where(e))
            return False
        self.ex.prove_fail(label, "no exception")
        return False

    def probe(self, x):
        """value of a term at one fixed generic assignment of the symbols: tells candidate values apart, decides nothing"""
        if not isinstance(x, (S.R, S.B)):
            x = S.lift(x)
        return S.fev(x, _Generic(), {})

    def fails(self, fn):
        """did fn raise (any ordinary exception)?"""
        try:
            fn()
        except Exception:
            return True
        return False

    def fail(self, label, msg=""):
        self.labels.add(label)
        self.ex.prove_fail(label, msg)

    # ---- randomness
    def scatter_draws(self):
        """permutations are fixed scattered ones instead of arbitrary ones (for many points)"""
        import random

        from . import overrides as O

        def pick(key, tag, n, m):
            O.ctx_log(("draw", tag, key, (n, m), None))
            return random.Random(f"{tag}:{key.name}:{n}:{m}").sample(range(n), m)

        O.PERM_HOOK[0] = pick

    @property
    def draws(self):
        return self.ex.rlog

    def independent(self, a, b, label):
        """no random variable occurs in both"""
        self.labels.add(label)
        va = set().union(*[S.var_atoms(lift(e)) for e in asarr(a).flat if isinstance(lift(e), R)] or [set()])
        vb = set().union(*[S.var_atoms(lift(e)) for e in asarr(b).flat if isinstance(lift(e), R)] or [set()])
        sh = [i for i in va & vb if (S.ATOMS[i].name or "").startswith("rng:")]
        self.ex.prove(not sh, label)

    def key(self, seed):
        return self.jax.random.PRNGKey(seed)


def text_equal(a, b):
    if not (isinstance(a, str) and isinstance(b, str)):
        return a == b
    if a == b:
        return True
    ta, tb = S.text_terms(a), S.text_terms(b)
    if len(ta) != len(tb):
        return False
    conds = []
    for x, y in zip(ta, tb):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        else:
            if x[1] != y[1]:
                return False
            fixed = re.fullmatch(r"\.(\d+)f", x[1] or "") if isinstance(x[1], str) or x[1] is None else None
            if fixed and not isinstance(x[0], (float, str)) and not isinstance(y[0], (float, str)):
                s = 10 ** int(fixed[1])  # the text shows the value rounded
                conds.append(S.cmp_eq(S.floor_(x[0] * s + Fraction(1, 2)), S.floor_(y[0] * s + Fraction(1, 2))))
            else:
                conds.append(S.cmp_eq(x[0], y[0]))
    return S.and_(*conds) if conds else True


# ------------------------------------------------------------------------------------------ concrete
def tonum(v):
    if isinstance(v, Fraction):
        return int(v) if False else float(v)
    return v


class ConcH(_Base):
    symbolic = False

    def __init__(self, env, tier, tolmul=1.0, seed=0):
        self.env, self.tier, self.tolmul = env, tier, tolmul
        self.rng = random.Random(f"conc{seed}")
        self.stack = contextlib.ExitStack()
        self.checked = {}
        self.missing = []
        self._stubs = []

    # ---- inputs
    def _get(self, name, default):
        if name in self.env:
            return self.env[name]
        self.missing.append(name)
        v = default()
        self.env[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        lo_, hi_ = (None if v is None else Fraction(v) for v in (lo, hi))
        v = float(self._get(name, lambda: explore._nice(self.rng, lo_, hi_)))
        if (lo is not None and (v < lo or (lo_open and v <= lo))) or (hi is not None and (v > hi or (hi_open and v >= hi))):
            raise Skip(name)
        return v

    def int(self, name, lo, hi):
        v = int(self._get(name, lambda: self.rng.randint(lo, hi if hi is not None else lo + 10)))
        if v < lo or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int("pick:" + name, 0, len(options) - 1)]

    perm = SymH.perm

    def array(self, name, shape, lo=None, hi=None, **k):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape)
        for ix in np.ndindex(*shape):
            o[ix] = self.real(f"{name}[{','.join(map(str, ix))}]", lo, hi, **k)
        return o

    def jarray(self, *a, **k):
        import jax.numpy as jnp

        return jnp.asarray(self.array(*a, **k), dtype=jnp.float32)

    def intarray(self, name, shape, lo, hi):
        o = np.empty(shape, dtype=int)
        for ix in np.ndindex(*o.shape):
            o[ix] = self.int(f"{name}[{','.join(map(str, ix))}]", lo, hi)
        return o

    def mat(self, rows):
        return np.array([[float(x) for x in r] for r in rows], dtype=float)

    def vec(self, xs):
        return np.array([float(x) for x in xs], dtype=float)

    def jmat(self, rows):
        import jax.numpy as jnp

        return jnp.asarray(self.mat(rows), dtype=jnp.float32)

    def jvec(self, xs):
        import jax.numpy as jnp

        return jnp.asarray(self.vec(xs), dtype=jnp.float32)

    def seed(self, name="seed"):
        return self.int(name, 0, 2 ** 31 - 1)

    def uf(self, name, *args, **k):
        """an arbitrary but fixed function: the value in the witness is unknown, so use a hash-based one"""
        vals = [round(float(x), 5) for a in args for x in np.asarray(a, dtype=float).ravel()]
        r = random.Random(f"{name}:{vals}")
        lo, hi = k.get("lo"), k.get("hi")
        return float(explore._nice(r, None if lo is None else Fraction(lo), None if hi is None else Fraction(hi)))

    # ---- code
    def mod(self, name):
        return importlib.import_module(name)

    def file(self, path):
        p = os.path.join(W.REPO, path)
        nm = "concfile_" + path.replace("/", "_").replace(".py", "").replace("-", "_")
        m = types.ModuleType(nm)
        m.__file__ = p
        exec(W.code_of(p), m.__dict__)
        return m

    @property
    def np(self):
        return np

    @property
    def jnp(self):
        import jax.numpy as jnp

        return jnp

    @property
    def jax(self):
        import jax

        return jax

    @property
    def tfp(self):
        from tensorflow_probability.substrates import jax as tfp

        return tfp

    def stub(self, dotted, obj):
        from unittest import mock

        modn, _, attr = dotted.rpartition(".")
        m = importlib.import_module(modn)
        orig = getattr(m, attr)
        self.stack.enter_context(mock.patch.object(m, attr, obj))
        for k, mm in list(sys.modules.items()):
            if mm is not None and (k == "bmi" or k.startswith("bmi.") or k.startswith("concfile_")):
                for n, v in list(vars(mm).items()):
                    if v is orig:
                        self.stack.enter_context(mock.patch.object(mm, n, obj))

    def patch(self, owner, name, obj):
        """replace an attribute of a class for this run"""
        from unittest import mock

        self.stack.enter_context(mock.patch.object(owner, name, obj))

    # ---- control
    def assume(self, c):
        if not bool(np.all(c)):
            raise Skip("assumption")

    def probe(self, x):
        return float(x)

    def truth(self, c):
        return bool(np.all(c))

    # ---- obligations
    def _ok(self, label):
        self.checked[label] = self.checked.get(label, 0) + 1
        return True

    def eq(self, a, b, label, tol=None, scale=1.0, atol=None):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if not (type(a) == type(b) and a == b) and not (a is None and b is None):
                raise Mismatch(label, f"{a!r} != {b!r}")
            return self._ok(label)
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
                raise Mismatch(label, f"{a!r} != {b!r}")
            return all([self.eq(a[k], b[k], label, tol, scale) for k in a])
        try:
            x, y = np.asarray(a), np.asarray(b)
        except ValueError:
            if a != b:
                raise Mismatch(label, f"{a!r} != {b!r}"[:400])
            return self._ok(label)
        if x.shape != y.shape:
            raise Mismatch(label, f"shape {x.shape} != {y.shape}")
        if x.dtype.kind not in "fiub" or y.dtype.kind not in "fiub":
            if not np.all(x == y):
                raise Mismatch(label, f"{a!r} != {b!r}"[:400])
            return self._ok(label)
        x, y = x.astype(float), y.astype(float)
        t = (tol if tol is not None else 2e-4) * self.tolmul
        at = (atol if atol is not None else t / 4) * max(1.0, scale)
        with np.errstate(all="ignore"):
            good = np.isclose(x, y, rtol=t, atol=at, equal_nan=True)
        if not good.all():
            i = np.argmin(good) if x.ndim else 0
            raise Mismatch(label, f"{x.ravel()[i]!r} != {y.ravel()[i]!r} at {i} of shape {x.shape}")
        return self._ok(label)

    def true(self, c, label, detail=None):
        if not bool(np.all(c)):
            raise Mismatch(label, detail or "condition is false")
        return self._ok(label)

    def le(self, a, b, label, tol=None):
        t = (tol if tol is not None else 1e-5) * self.tolmul
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if not np.all(a <= b + t * np.maximum(1.0, np.abs(b))):
            raise Mismatch(label, f"{a!r} > {b!r}")
        return self._ok(label)

    def lt(self, a, b, label, tol=None):
        return self.le(a, b, label, tol)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            return self._ok(label)
        except Exception as e:
            raise Mismatch(label, f"raised {type(e).__name__}: {e}"[:300])
        raise Mismatch(label, "no exception")

    fails = SymH.fails

    def fail(self, label, msg=""):
        raise Mismatch(label, msg)

    def scatter_draws(self):
        pass

    @property
    def draws(self):
        return []

    def independent(self, a, b, label):
        a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
        if len(a) == len(b) and len(a) >= 3 and a.std() > 0 and b.std() > 0:
            if abs(np.corrcoef(a, b)[0, 1]) > 0.9999:
                raise Mismatch(label, "perfectly correlated draws")
        return self._ok(label)

    def key(self, seed):
        return self.jax.random.PRNGKey(int(seed))


# ------------------------------------------------------------------------------------------ running
def decode_env(d):
    return {k: (Fraction(v) if isinstance(v, str) and not k.startswith("b:") else v) for k, v in d.items()}


def encode_env(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, Fraction):
            out[k] = str(v)
        elif isinstance(v, (bool, int)):
            out[k] = str(v) if not k.startswith("b:") else bool(v)
        elif isinstance(v, float):
            out[k] = str(Fraction(v))
        else:
            out[k] = str(Fraction(str(v))) if not k.startswith("b:") else bool(v)
    return out


def _renamed(e, tb):
    """the harness itself looked up (or called) a private name which the code no longer has: nothing is decided"""
    if not tb or "/checks/" not in tb[-1].filename and "/engine/" not in tb[-1].filename and "unittest/mock" not in tb[-1].filename:
        return False
    if isinstance(e, ImportError):
        return True
    if isinstance(e, AttributeError):
        mod = isinstance(getattr(e, "obj", None), type(sys)) or "has no attribute" in str(e) and "module" in str(e)
        return mod or str(getattr(e, "name", "") or "").startswith("_")
    return isinstance(e, TypeError) and re.match(r"(\w+\.)*_\w+\(\) (got|missing|takes)", str(e)) is not None


def run_conc(c, params, env, tier, tolmul=1.0, seed=0):
    """-> (status, label, message, env); status in ok / mismatch / skip / error"""
    H = ConcH(dict(env), tier, tolmul, seed)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"), H.stack, open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
                c.fn(H, **params)
        return "ok", None, None, H
    except Mismatch as e:
        return "mismatch", e.label, str(e)[:600], H
    except Skip:
        return "skip", None, None, H
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if _renamed(e, tb):
            return "skip", None, None, H
        loc = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-4:])
        return "error", f"unexpected-exception:{type(e).__name__}", f"{type(e).__name__}: {e} [{loc}]"[:600], H


def run_case(c, params, tier, seed):
    t0 = time.time()
    for k in smt.STATS:
        smt.STATS[k] = 0 if isinstance(smt.STATS[k], int) else 0.0
    o = c.opts
    budget = o.get("budget", 70.0) if tier == "quick" else o.get("budget_t", 400.0)
    ex = explore.Explorer(f"{c.name}:{params}", seed=seed, time_budget=budget, max_paths=o.get("max_paths", 3000 if tier == "quick" else 20000),
                          smt_ms=o.get("smt_ms", 4000 if tier == "quick" else 15000))
    funcs = Tracer()

    labels = set()

    def run():
        W.reset()
        W.STUBS.clear()
        A.SORT_MODE["network"] = o.get("network", False) if "network" in A.SORT_MODE else A.SORT_MODE.get("network")
        A.SORT_MODE["kth"] = o.get("kth", False)
        from . import overrides as O

        O.PERM_HOOK[0] = None
        O.SPLIT_HOOK[0] = None
        ex.rlog = []
        H = SymH(ex, tier)
        H.labels = labels
        with H.stack:
            c.fn(H, **params)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            if ex.paths == 0:
                ex.before_first = funcs
            ex.explore(lambda: funcs.run(run))
    W.STUBS.clear()
    t_sym = time.time() - t0

    res = {
        "case": c.name, "params": params, "paths": ex.paths, "aborted": ex.aborted, "branches": ex.branches, "obligations": ex.ob_total,
        "by_normal_form": ex.ob_normal, "by_solver": ex.ob_solver, "exhausted": ex.exhausted, "unsupported": sorted(set(ex.unsupported))[:8],
        "n_unsupported": len(ex.unsupported), "unresolved": [list(u) for u in ex.unresolved[:8]], "n_unresolved": len(ex.unresolved),
        "queries": dict(smt.STATS), "samples": ex.samples[:2], "functions": sorted(funcs.seen), "sym_s": round(t_sym, 2),
        "labels": sorted(labels), "violations": [], "unreproduced": [], "replays": 0, "skipped_replays": 0,
    }
    # ---- candidates: replay on the real code
    bad = {}
    tried = {}
    cand_labels = set()
    rep_deadline = time.time() + o.get("replay_s", 40.0 if tier == "quick" else 200.0)
    n_rep = o.get("replays", 14 if tier == "quick" else 60)
    rseeds = o.get("reseed", 1)

    def attempt(env, why, tolmul, n=1):
        for s in range(n):
            if time.time() > rep_deadline:
                return None
            e = dict(env)
            if s:
                # other draws of the same inputs
                for k in list(e):
                    if k == "seed" or k.startswith("seed"):
                        e[k] = Fraction(1000 * s + 7)
            st, lab, msg, H = run_conc(c, params, e, tier, tolmul, seed=s if env else 500 + res["replays"] + res["skipped_replays"])
            if st == "skip":
                res["skipped_replays"] += 1
                continue
            res["replays"] += 1
            if st in ("mismatch", "error"):
                if lab not in bad:
                    bad[lab] = True
                    res["violations"].append({"label": lab, "message": msg, "env": encode_env(H.env), "found_by": why})
                return lab
        return None

    for lab, env, exc in ex.candidates:
        cand_labels.add(lab)
        if tried.get(lab, 0) >= 4 or any(v for v in bad if v == lab):
            continue
        tried[lab] = tried.get(lab, 0) + 1
        got = attempt(env, "solver counterexample", 1.0, max(3, rseeds))
        if got is None and exc:
            res.setdefault("notes", []).append(f"{lab}: {exc}")
    for lab in cand_labels:
        if lab not in bad and not bad:
            res["unreproduced"].append([lab, ex.vcount.get(lab, 0), next((encode_env(e) for l, e, _ in ex.candidates if l == lab), None),
                                        next((x for l, e, x in ex.candidates if l == lab and x), None)])
    # ---- one replay per explored path: the encoding is validated against the implementation
    wits = ex.witnesses
    if len(wits) > n_rep:
        rng = random.Random(seed)
        wits = wits[:3] + rng.sample(wits[3:], n_rep - 3)
    ok0 = res["replays"]
    for env in wits:
        if time.time() > rep_deadline or bad:
            break
        attempt(env, "replay of an explored path", 20.0, rseeds)
    for i in range(12):  # every witness was outside the concrete range of the inputs: other values of the same inputs
        if res["replays"] > ok0 or bad or time.time() > rep_deadline:
            break
        attempt({}, "replay with other inputs", 20.0)
    res["validated"] = res["replays"] - ok0 - (1 if bad else 0)
    # ---- paths the encoding could not follow to the end: replay models of their path conditions (reported as undecided, not as proved)
    if (ex.unsupported or ex.unresolved or not ex.exhausted or res["unreproduced"] or ex.paths == 0) and not bad:
        nb = o.get("battery", 40 if tier == "quick" else 150)
        res["undecided_replays"] = 0
        end = time.time() + o.get("battery_s", 30.0)
        envs = ex.undecided + [{}]
        for i in range(nb):
            if time.time() > end:
                break
            base = envs[i % len(envs)] if i >= len(envs) or i < len(envs) else {}
            if i >= len(envs) and i % 2:
                base = {}
            st, lab, msg, H = run_conc(c, params, base, tier, 5.0, seed=1000 + i)
            if st in ("mismatch", "error"):
                bad[lab] = True
                res["violations"].append({"label": lab, "message": msg, "env": encode_env(H.env), "found_by": "replay of an undecided path"})
                break
            if st == "ok":
                res["undecided_replays"] += 1
    res["wall_s"] = round(time.time() - t0, 2)
    return res


class Tracer:
    """names of the bmi functions executed symbolically (recorded on the first runs only)"""

    def __init__(self):
        self.seen = set()
        self.n = 0

    def run(self, f):
        self.n += 1
        if self.n > 4 or sys.gettrace() is not None:
            return f()

        src = W.REPO

        def prof(frame, event, arg):
            if event == "call":
                fn = frame.f_code.co_filename
                if fn.startswith(src) and frame.f_code.co_name not in ("<module>", "<lambda>", "<listcomp>", "<genexpr>"):
                    self.seen.add(f"{os.path.relpath(fn, src)}:{frame.f_code.co_qualname}")

        sys.setprofile(prof)
        try:
            return f()
        finally:
            sys.setprofile(None)
