"""Symbolic models of library entry points (random numbers, transformations of functions, scikit-learn, pydantic types...)."""
from __future__ import annotations

import functools
import itertools
import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np

from . import calc
from . import sarr as A
from . import sym as S
from . import world as W
from .sarr import SArr, asarr, conc, emap, has_terms, is_sym
from .sym import B, R, Unsupported, lift

override = W.override


def ctx():
    return S.CTX


# =============================================================================== decorators
@override("jax.jit")
def jit(f=None, *a, **k):
    if f is None:
        return lambda g: jit(g)
    if isinstance(f, W.Wrapped):
        return f

    @functools.wraps(f)
    def g(*x, **kw):
        return f(*x, **kw)

    return g


W.OVERRIDES["equinox.filter_jit"] = jit
W.OVERRIDES["jax.checkpoint"] = jit
W.OVERRIDES["jax.block_until_ready"] = lambda x: x
W.OVERRIDES["jax.device_put"] = lambda x, *a, **k: x
W.OVERRIDES["jax.device_get"] = lambda x, *a, **k: x


def leafy(x):
    return isinstance(x, (R, B, SArr, KeyTok, KeyArr)) or hasattr(x, "_sym_array_")


def tflatten(t):
    return jax.tree_util.tree_flatten(t, is_leaf=leafy)


# real pytree functions with our leaves kept whole
def tree_map(f, tree, *rest, is_leaf=None):
    il = leafy if is_leaf is None else (lambda x: leafy(x) or is_leaf(x))
    return jax.tree_util.tree_map(f, tree, *rest, is_leaf=il)


for nm in ("jax.tree_util.tree_map", "jax.tree_map", "jax.tree.map"):
    W.OVERRIDES[nm] = tree_map


def take(x, ax, i):
    if isinstance(x, KeyArr):
        return x[i]
    if isinstance(x, jax.Array):
        x = np.asarray(x)
    a = asarr(x) if not isinstance(x, np.ndarray) else x
    r = np.take(np.asarray(a) if a.dtype != object else a.view(np.ndarray), i, axis=ax)
    if a.dtype == object:
        return r.view(SArr) if isinstance(r, np.ndarray) else A.un0(asarr(r))
    return asarr(r)


def axis_len(x, ax):
    if isinstance(x, KeyArr):
        return len(x)
    return np.shape(x)[ax]


def stack_tree(outs, axis=0):
    leaves0, td = tflatten(outs[0])
    cols = [tflatten(o)[0] for o in outs]
    res = []
    for j in range(len(leaves0)):
        col = [c[j] for c in cols]
        if isinstance(col[0], KeyTok):
            res.append(KeyArr(col))
        else:
            res.append(np.stack([asarr(c).view(np.ndarray) for c in col], axis=axis).view(SArr))
    return jax.tree_util.tree_unflatten(td, res)


@override("jax.vmap")
def vmap(f, in_axes=0, out_axes=0, **k):
    def g(*args, **kw):
        ax = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        if len(ax) != len(args):
            raise ValueError("vmap in_axes must match the number of arguments")
        n = None
        flat = []
        for a, x in zip(ax, args):
            ls, td = tflatten(x)
            if a is None:
                flat.append((None, ls, td))
                continue
            axs = [a] * len(ls) if isinstance(a, int) else jax.tree_util.tree_leaves(a, is_leaf=lambda v: v is None)
            for l, b in zip(ls, axs):
                if b is None:
                    continue
                if not isinstance(l, KeyArr) and np.ndim(l) == 0:
                    raise ValueError("vmap was requested to map its argument along axis 0, but the array is a scalar")
                m = axis_len(l, b)
                if n is not None and n != m:
                    raise ValueError(f"vmap got inconsistent sizes for array axes to be mapped: {n} != {m}")
                n = m
            flat.append((axs, ls, td))
        kfl = {}
        for key, x in kw.items():
            ls, td = tflatten(x)
            for l in ls:
                m = axis_len(l, 0)
                if n is not None and n != m:
                    raise ValueError("vmap got inconsistent sizes for array axes to be mapped")
                n = m
            kfl[key] = (ls, td)
        if n is None:
            raise ValueError("vmap must have at least one non-None value in in_axes")
        outs = []
        for i in range(n):
            xs = []
            for axs, ls, td in flat:
                if axs is None:
                    xs.append(jax.tree_util.tree_unflatten(td, ls))
                else:
                    xs.append(jax.tree_util.tree_unflatten(td, [l if b is None else take(l, b, i) for l, b in zip(ls, axs)]))
            kk = {key: jax.tree_util.tree_unflatten(td, [take(l, 0, i) for l in ls]) for key, (ls, td) in kfl.items()}
            outs.append(f(*[_nd(x) for x in xs], **kk))
        if not outs:
            raise Unsupported("vmap over an empty axis")
        return stack_tree(outs, out_axes if isinstance(out_axes, int) else 0)

    return g


W.OVERRIDES["equinox.filter_vmap"] = vmap


def _nd(x):
    """scalars taken from an array stay array-like"""
    return x


@override("jax.numpy.vectorize")
def vectorize(f=None, *, excluded=frozenset(), signature=None, **k):
    if f is None:
        return lambda g: vectorize(g, excluded=excluded, signature=signature)

    if signature is not None:
        ins = signature.split("->")[0]
        import re

        nd = [0 if not p.strip() else len(p.split(",")) for p in re.findall(r"\(([^)]*)\)", ins)]

        def g2(*args, **kw):
            arrs = [asarr(a) for a in args]
            lead = [a.shape[: a.ndim - d] for a, d in zip(arrs, nd)]
            shape = np.broadcast_shapes(*lead)
            if shape == ():
                return f(*arrs, **kw)
            bs = [np.broadcast_to(a.view(np.ndarray), shape + a.shape[a.ndim - d:]) for a, d in zip(arrs, nd)]
            outs = [asarr(f(*[b[ix].view(SArr) if isinstance(b[ix], np.ndarray) else b[ix] for b in bs], **kw)) for ix in np.ndindex(*shape)]
            st = np.stack([o.view(np.ndarray) for o in outs])
            return st.reshape(shape + st.shape[1:]).view(SArr)

        return g2

    def g(*args, **kw):
        arrs = [a if i in excluded else asarr(a) for i, a in enumerate(args)]
        idx = [i for i in range(len(arrs)) if i not in excluded]
        shape = np.broadcast_shapes(*[arrs[i].shape for i in idx])
        bs = {i: np.broadcast_to(arrs[i].view(np.ndarray), shape) for i in idx}
        outs = []
        for ix in np.ndindex(*shape):
            a2 = [bs[i][ix] if i in bs else arrs[i] for i in range(len(arrs))]
            outs.append(A.un0(asarr(f(*a2, **kw))))
        o = np.empty(len(outs), dtype=object)
        for i, v in enumerate(outs):
            o[i] = A.elem(v) if not isinstance(v, (R, B)) else v
        return A.un0(o.reshape(shape).view(SArr))

    return g


# =============================================================================== differentiation
_EPSN = itertools.count()


def _value_grad(fun, argnums, has_aux, want_value, filtered=False):
    def g(*args, **kw):
        nums = (argnums,) if isinstance(argnums, int) else tuple(argnums)
        c = ctx()
        args2 = list(args)
        layout = []
        k = c.fresh.get("eps", 0)
        for n in nums:
            ls, td = tflatten(args[n])
            nl = []
            info = []
            for l in ls:
                if (isinstance(l, (int, bool, str)) or callable(l)) and not isinstance(l, (R, np.ndarray)):
                    if not filtered:
                        raise TypeError("grad requires real- or complex-valued inputs (input dtype that is a sub-dtype of np.inexact)")
                    nl.append(l)
                    info.append(None)
                    continue
                a = asarr(l)
                eps = np.empty(a.shape, dtype=object)
                ids = np.empty(a.shape, dtype=object)
                for ix in np.ndindex(*a.shape):
                    v = c.declare(f"__eps{k}", 0, 0)
                    k += 1
                    (m, _), = v.t.items()
                    ids[ix] = m[0][0]
                    eps[ix] = v
                c.fresh["eps"] = k
                nl.append(A.un0(emap(A.s_add, a, eps.view(SArr))) if a.ndim == 0 else emap(A.s_add, a, eps.view(SArr)))
                info.append(ids)
            args2[n] = jax.tree_util.tree_unflatten(td, nl)
            layout.append((td, info))
        out = fun(*args2, **kw)
        aux = None
        if has_aux:
            out, aux = out
        o = A.un0(asarr(out))
        if isinstance(o, np.ndarray):
            raise TypeError("Gradient only defined for scalar-output functions.")
        zero = {}
        for td, info in layout:
            for ids in info:
                if ids is not None:
                    for i in ids.flat:
                        zero[i] = S.R_const(0)
        memo0 = {}
        grads = []
        for td, info in layout:
            gl = []
            for ids in info:
                if ids is None:
                    gl.append(None)
                    continue
                r = np.empty(ids.shape, dtype=object)
                for ix in np.ndindex(*ids.shape):
                    if isinstance(o, float):
                        r[ix] = S.R_const(0)
                    else:
                        r[ix] = calc.subst(calc.diff(o, ids[ix]), zero, memo0)
                gl.append(r.view(SArr))
            grads.append(jax.tree_util.tree_unflatten(td, gl))
        gr = grads[0] if isinstance(argnums, int) else tuple(grads)
        val = calc.subst(o, zero, memo0)
        if has_aux:
            l, td = tflatten(aux)
            aux = jax.tree_util.tree_unflatten(td, [emap(lambda e: calc.subst(e, zero), asarr(x)) if isinstance(x, (R, SArr)) else x for x in l])
        if not want_value:
            return (gr, aux) if has_aux else gr
        return ((val, aux), gr) if has_aux else (val, gr)

    return functools.wraps(fun)(g) if callable(fun) and hasattr(fun, "__name__") else g


@override("jax.value_and_grad")
def value_and_grad(fun, argnums=0, has_aux=False, **k):
    return _value_grad(fun, argnums, has_aux, True)


@override("jax.grad")
def grad(fun, argnums=0, has_aux=False, **k):
    return _value_grad(fun, argnums, has_aux, False)


W.OVERRIDES["equinox.filter_value_and_grad"] = lambda fun=None, has_aux=False, **k: _value_grad(fun, 0, has_aux, True, True)
W.OVERRIDES["equinox.filter_grad"] = lambda fun=None, has_aux=False, **k: _value_grad(fun, 0, has_aux, False, True)


@override("jax.lax.stop_gradient")
def stop_gradient(x):
    raise Unsupported("stop_gradient")


# =============================================================================== control flow
MAX_UNROLL = 400


@override("jax.lax.while_loop")
def while_loop(cond, body, init):
    s = init
    for _ in range(MAX_UNROLL):
        c = cond(s)
        c = A.un0(asarr(c)) if isinstance(c, np.ndarray) else c
        if not S.truth(A._bool(c) if isinstance(c, (R, B)) else bool(c)):
            return s
        s = body(s)
    raise Unsupported("while_loop exceeded the unrolling bound")


@override("jax.lax.fori_loop")
def fori_loop(lo, hi, body, init, **k):
    s = init
    for i in range(int(conc(lo)), int(conc(hi))):
        s = body(i, s)
    return s


def _truthv(p):
    p = A.un0(asarr(p)) if isinstance(p, np.ndarray) else p
    if isinstance(p, (R, B)):
        return S.truth(A._bool(p))
    return bool(p)


@override("jax.lax.cond")
def lcond(pred, tf, ff, *ops, operand=None, **k):
    if operand is not None:
        ops = (operand,)
    return tf(*ops) if _truthv(pred) else ff(*ops)


@override("jax.lax.switch")
def lswitch(i, branches, *ops, **k):
    i = int(conc(i)) if not is_sym(i) else S.concretize_int(A.un0(asarr(i)))
    return branches[max(0, min(len(branches) - 1, i))](*ops)


@override("jax.lax.select")
def lselect(p, a, b):
    return A.f_where(p, a, b)


@override("jax.lax.scan")
def scan(f, init, xs=None, length=None, reverse=False, **k):
    ls, td = tflatten(xs)
    n = axis_len(ls[0], 0) if ls else length
    c = init
    ys = []
    order = range(n - 1, -1, -1) if reverse else range(n)
    for i in order:
        x = jax.tree_util.tree_unflatten(td, [take(l, 0, i) for l in ls])
        c, y = f(c, x)
        ys.append(y)
    if reverse:
        ys.reverse()
    if not ys:
        raise Unsupported("scan over nothing")
    return c, stack_tree(ys)


@override("jax.lax.map")
def lmap(f, xs, **k):
    return vmap(f)(xs)


@override("jax.nn.relu")
def relu(x):
    return emap(lambda e: S.max_(A._num(e), S.R_const(0)), x)


# =============================================================================== random numbers
class KeyTok:
    """a PRNG key: equal derivations give the same token, different ones are independent"""

    _tab: dict = {}
    ndim = 1
    shape = (2,)
    dtype = np.dtype(np.uint32)
    size = 2

    def __new__(cls, path):
        t = cls._tab.get(path)
        if t is None:
            t = object.__new__(cls)
            t.path = path
            t.id = len(cls._tab)
            cls._tab[path] = t
        return t

    def __init__(self, path):
        pass

    def __repr__(self):
        return f"key{self.path}"

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return hash(self.path)

    def __len__(self):
        return 2

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def name(self):
        return f"k{self.id}"


class KeyArr:
    def __init__(self, keys):
        self.keys = list(keys)

    def __len__(self):
        return len(self.keys)

    def __iter__(self):
        return iter(self.keys)

    @property
    def shape(self):
        return (len(self.keys), 2)

    ndim = 2
    dtype = np.dtype(np.uint32)

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[1], slice):
            i = i[0]
        if isinstance(i, (int, np.integer)):
            return self.keys[i]
        if isinstance(i, slice):
            return KeyArr(self.keys[i])
        if isinstance(i, R):
            return self.keys[S.concretize_int(i)]
        return KeyArr([self.keys[int(j)] for j in np.asarray(conc(i))])


def keyval(s):
    """the part of a key that identifies the seed"""
    if isinstance(s, np.ndarray) and s.dtype == object:
        s = A.un0(s)
    if isinstance(s, R):
        if s.is_const():
            return int(s.const())
        return s
    if isinstance(s, (bool, np.bool_)):
        return int(s)
    if isinstance(s, (int, np.integer)):
        return int(s)
    if isinstance(s, (float, np.floating)):
        raise TypeError(f"PRNG key seed must be an integer; got {s!r}")
    if isinstance(s, (jax.Array, np.ndarray)) and np.ndim(s) == 0 and np.asarray(s).dtype.kind in "iu":
        return int(s)
    raise TypeError(f"PRNG key seed must be a scalar integer; got {s!r}")


@override("jax.random.PRNGKey")
def PRNGKey(seed, **k):
    return KeyTok(("seed", keyval(seed)))


W.OVERRIDES["jax.random.key"] = PRNGKey


def as_key(k):
    if isinstance(k, KeyTok):
        return k
    if isinstance(k, KeyArr):
        raise ValueError("PRNG function accepts a single key, but was given a key array of shape (n,)")
    if isinstance(k, (jax.Array, np.ndarray)) and np.shape(k) == (2,) and not is_sym(k):
        a = tuple(int(v) for v in np.asarray(conc(k)))
        return KeyTok(("seed", a[1])) if a[0] == 0 else KeyTok(("raw",) + a)
    raise TypeError(f"unexpected PRNG key type {type(k)}")


@override("jax.random.split")
def rsplit(key, num=2):
    key = as_key(key)
    if isinstance(num, (tuple, list)):
        if len(num) != 1:
            raise Unsupported("split into a multi-dimensional array")
        num = num[0]
    num = int(conc(num)) if not is_sym(num) else S.concretize_int(A.un0(asarr(num)))
    ctx_log(("split", key, num))
    return KeyArr([KeyTok(("split", key.id, num, i)) for i in range(num)])


@override("jax.random.fold_in")
def fold_in(key, data):
    return KeyTok(("fold", as_key(key).id, keyval(data)))


def ctx_log(ev):
    c = ctx()
    if hasattr(c, "rlog"):
        c.rlog.append(ev)


def shp(shape):
    if isinstance(shape, (int, np.integer)):
        return (int(shape),)
    if isinstance(shape, R):
        return (S.concretize_int(shape),)
    if isinstance(shape, np.ndarray):
        return tuple(int(v) for v in shape)
    return tuple(S.concretize_int(v) if isinstance(v, R) else int(v) for v in shape)


def fresh(kind, key, shape, lo=None, hi=None, hi_open=False, lo_open=False, vkind="real", extra=""):
    c = ctx()
    key = as_key(key)
    shape = shp(shape)
    ctx_log(("draw", kind, key, shape))
    o = np.empty(shape, dtype=object)
    stag = "x".join(map(str, shape)) or "s"
    for ix in np.ndindex(*shape):
        nm = f"rng:{kind}{extra}:{key.name}:{stag}:{'_'.join(map(str, ix))}"
        memo = c.fresh.get(nm)
        if memo is None:
            memo = c.declare(nm, lo, hi, kind=vkind, hi_open=hi_open, lo_open=lo_open)
            c.fresh[nm] = memo
        o[ix] = memo
    return o.view(SArr)


def out(a):
    return a


@override("jax.random.uniform")
def uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0):
    u = fresh("uniform", key, shape, 0, 1, hi_open=True)
    lo, hi = asarr(minval), asarr(maxval)
    return emap(lambda x, a, b: a + (b - a) * x, u, lo, hi)


@override("jax.random.normal")
def normal(key, shape=(), dtype=float):
    return fresh("normal", key, shape)


@override("jax.random.exponential")
def exponential(key, shape=(), dtype=float):
    return fresh("exponential", key, shape, 0)


@override("jax.random.bernoulli")
def bernoulli(key, p=0.5, shape=None):
    p = asarr(p)
    shape = p.shape if shape is None else shp(shape)
    u = fresh("bernoulli", key, shape, 0, 1, hi_open=True)
    ctx_log(("bernoulli_p", np.broadcast_to(p.view(np.ndarray), shape)))
    return emap(lambda x, q: A.s_cmp(S.cmp_lt)(x, q), u, np.broadcast_to(p.view(np.ndarray), shape).view(SArr))


RATE_OF: dict = {}  # variable name -> rate


@override("jax.random.poisson")
def poisson(key, lam, shape=None, dtype=int):
    lam = asarr(lam)
    shape = lam.shape if shape is None else shp(shape)
    lam = np.broadcast_to(lam.view(np.ndarray), shape)
    # the draw depends on the rate: one variable per key, position and rate
    key = as_key(key)
    ctx_log(("draw", "poisson", key, shape, lam))
    o = np.empty(shape, dtype=object)
    c = ctx()
    for ix in np.ndindex(*shape):
        r = lift(lam[ix])
        nm = f"rng:poisson:{key.name}:{'x'.join(map(str, shape))}:{'_'.join(map(str, ix))}:{r.h if isinstance(r, R) else r}"
        v = c.fresh.get(nm)
        if v is None:
            v = c.declare(nm, 0, None, kind="int")
            c.fresh[nm] = v
            c.rates = getattr(c, "rates", {})
            c.rates[v.h] = r
            RATE_OF[nm] = r
        o[ix] = v
    return o.view(SArr)


@override("jax.random.randint")
def randint(key, shape, minval, maxval, dtype=int):
    shape = shp(shape)
    lo, hi = lift(A.un0(asarr(minval))), lift(A.un0(asarr(maxval)))
    key = as_key(key)
    ctx_log(("draw", "randint", key, shape))
    c = ctx()
    o = np.empty(shape, dtype=object)
    lc = int(lo.const()) if lo.is_const() else None
    hc = int(hi.const()) - 1 if hi.is_const() else None
    for ix in np.ndindex(*shape):
        nm = f"rng:randint:{key.name}:{'x'.join(map(str, shape))}:{'_'.join(map(str, ix))}:{lo.h}:{hi.h}"
        v = c.fresh.get(nm)
        if v is None:
            v = c.declare(nm, lc, hc, kind="int")
            c.fresh[nm] = v
            if lc is None:
                c.assume(v >= lo)
            if hc is None:
                c.assume(v < hi)
        o[ix] = v
    return A.un0(o.view(SArr)) if shape == () else o.view(SArr)


@override("jax.random.multivariate_normal")
def multivariate_normal(key, mean, cov, shape=None, dtype=None, method="cholesky"):
    mean, cov = asarr(mean), asarr(cov)
    shape = () if shape is None else shp(shape)
    d = mean.shape[-1]
    z = fresh("normal", key, shape + (d,))
    L = A.jnp_cholesky(cov)
    return emap(A.s_add, mean, A.matmul(z, asarr(L).T))


def _perm(key, tag, n, m):
    """the first m entries of an arbitrary permutation of 0..n-1 (one fork per choice)"""
    c = ctx()
    key = as_key(key)
    nm = f"rng:{tag}:{key.name}:{n}:{m}"
    if nm in c.fresh:
        return c.fresh[nm]
    left = list(range(n))
    outp = []
    for j in range(m):
        # pick one of the remaining items
        i = 0
        while i < len(left) - 1 and not S.truth(S.bvar(f"{nm}:{j}:{i}")):
            i += 1
        outp.append(left.pop(i))
    c.fresh[nm] = outp
    ctx_log(("draw", tag, key, (n, m), tuple(outp)))
    return outp


PERM_HOOK = [None]


def perm(key, tag, n, m):
    if PERM_HOOK[0] is not None:
        r = PERM_HOOK[0](as_key(key), tag, n, m)
        if r is not None:
            return r
    return _perm(key, tag, n, m)


@override("jax.random.choice")
def choice(key, a, shape=(), replace=True, p=None, axis=0):
    shape = shp(shape)
    if isinstance(a, (int, np.integer, R)):
        n = int(conc(a))
        arr = None
    else:
        arr = asarr(a)
        n = arr.shape[axis] if arr.ndim else int(conc(arr))
        if arr.ndim == 0:
            arr = None
    m = int(np.prod(shape)) if shape else 1
    if p is not None:
        raise Unsupported("choice with probabilities")
    if not replace:
        if m > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        idx = perm(key, "choice", n, m)
    else:
        idx = randint(key, (m,), 0, n)
        if m == 1 and shape == ():
            idx = asarr(idx).reshape(1)
    if arr is None:
        o = np.array(idx, dtype=object).reshape(shape).view(SArr)
        if not has_terms(idx):
            return np.array([int(i) for i in idx]).reshape(shape)
        return o
    if axis != 0:
        arr = np.moveaxis(arr, axis, 0)
    res = arr[np.array(idx, dtype=int)] if not replace else arr[asarr(idx)]
    return asarr(res).reshape(shape + res.shape[1:])


@override("jax.random.permutation")
def permutation(key, x, axis=0, independent=False):
    if isinstance(x, (int, np.integer)):
        return np.array(perm(key, "permutation", int(x), int(x)))
    x = asarr(x)
    n = x.shape[axis]
    idx = np.array(perm(key, "permutation", n, n))
    return np.take(x.view(np.ndarray), idx, axis=axis).view(SArr)


W.OVERRIDES["jax.random.shuffle"] = permutation


def _gen(kind, **dk):
    def f(key, *a, shape=(), dtype=float, **k):
        raise Unsupported(f"jax.random.{kind}")

    return f


for _n in ("beta", "gamma", "t", "chisquare", "cauchy", "laplace", "logistic", "dirichlet", "categorical", "gumbel", "truncated_normal",
           "rademacher", "bits", "ball", "orthogonal", "binomial", "loggamma", "pareto"):
    W.OVERRIDES[f"jax.random.{_n}"] = _gen(_n)


class NpRng:
    """numpy.random.default_rng(seed): draws are a function of the seed and the position in the stream"""

    def __init__(self, seed=None):
        if isinstance(seed, np.ndarray) and seed.dtype == object and seed.ndim == 0:
            seed = seed[()]
        self.tok = KeyTok(("np", "key", seed.id) if isinstance(seed, KeyTok) else ("np", keyval(seed) if seed is not None else object()))
        self.n = 0

    def _next(self):
        self.n += 1
        return KeyTok(("npd", self.tok.id, self.n))

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = fresh("normal", self._next(), () if size is None else size)
        return emap(lambda a, l, s: l + s * a, z, asarr(loc), asarr(scale))

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def uniform(self, low=0.0, high=1.0, size=None):
        u = fresh("uniform", self._next(), () if size is None else size, 0, 1, hi_open=True)
        return emap(lambda a, l, s: l + (s - l) * a, u, asarr(low), asarr(high))

    def random(self, size=None):
        return self.uniform(size=size)

    def permutation(self, x):
        return permutation(self._next(), x)

    def __getattr__(self, k):
        raise Unsupported(f"numpy Generator.{k}")


@override("numpy.random.default_rng")
def default_rng(seed=None):
    if isinstance(seed, NpRng):
        return seed
    return NpRng(seed)


# =============================================================================== types
class _ArrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArr, R, jax.Array, KeyTok, KeyArr)) or (isinstance(x, np.ndarray) and x.dtype == object)

    def __subclasscheck__(cls, c):
        return issubclass(c, (jax.Array, SArr))


class JArray(metaclass=_ArrMeta):
    pass


W.OVERRIDES["jax.Array"] = JArray
W.OVERRIDES["jax.numpy.ndarray"] = JArray


class _NpGenericMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.generic)


# =============================================================================== linear algebra
def expm(a, **k):
    a = asarr(a)
    if not is_sym(a):
        from jax.scipy.linalg import expm as real

        return W.jout(real(jnp.asarray(conc(a))))
    n = a.shape[0]
    if any((a[i, j] + a[j, i]).t if isinstance(a[i, j] + a[j, i], R) else True for i in range(n) for j in range(i, n)):
        # not visibly skew-symmetric
        if all(isinstance(a[i, j], R) and not a[i, j].t for i in range(n) for j in range(n) if i != j):
            return np.diag([S.exp_(a[i, i]) for i in range(n)]).astype(object).view(SArr)
        nil = A.matmul(a, a)
        if all(isinstance(e, R) and not e.t for e in nil.flat):
            return A.f_eye(n) + a
        raise Unsupported("expm of a general symbolic matrix")
    eye = A.f_eye(n)
    if n == 1:
        return eye
    if n == 2:
        th = a[0, 1]
        c, s = S.cos_(th), S.sin_(th)
        o = np.empty((2, 2), dtype=object)
        o[0, 0] = o[1, 1] = c
        o[0, 1], o[1, 0] = s, -s
        return o.view(SArr)
    # skew-symmetric of rank two: exp(A) = I + sin(t)/t A + (1-cos t)/t^2 A^2 with t^2 = sum of squares of the upper entries
    a3 = A.matmul(a, A.matmul(a, a))
    t2 = S.R_const(0)
    for i in range(n):
        for j in range(i + 1, n):
            t2 = t2 + a[i, j] * a[i, j]
    if n == 3 or all(isinstance(x, R) and not x.t for x in (a3 + a * t2).flat):
        if not t2.t:
            return eye
        if S.truth(S.cmp_eq(t2, 0)):
            return eye
        t = S.sqrt_(t2)
        sc = S.div(S.sin_(t), t)
        cc = S.div(1 - S.cos_(t), t2)
        return eye + a * sc + A.matmul(a, a) * cc
    raise Unsupported("expm of a skew matrix of rank above two")


W.OVERRIDES["jax.scipy.linalg.expm"] = expm
W.OVERRIDES["scipy.linalg.expm"] = expm


# =============================================================================== pydantic
import pydantic  # noqa: E402


def _constrained(base, real, check, name):
    isint = base is int

    class Meta(type(W.int_) if isint else type(W.float_)):
        pass

    class C(W.int_ if isint else W.float_, metaclass=Meta):
        @classmethod
        def __get_validators__(cls):
            yield cls._validate

        @classmethod
        def _validate(cls, v):
            if isinstance(v, np.ndarray) and v.dtype == object and v.size == 1:
                v = v.flat[0]
            if isinstance(v, B):
                v = v._r()
            if isinstance(v, R) and not v.is_const():
                if isint:
                    v = W.to_int(v)
                check(v)
                return v
            if isinstance(v, R):
                v = v.const()
                v = int(v) if v.denominator == 1 and (isint or True) else float(v)
            m = pydantic.create_model("M", x=(real, ...))
            try:
                return m(x=v).x
            except pydantic.ValidationError as e:
                raise ValueError(e.errors()[0]["msg"]) from None

    C.__name__ = name
    C.__qualname__ = name
    return C


def _bounds(gt=None, ge=None, lt=None, le=None, **k):
    def check(v):
        if gt is not None and not S.truth(v > gt):
            raise ValueError(f"ensure this value is greater than {gt}")
        if ge is not None and not S.truth(v >= ge):
            raise ValueError(f"ensure this value is greater than or equal to {ge}")
        if lt is not None and not S.truth(v < lt):
            raise ValueError(f"ensure this value is less than {lt}")
        if le is not None and not S.truth(v <= le):
            raise ValueError(f"ensure this value is less than or equal to {le}")

    return check


W.OVERRIDES["pydantic.PositiveInt"] = _constrained(int, pydantic.PositiveInt, _bounds(gt=0), "PositiveInt")
W.OVERRIDES["pydantic.NonNegativeInt"] = _constrained(int, pydantic.NonNegativeInt, _bounds(ge=0), "NonNegativeInt")
W.OVERRIDES["pydantic.PositiveFloat"] = _constrained(float, pydantic.PositiveFloat, _bounds(gt=0), "PositiveFloat")
W.OVERRIDES["pydantic.NonNegativeFloat"] = _constrained(float, pydantic.NonNegativeFloat, _bounds(ge=0), "NonNegativeFloat")
W.OVERRIDES["pydantic.confloat"] = lambda **k: _constrained(float, pydantic.confloat(**k), _bounds(**k), "ConstrainedFloat")
W.OVERRIDES["pydantic.conint"] = lambda **k: _constrained(int, pydantic.conint(**k), _bounds(**k), "ConstrainedInt")
W.OVERRIDES["pydantic.BaseModel"] = pydantic.BaseModel
W.OVERRIDES["pydantic.Field"] = pydantic.Field
W.OVERRIDES["pydantic.validator"] = lambda *a, **k: pydantic.validator(*a, **{**k, "allow_reuse": True})
W.OVERRIDES["pydantic.root_validator"] = lambda *a, **k: (
    pydantic.root_validator(allow_reuse=True)(a[0]) if a and callable(a[0]) and not k else pydantic.root_validator(**{**k, "allow_reuse": True}))
for _n in ("create_model", "parse_obj_as", "Extra", "ValidationError"):
    W.OVERRIDES[f"pydantic.{_n}"] = getattr(pydantic, _n)


# =============================================================================== equinox / optax
import equinox as eqx  # noqa: E402


class Linear(eqx.Module):
    weight: SArr
    bias: object
    in_features: object = eqx.field(static=True) if hasattr(eqx, "field") else eqx.static_field()
    out_features: object = eqx.field(static=True) if hasattr(eqx, "field") else eqx.static_field()
    use_bias: bool = eqx.field(static=True) if hasattr(eqx, "field") else eqx.static_field()

    def __init__(self, in_features, out_features, use_bias=True, *, key, **k):
        kw, kb = rsplit(key, 2)
        lim = S.div(S.R_const(1), S.sqrt_(S.R_const(in_features)))
        self.weight = emap(lambda u: (2 * u - 1) * lim, fresh("uniform", kw, (out_features, in_features), 0, 1, hi_open=True))
        self.bias = emap(lambda u: (2 * u - 1) * lim, fresh("uniform", kb, (out_features,), 0, 1, hi_open=True)) if use_bias else None
        self.in_features = in_features
        self.out_features = out_features
        self.use_bias = use_bias

    def __call__(self, x, *, key=None):
        y = A.matmul(asarr(self.weight), asarr(x))
        return y + self.bias if self.bias is not None else y


W.OVERRIDES["equinox.nn.Linear"] = Linear


@override("equinox.is_array")
def eqx_is_array(x):
    return isinstance(x, (SArr, R, jax.Array))


W.OVERRIDES["equinox.is_inexact_array"] = eqx_is_array
W.OVERRIDES["equinox.Module"] = eqx.Module


@override("equinox.apply_updates")
@override("optax.apply_updates")
def apply_updates(params, updates):
    return jax.tree_util.tree_map(lambda p, u: p if u is None else asarr(emap(A.s_add, asarr(p), asarr(u))), params, updates,
                                  is_leaf=lambda x: x is None or leafy(x))


def _optimizer(real):
    import optax

    class Opt:
        def init(self, params):
            from . import jx

            return jx.trace_call(real.init, (params,), {})

        def update(self, grads, state, params=None):
            from . import jx

            return jx.trace_call(real.update, (grads, state, params), {})

    return Opt()


def _opt(name):
    def f(*a, **k):
        import optax

        fn = getattr(optax, name)
        if has_terms(a) or has_terms(k):
            raise Unsupported("symbolic optimiser settings")
        return _optimizer(fn(*a, **k))

    return f


for _n in ("adam", "sgd", "adamw", "rmsprop", "adagrad"):
    W.OVERRIDES[f"optax.{_n}"] = _opt(_n)


# =============================================================================== scikit-learn
class StandardScaler:
    def __init__(self, *, copy=True, with_mean=True, with_std=True):
        self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

    def fit(self, X, y=None, sample_weight=None):
        X = asarr(X)
        if X.ndim != 2:
            raise ValueError("Expected 2D array, got %dD array instead" % X.ndim)
        self.mean_ = A.f_mean(X, axis=0)
        self.var_ = A.f_var(X, axis=0)
        sc = np.empty(X.shape[1], dtype=object)
        for j in range(X.shape[1]):
            v = self.var_[j]
            sc[j] = S.R_const(1) if S.truth(S.cmp_eq(v, 0)) else S.sqrt_(v)
        self.scale_ = sc.view(SArr)
        self.n_features_in_ = X.shape[1]
        return self

    def transform(self, X, copy=None):
        src = X
        X = asarr(X)
        if X.ndim != 2 or X.shape[1] != self.n_features_in_:
            raise ValueError("X has a different number of features")
        r = X
        if self.with_mean:
            r = emap(A.s_sub, r, self.mean_)
        if self.with_std:
            r = emap(A.s_div, r, self.scale_)
        cp = self.copy if copy is None else copy
        if not cp and isinstance(src, np.ndarray) and src.dtype == object:
            src[...] = r  # in place, as scikit-learn does
            return src
        return r

    def fit_transform(self, X, y=None, **k):
        return self.fit(X).transform(X)

    def inverse_transform(self, X, copy=None):
        r = asarr(X)
        if self.with_std:
            r = emap(A.s_mul, r, self.scale_)
        if self.with_mean:
            r = emap(A.s_add, r, self.mean_)
        return r


W.OVERRIDES["sklearn.preprocessing.StandardScaler"] = StandardScaler


@override("sklearn.preprocessing.scale")
def sk_scale(X, *, axis=0, with_mean=True, with_std=True, copy=True):
    return StandardScaler(with_mean=with_mean, with_std=with_std, copy=copy).fit_transform(X)


def _dist(metric):
    def eu(d):
        return S.sqrt_(sum((x * x for x in d[1:]), d[0] * d[0])) if len(d) > 1 else S.abs_(d[0])

    def l1(d):
        return sum((S.abs_(x) for x in d[1:]), S.abs_(d[0]))

    def li(d):
        r = S.abs_(d[0])
        for x in d[1:]:
            r = S.max_(r, S.abs_(x))
        return r

    def sq(d):
        return sum((x * x for x in d[1:]), d[0] * d[0])

    t = {"euclidean": eu, "l2": eu, "manhattan": l1, "l1": l1, "cityblock": l1, "chebyshev": li, "sqeuclidean": sq}
    if callable(metric):
        raise Unsupported("callable metric")
    if metric not in t:
        known = ("cosine", "haversine", "minkowski", "canberra", "braycurtis", "correlation", "seuclidean", "mahalanobis", "nan_euclidean")
        if metric in known:
            raise Unsupported(f"metric {metric}")
        raise ValueError(f"Unknown metric {metric}")
    return t[metric]


@override("sklearn.metrics.pairwise_distances")
def pairwise_distances(X, Y=None, metric="euclidean", **k):
    X = asarr(X)
    same = Y is None or Y is X
    Y = X if Y is None else asarr(Y)
    if X.ndim != 2 or Y.ndim != 2 or X.shape[1] != Y.shape[1]:
        raise ValueError("Incompatible dimension")
    f = _dist(metric)
    o = np.empty((X.shape[0], Y.shape[0]), dtype=object)
    for i in range(X.shape[0]):
        for j in range(Y.shape[0]):
            d = [X[i, q] - Y[j, q] for q in range(X.shape[1])]
            if all(isinstance(v, R) and not v.t for v in d):
                o[i, j] = S.R_const(0)
            else:
                o[i, j] = f(d)
    return o.view(SArr)


W.OVERRIDES["sklearn.metrics.pairwise.pairwise_distances"] = pairwise_distances


@override("sklearn.metrics.pairwise_distances_chunked")
def pd_chunked(*a, **k):
    raise Unsupported("pairwise_distances_chunked")


@override("scipy.spatial.distance.cdist")
def cdist(X, Y, metric="euclidean", **k):
    return pairwise_distances(X, Y, metric)


def flat_terms(a):
    return tuple(lift(e) for e in asarr(a).flat)


class KernelDensity:
    """opaque density estimator: log-density is a function of kernel, bandwidth, the fitted points and the point"""

    def __init__(self, *, bandwidth=1.0, algorithm="auto", kernel="gaussian", metric="euclidean", atol=0, rtol=0,
                 breadth_first=True, leaf_size=40, metric_params=None):
        self.bandwidth, self.algorithm, self.kernel, self.metric = bandwidth, algorithm, kernel, metric
        self.extra = (metric, atol, rtol)

    def fit(self, X, y=None, sample_weight=None):
        if sample_weight is not None:
            raise Unsupported("KDE weights")
        X = asarr(X)
        if X.ndim != 2:
            raise ValueError("Expected 2D array")
        if self.kernel not in ("gaussian", "tophat", "epanechnikov", "exponential", "linear", "cosine"):
            raise ValueError("invalid kernel")
        self.X = X.copy()
        return self

    def score_samples(self, X):
        X = asarr(X)
        bw = self.bandwidth
        if isinstance(bw, str):
            tag, b = bw, ()
        else:
            b = (lift(A.un0(asarr(bw))),)
            tag = ""
        if X.shape[1] != self.X.shape[1]:
            raise ValueError("wrong number of features")
        o = np.empty(X.shape[0], dtype=object)
        for i in range(X.shape[0]):
            o[i] = S.uf(f"kde:{self.kernel}:{tag}:{self.extra}:{self.X.shape}", *b, *flat_terms(self.X), *flat_terms(X[i]))
        return o.view(SArr)

    def score(self, X, y=None):
        return A.f_sum(self.score_samples(X))


W.OVERRIDES["sklearn.neighbors.KernelDensity"] = KernelDensity


class CCA:
    """opaque canonical projections: functions of the settings and the data"""

    def __init__(self, n_components=2, *, scale=True, max_iter=500, tol=1e-06, copy=True):
        self.n_components, self.scale, self.max_iter, self.tol = n_components, scale, max_iter, tol

    def fit(self, X, Y):
        X, Y = asarr(X), asarr(Y)
        if X.ndim == 1:
            raise ValueError("Expected 2D array, got 1D array instead")
        n = int(conc(self.n_components))
        if n > min(X.shape[0], X.shape[1], Y.shape[1]) or n < 1:
            raise ValueError("`n_components` upper bound exceeded")
        self.n = n
        self.data = (X.copy(), Y.copy())
        self.tag = f"cca:{n}:{self.scale}:{self.max_iter}:{self.tol}:{X.shape}:{Y.shape}"
        return self

    def _tr(self, which, Z):
        Z = asarr(Z)
        o = np.empty((Z.shape[0], self.n), dtype=object)
        if self.data[0].shape[1] == self.data[1].shape[1] == 1:
            # one-dimensional: the score is the (scaled) centred variable, up to its sign
            D = self.data[0 if which == "x" else 1]
            m = A.f_mean(D, axis=0)[0]
            sd = A.f_std(D, axis=0, ddof=1)[0] if self.scale else S.R_const(1)
            for i in range(Z.shape[0]):
                o[i, 0] = S.div(Z[i, 0] - m, sd)
            return o.view(SArr)
        ft = flat_terms(self.data[0]) + flat_terms(self.data[1])
        for i in range(Z.shape[0]):
            for j in range(self.n):
                o[i, j] = S.uf(f"{self.tag}:{which}:{j}", *ft, *flat_terms(Z[i]))
        return o.view(SArr)

    def transform(self, X, Y=None, copy=True):
        x = self._tr("x", X)
        return x if Y is None else (x, self._tr("y", Y))

    def fit_transform(self, X, y=None):
        return self.fit(X, y).transform(X, y)


W.OVERRIDES["sklearn.cross_decomposition.CCA"] = CCA


@override("sklearn.model_selection.train_test_split")
def train_test_split(*arrays, test_size=None, train_size=None, random_state=None, shuffle=True, stratify=None):
    if stratify is not None:
        raise Unsupported("stratified split")
    lens = [len(a) for a in arrays]
    n = lens[0]
    if any(m != n for m in lens):
        raise ValueError("Found input variables with inconsistent numbers of samples")

    def size(v, name):
        if isinstance(v, float):  # 1.0 is a share, 1 a count
            v = Fraction(v)
        else:
            v = A.un0(asarr(v)) if v is not None else None
        if v is None:
            return None, None
        if isinstance(v, R) and v.is_const():
            c = v.const()
            v = int(c) if v.is_int and not isinstance(v, float) and c.denominator == 1 and c != 0 and c >= 1 else c
        if isinstance(v, int):
            if v <= 0 or v >= n:
                raise ValueError(f"{name}={v} should be positive and smaller than the number of samples")
            return v, "i"
        if isinstance(v, Fraction):
            if v <= 0 or v >= 1:
                raise ValueError(f"{name}={v} should be in the (0, 1) range")
            return v, "f"
        if not S.truth(v > 0) or not S.truth(v < 1):
            raise ValueError(f"{name} should be in the (0, 1) range")
        return v, "f"

    ts, tk = size(test_size, "test_size")
    rs, rk = size(train_size, "train_size")
    if tk is None and rk is None:
        ts, tk = Fraction(1, 4), "f"

    def fl(v):
        r = S.floor_(lift(v) * n)
        return int(r.const()) if r.is_const() else S.concretize_int(r)

    def ce(v):
        r = -S.floor_(-(lift(v) * n))
        return int(r.const()) if r.is_const() else S.concretize_int(r)

    n_test = ce(ts) if tk == "f" else ts
    n_train = fl(rs) if rk == "f" else rs
    if rk is None:
        n_train = n - n_test
    elif tk is None:
        n_test = n - n_train
    if n_train + n_test > n:
        raise ValueError("sum of train_size and test_size too large")
    if n_train == 0:
        raise ValueError("the resulting train set will be empty")
    if shuffle:
        ctx_log(("sk_split", random_state))
        key = KeyTok(("sk", keyval(random_state) if random_state is not None else object()))
        p = SPLIT_HOOK[0](key, n, n_test) if SPLIT_HOOK[0] else perm(key, "sksplit", n, n)
        ite, itr = p[:n_test], p[n_test:n_test + n_train]
    else:
        itr, ite = list(range(n_train)), list(range(n_train, n_train + n_test))
    out = []
    for a in arrays:
        x = asarr(a) if not isinstance(a, np.ndarray) else a
        out += [x[np.array(itr, dtype=int)], x[np.array(ite, dtype=int)]]
    return out


SPLIT_HOOK = [None]


# =============================================================================== misc
@override("numpy.testing.assert_allclose")
def np_assert_allclose(a, b, rtol=1e-7, atol=0, **k):
    if not S.truth(A.f_allclose(a, b, rtol, atol)):
        raise AssertionError("Not equal to tolerance")


class _Tqdm:
    def __init__(self, it=None, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __getattr__(self, k):
        return lambda *a, **kw: None


W.OVERRIDES["tqdm.tqdm"] = _Tqdm
W.OVERRIDES["tqdm.trange"] = lambda *a, **k: _Tqdm(range(*a))
