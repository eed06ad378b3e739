"""JAX on symbolic arrays: trace the real function with jax.make_jaxpr and interpret the jaxpr."""
from __future__ import annotations

import functools
import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax import core as jcore

from . import sarr as A
from . import sym as S
from .sarr import SArr, asarr, conc, emap, is_sym, reduce_
from .sym import B, R, Unsupported, lift

MAX_WHILE = 200


# ------------------------------------------------------------------------------- tracing
def _kind(x):
    """abstract dtype of a symbolic leaf"""
    es = list(x.flat) if isinstance(x, np.ndarray) else [x]
    if es and all(A._isb(e) for e in es):
        return np.bool_
    if es and all(isinstance(e, R) and e.is_int for e in es) and any(not e.is_const() for e in es):
        return np.int32
    return np.float32


def _is_leaf_sym(x):
    return isinstance(x, (R, B, SArr)) or (isinstance(x, np.ndarray) and x.dtype == object)


def trace_call(f, args, kwargs):
    """evaluate the real function f on (possibly symbolic) args by tracing it"""
    leaves, tree = jax.tree_util.tree_flatten((args, kwargs), is_leaf=lambda x: _is_leaf_sym(x) or hasattr(x, "_sym_array_"))
    leaves = [asarr(x) if hasattr(x, "_sym_array_") else x for x in leaves]
    pos, avals, vals = [], [], []
    for i, x in enumerate(leaves):
        if _is_leaf_sym(x):
            if not is_sym(x):
                leaves[i] = conc(x)
                if isinstance(leaves[i], np.ndarray) and leaves[i].ndim and leaves[i].dtype.kind == "i":
                    leaves[i] = leaves[i].astype(np.float64)
                if isinstance(leaves[i], np.ndarray) and leaves[i].dtype == np.float64:
                    # keep exactness: pass constants as symbolic inputs of the jaxpr
                    pos.append(i)
                    avals.append(jax.ShapeDtypeStruct(leaves[i].shape, np.float32))
                    vals.append(asarr(x))
                continue
            a = asarr(x)
            pos.append(i)
            avals.append(jax.ShapeDtypeStruct(a.shape, _kind(a)))
            vals.append(a)

    def g(*xs):
        ls = list(leaves)
        for i, x in zip(pos, xs):
            ls[i] = x
        a, k = jax.tree_util.tree_unflatten(tree, ls)
        return f(*a, **k)

    try:
        closed, out_shape = jax.make_jaxpr(g, return_shape=True)(*avals)
    except (jax.errors.ConcretizationTypeError, jax.errors.TracerArrayConversionError, jax.errors.TracerIntegerConversionError) as e:
        raise Unsupported(f"jax tracing of {getattr(f, '__name__', f)}: {type(e).__name__}") from None
    outs = eval_jaxpr(closed.jaxpr, closed.consts, vals)
    out_tree = jax.tree_util.tree_structure(out_shape)
    from .world import jout

    return jax.tree_util.tree_unflatten(out_tree, [A.un0(o) if isinstance(o, SArr) else jout(o) for o in outs])


def np_fallback(func, args, kwargs):
    """numpy function without a symbolic implementation: use the jnp function of the same name"""
    jf = getattr(jnp, func.__name__, None) or getattr(jnp.linalg, func.__name__, None)
    if jf is None:
        raise Unsupported(f"numpy function {func.__name__} on symbolic values")
    return trace_call(jf, args, kwargs)


# ------------------------------------------------------------------------------- interpreter
def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        return v.val if isinstance(v, jcore.Literal) else env[v]

    def write(v, x):
        env[v] = x

    for v, c in zip(jaxpr.constvars, consts):
        write(v, c)
    for v, a in zip(jaxpr.invars, args):
        write(v, a)
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        outs = eval_eqn(eqn, ins)
        for v, o in zip(eqn.outvars, outs):
            write(v, o)
    return [read(v) for v in jaxpr.outvars]


def _symv(x):
    return isinstance(x, (SArr, R, B)) or (isinstance(x, np.ndarray) and x.dtype == object)


def _as(x):
    return asarr(x)


def eval_eqn(eqn, ins):
    p = eqn.primitive
    name = p.name
    params = eqn.params
    if name in CALLS:
        return call_prim(name, eqn, ins)
    if name in ("while", "scan", "cond"):
        return CONTROL[name](eqn, ins)
    if not any(_symv(x) for x in ins):
        subfuns, bind_params = p.get_bind_params(params)
        out = p.bind(*subfuns, *ins, **bind_params)
        return list(out) if p.multiple_results else [out]
    if not any(is_sym(x) for x in ins) and name in ("convert_element_type",) and False:
        pass
    f = ELEM.get(name)
    if f is not None:
        return [asarr(emap(f, *ins))]
    h = PRIMS.get(name)
    if h is not None:
        r = h(eqn, *ins, **params)
        return r if isinstance(r, list) else [asarr(r)]
    if name in STRUCT:
        return structural(eqn, ins)
    if not any(is_sym(x) for x in ins):
        subfuns, bind_params = p.get_bind_params(params)
        cs = [np.asarray(conc(x), dtype=_av_dtype(v)) if _symv(x) else x for x, v in zip(ins, eqn.invars)]
        out = p.bind(*subfuns, *cs, **bind_params)
        return list(out) if p.multiple_results else [out]
    raise Unsupported(f"jax primitive {name} on symbolic values")


def _av_dtype(v):
    return v.aval.dtype


CALLS = {"pjit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "remat", "checkpoint",
         "remat2", "xla_call", "custom_lin", "core_closed_call"}


def call_prim(name, eqn, ins):
    ps = eqn.params
    j = ps.get("jaxpr") or ps.get("call_jaxpr") or ps.get("fun_jaxpr")
    if name == "pjit" and ps.get("name") in NAMED:
        r = NAMED[ps["name"]](eqn, ins)
        if r is not None:
            return r
    if isinstance(j, jcore.ClosedJaxpr):
        return eval_jaxpr(j.jaxpr, j.consts, ins)
    return eval_jaxpr(j, (), ins)


NAMED = {}


# ---- control flow
def p_while(eqn, ins):
    ps = eqn.params
    cn, bn = ps["cond_nconsts"], ps["body_nconsts"]
    cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
    for it in range(MAX_WHILE):
        c, = eval_jaxpr(ps["cond_jaxpr"].jaxpr, ps["cond_jaxpr"].consts, cc + carry)
        c = A.un0(asarr(c)) if _symv(c) else bool(c)
        if not S.truth(A._bool(c) if isinstance(c, (R, B)) else c):
            return carry
        carry = list(eval_jaxpr(ps["body_jaxpr"].jaxpr, ps["body_jaxpr"].consts, bc + carry))
    raise Unsupported("while loop exceeded the unrolling bound")


def p_scan(eqn, ins):
    ps = eqn.params
    nc, nk = ps["num_consts"], ps["num_carry"]
    consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
    n = ps["length"]
    ys = []
    order = range(n - 1, -1, -1) if ps["reverse"] else range(n)
    for i in order:
        x = [asarr(a)[i] if _symv(a) else a[i] for a in xs]
        x = [asarr(v) if isinstance(v, (R, B)) else v for v in x]
        out = eval_jaxpr(ps["jaxpr"].jaxpr, ps["jaxpr"].consts, consts + carry + x)
        carry = list(out[:nk])
        ys.append(out[nk:])
    if ps["reverse"]:
        ys.reverse()
    nout = len(eqn.outvars) - nk
    stacked = []
    for k in range(nout):
        col = [y[k] for y in ys]
        if any(_symv(c) for c in col):
            stacked.append(np.stack([asarr(c).view(np.ndarray) for c in col]).view(SArr))
        else:
            stacked.append(jnp.stack(col) if col else jnp.zeros(eqn.outvars[nk + k].aval.shape, eqn.outvars[nk + k].aval.dtype))
    return carry + stacked


def p_cond(eqn, ins):
    ps = eqn.params
    idx, ops = ins[0], ins[1:]
    br = ps["branches"]
    if _symv(idx):
        i = A.un0(asarr(idx))
        if A._isb(i):
            k = 1 if S.truth(i) else 0
        else:
            k = max(0, min(len(br) - 1, int(i)))
    else:
        k = max(0, min(len(br) - 1, int(idx)))
    return eval_jaxpr(br[k].jaxpr, br[k].consts, list(ops))


CONTROL = {"while": p_while, "scan": p_scan, "cond": p_cond}


# ---- elementwise
def _idiv(a, b):
    return A.s_div(a, b)


def _select(which, *cases):
    if A._isb(which):
        f, t = cases
        return S.ite(which, t, f) if isinstance(which, B) else (t if which else f)
    w = lift(which)
    r = cases[-1]
    for i in range(len(cases) - 2, -1, -1):
        c = S.cmp_eq(w, S.R_const(i))
        r = S.ite(c, cases[i], r) if isinstance(c, B) else (cases[i] if c else r)
    return r


def _and(a, b):
    return A.s_and(a, b)


U = A.UFUNCS
ELEM = {
    "add": A.s_addn, "add_any": A.s_addn, "sub": A.s_sub, "mul": lambda a, b: A._num(a) * A._num(b), "neg": U["negative"], "sign": U["sign"],
    "floor": U["floor"], "ceil": U["ceil"], "exp": U["exp"], "exp2": U["exp2"], "log": A.s_log, "log1p": U["log1p"], "expm1": U["expm1"],
    "sin": U["sin"], "cos": U["cos"], "tan": U["tan"], "tanh": U["tanh"], "sinh": U["sinh"], "cosh": U["cosh"], "asinh": U["arcsinh"],
    "atan": U["arctan"], "logistic": U["expit"], "erf": U["erf"], "erfc": U["erfc"], "erf_inv": U["erfinv"], "lgamma": U["gammaln"],
    "digamma": U["digamma"], "sqrt": U["sqrt"], "rsqrt": lambda a: A.s_div(1, S.sqrt_(A._num(a))), "cbrt": A.s_cbrt, "square": U["square"],
    "pow": A.s_pow, "max": A.s_max, "min": A.s_min, "abs": U["absolute"], "eq": A.s_eq, "ne": U["not_equal"], "lt": U["less"],
    "le": U["less_equal"], "gt": U["greater"], "ge": U["greater_equal"], "and": _and, "or": A.s_or, "not": A.s_invert, "xor": A.s_xor,
    "is_finite": A.s_isfinite, "stop_gradient": lambda a: a, "copy": lambda a: a, "copy_p": lambda a: a, "real": lambda a: a, "reduce_precision": None,
    "nextafter": None, "eq_to": A.s_eq, "lt_to": U["less"], "le_to": U["less_equal"],
}
ELEM = {k: v for k, v in ELEM.items() if v is not None}


def _isint(v):
    return np.issubdtype(v.aval.dtype, np.integer)


def p_div(eqn, a, b, **k):
    if _isint(eqn.invars[0]):
        def f(x, y):
            return S.trunc_(A.s_div(x, y))
        return emap(f, a, b)
    return emap(A.s_div, a, b)


def p_rem(eqn, a, b, **k):
    def f(x, y):
        x, y = A._num(x), A._num(y)
        return x - y * S.trunc_(A.s_div(x, y))

    return emap(f, a, b)


def p_convert(eqn, a, new_dtype=None, **k):
    src, dst = eqn.invars[0].aval.dtype, np.dtype(new_dtype)
    if dst.kind == "f":
        return emap(A._num, a)
    if dst.kind in "iu":
        if np.dtype(src).kind == "f":
            return emap(lambda e: S.trunc_(A._num(e)), a)
        return emap(A._num, a)
    if dst.kind == "b":
        return emap(A._bool, a)
    raise Unsupported(f"convert to {dst}")


def p_select_n(eqn, which, *cases, **k):
    return emap(_select, which, *cases)


def p_clamp(eqn, lo, x, hi, **k):
    return emap(lambda l, v, h: A.s_min(A.s_max(v, l), h), lo, x, hi)


def p_ipow(eqn, x, y=None, **k):
    return emap(lambda v: S.power(A._num(v), int(y)), x)


def p_round(eqn, x, rounding_method=None, **k):
    return emap(lambda v: S.round_(A._num(v)), x)


def p_red(f, init=None):
    def g(eqn, x, axes=(), **k):
        return reduce_(f, x, tuple(axes) if axes else (), init=init) if axes else x

    return g


def p_arg(better):
    def g(eqn, x, axes=(), index_dtype=None, **k):
        return A.f_arg(x, axes[0], better)

    return g


def p_cum(f):
    def g(eqn, x, axis=0, reverse=False, **k):
        x = asarr(x)
        if reverse:
            return np.flip(A.accumulate(f, np.flip(x.view(np.ndarray), axis).view(SArr), axis).view(np.ndarray), axis).view(SArr)
        return A.accumulate(f, x, axis)

    return g


def p_dot_general(eqn, a, b, dimension_numbers=None, **k):
    (ca, cb), (ba, bb) = dimension_numbers
    a, b = asarr(a).view(np.ndarray), asarr(b).view(np.ndarray)
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    at = a.transpose(list(ba) + fa + list(ca))
    bt = b.transpose(list(bb) + list(cb) + fb)
    bs = [a.shape[i] for i in ba]
    K = int(np.prod([a.shape[i] for i in ca])) if ca else 1
    at = at.reshape(bs + [-1, K])
    bt = bt.reshape(bs + [K, -1])
    r = asarr(A.matmul(at.view(SArr), bt.view(SArr)))
    return r.reshape(tuple(bs + [a.shape[i] for i in fa] + [b.shape[i] for i in fb]))


def p_sort(eqn, *ops, dimension=-1, num_keys=1, is_stable=True, **k):
    ops = [asarr(o) for o in ops]
    if len(ops) == 1:
        return A.f_sort(ops[0], dimension)
    key = np.moveaxis(ops[0].view(np.ndarray), dimension, -1)
    outs = [np.empty(key.shape, dtype=object) for _ in ops]
    mv = [np.moveaxis(o.view(np.ndarray), dimension, -1) for o in ops]
    for i in np.ndindex(*key.shape[:-1]):
        perm = A._sorted_idx(list(key[i]))
        for o, m in zip(outs, mv):
            o[i] = m[i][perm]
    return [np.moveaxis(o, -1, dimension).view(SArr) for o in outs]


def p_cholesky(eqn, a, **k):
    a = asarr(a)
    if a.ndim == 2:
        return A.jnp_cholesky(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-2]):
        out[i] = A.jnp_cholesky(a[i]).view(np.ndarray)
    return out.view(SArr)


def p_tri(eqn, a, b, left_side=True, lower=True, transpose_a=False, conjugate_a=False, unit_diagonal=False, **k):
    a, b = asarr(a), asarr(b)
    batch = a.shape[:-2]
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*batch):
        M, Y = a[i], b[i]
        lo = lower
        if transpose_a:
            M, lo = M.T, not lo
        if left_side:
            out[i] = A.tri_solve(M, Y, lower=lo, unit=unit_diagonal)
        else:
            out[i] = A.tri_solve(M.T, Y.T, lower=not lo, unit=unit_diagonal).T
    return out.view(SArr)


def p_broadcast(eqn, x, *dyn, shape=None, broadcast_dimensions=None, **k):
    x = asarr(x).view(np.ndarray)
    src = [1] * len(shape)
    for i, d in enumerate(broadcast_dimensions):
        src[d] = x.shape[i]
    return np.broadcast_to(x.reshape(src), shape).copy().view(SArr)


def p_reshape(eqn, x, *dyn, new_sizes=None, dimensions=None, **k):
    return asarr(x).reshape(tuple(new_sizes))


def p_transpose(eqn, x, permutation=None, **k):
    return asarr(x).view(np.ndarray).transpose(permutation).copy().view(SArr)


def p_squeeze(eqn, x, dimensions=None, **k):
    x = asarr(x)
    return x.reshape(tuple(n for i, n in enumerate(x.shape) if i not in dimensions))


def p_concat(eqn, *ops, dimension=0, **k):
    return A.f_concatenate(ops, dimension)


def p_dus(eqn, x, upd, *idx, **k):
    x, upd = asarr(x).copy(), asarr(upd)
    st = []
    for i, (n, m) in zip(idx, zip(x.shape, upd.shape)):
        v = int(A.un0(asarr(i))) if _symv(i) else int(i)
        st.append(max(0, min(v, n - m)))
    np.ndarray.__setitem__(x, tuple(slice(s, s + m) for s, m in zip(st, upd.shape)), upd.view(np.ndarray))
    return x


def p_ds(eqn, x, *idx, slice_sizes=None, **k):
    x = asarr(x)
    idx = [A.un0(asarr(i)) if _symv(i) else int(i) for i in idx]
    symi = [j for j, i in enumerate(idx) if isinstance(i, R) and not i.is_const()]
    if len(symi) == 1 and slice_sizes[symi[0]] == 1:
        ax = symi[0]
        mv = np.moveaxis(x.view(np.ndarray), ax, 0).view(SArr)
        row = A._sym_get(mv, idx[ax])
        res = np.moveaxis(asarr(row).view(np.ndarray)[None], 0, ax).view(SArr)
        st = [0 if j == ax else max(0, min(int(i), n - m)) for j, (i, n, m) in enumerate(zip(idx, x.shape, slice_sizes))]
        return np.ndarray.__getitem__(res, tuple(slice(s, s + m) for s, m in zip(st, slice_sizes)))
    st = [max(0, min(int(i), n - m)) for i, n, m in zip(idx, x.shape, slice_sizes)]
    return np.ndarray.__getitem__(x, tuple(slice(s, s + m) for s, m in zip(st, slice_sizes)))


def p_scatter_add(op):
    def g(eqn, operand, idx, upd, **params):
        if _symv(idx):
            idx = np.asarray(conc(asarr(idx)), dtype=np.int32)
        x, u = asarr(operand), asarr(upd)
        # positions: scatter the update ids into an index array one at a time
        p = eqn.primitive
        n = u.size
        out = x.copy()
        flat = out.view(np.ndarray).reshape(-1)
        from jax import lax
        for k in range(n):
            m = np.zeros(u.shape, np.int32)
            m.reshape(-1)[k] = 1
            z = np.zeros(x.shape, np.int32)
            subf, bp = eqn.primitive.get_bind_params(params)
            if op == "add":
                hit = np.asarray(lax.scatter_add_p.bind(z, idx, m, **_scp(params, "add")))
            else:
                hit = np.asarray(lax.scatter_add_p.bind(z, idx, m, **_scp(params, "add")))
            for j in np.nonzero(hit.reshape(-1))[0]:
                flat[j] = A.s_addn(flat[j], u.reshape(-1)[k]) if op == "add" else (u.reshape(-1)[k] if op == "set" else A.s_mul(flat[j], u.reshape(-1)[k]))
        return flat.reshape(x.shape).view(SArr)

    return g


def _scp(params, op):
    q = dict(params)
    j = jax.make_jaxpr(lambda a, b: a + b)(np.int32(0), np.int32(0))
    q["update_jaxpr"] = j.jaxpr
    q["update_consts"] = j.consts
    return q


def p_svd(eqn, a, full_matrices=False, compute_uv=True, **k):
    a = asarr(a)
    if compute_uv or 1 not in a.shape[-2:]:
        raise Unsupported("svd of a symbolic matrix")
    ax = -2 if a.shape[-1] == 1 else -1
    r = A.f_sum(emap(A.s_mul, a, a), axis=(-2, -1))
    return [asarr(emap(A._f1(S.sqrt_), r))[..., None]]


PRIMS = {
    "svd": p_svd,
    "div": p_div, "rem": p_rem, "convert_element_type": p_convert, "select_n": p_select_n, "clamp": p_clamp, "integer_pow": p_ipow,
    "round": p_round, "reduce_sum": p_red(A.s_addn, 0), "reduce_prod": p_red(A.s_mul, 1), "reduce_max": p_red(A.s_max),
    "reduce_min": p_red(A.s_min), "reduce_and": p_red(lambda a, b: S.and_(A._bool(a), A._bool(b)), True),
    "reduce_or": p_red(lambda a, b: S.or_(A._bool(a), A._bool(b)), False),
    "argmax": p_arg(lambda a, b: S.cmp_lt(b, a)), "argmin": p_arg(lambda a, b: S.cmp_lt(a, b)),
    "cumsum": p_cum(A.s_addn), "cumprod": p_cum(A.s_mul), "cummax": p_cum(A.s_max), "cummin": p_cum(A.s_min),
    "cumlogsumexp": p_cum(A.s_logaddexp), "dot_general": p_dot_general, "sort": p_sort, "cholesky": p_cholesky,
    "triangular_solve": p_tri, "broadcast_in_dim": p_broadcast, "reshape": p_reshape, "transpose": p_transpose, "squeeze": p_squeeze,
    "concatenate": p_concat, "dynamic_update_slice": p_dus, "dynamic_slice": p_ds, "scatter-add": p_scatter_add("add"),
    "scatter": p_scatter_add("set"), "scatter_add": p_scatter_add("add"), "scatter-mul": p_scatter_add("mul"),
    "reduce_precision": lambda eqn, x, **k: x, "optimization_barrier": lambda eqn, *xs, **k: list(xs),
    "symmetric_product": None,
}
PRIMS = {k: v for k, v in PRIMS.items() if v is not None}
STRUCT = {"slice", "gather", "rev", "pad", "expand_dims", "split", "broadcast", "dynamic_slice", "select_and_gather_add", "conv"}


def structural(eqn, ins):
    """data movement primitives: run the real primitive on position numbers"""
    p = eqn.primitive
    data = []
    conv = []
    off = 1
    for k, x in enumerate(ins):
        if _symv(x) and (is_sym(x) or k == 0 or p.name == "pad"):
            if k > 0 and p.name == "gather":
                raise Unsupported("gather with symbolic indices")
            a = asarr(x)
            conv.append(jnp.asarray(np.arange(off, off + a.size, dtype=np.int32).reshape(a.shape)))
            data.extend(a.reshape(-1).view(np.ndarray).tolist())
            off += a.size
        elif _symv(x):
            conv.append(np.asarray(conc(asarr(x)), dtype=_av_dtype(eqn.invars[k])))
        elif p.name == "pad" and k <= 1:
            a = asarr(np.asarray(x))
            conv.append(jnp.asarray(np.arange(off, off + a.size, dtype=np.int32).reshape(a.shape)))
            data.extend(a.reshape(-1).view(np.ndarray).tolist())
            off += a.size
        else:
            conv.append(x)
    params = dict(eqn.params)
    if p.name == "gather" and params.get("fill_value") is None and "FILL" in str(params.get("mode")):
        params["fill_value"] = -1
    if p.name == "gather" and "CLIP" not in str(params.get("mode")) and params.get("fill_value") is not None:
        params["fill_value"] = -1
    subf, bp = p.get_bind_params(params)
    out = p.bind(*subf, *conv, **bp)
    outs = list(out) if p.multiple_results else [out]
    res = []
    for o in outs:
        o = np.asarray(o)
        r = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            j = int(o[i])
            r[i] = data[j - 1] if 1 <= j <= len(data) else math.nan
        res.append(r.view(SArr))
    return res


# gather with a symbolic scalar index along axis 0 (x[i]) is handled before tracing (SArr.__getitem__)
