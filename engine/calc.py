"""Differentiation and substitution on terms."""
from __future__ import annotations

from fractions import Fraction

from . import sym as S
from .sym import ATOMS, B, R, Unsupported

_REB = {
    "exp": S.exp_, "ln": lambda a: S.ln_abs(a), "sin": S.sin_, "cos": S.cos_, "erf": S.erf_, "tanh": S.tanh_, "asinh": S.asinh_,
    "atan": S.atan_, "erfinv": S.erfinv_, "abs": S.abs_, "floor": S.floor_, "digamma": S.digamma_, "gammaln": S.gammaln_,
    "idiv": S.floordiv,
}


def subst(x, m, memo=None):
    """replace variable atoms: m maps atom id -> R"""
    if memo is None:
        memo = {}
    if not isinstance(x, (R, B)):
        return x
    if not any(a in m for a in S.term_atoms(x)):
        return x
    k = x.h
    if k in memo:
        return memo[k]
    if isinstance(x, R):
        out = S.R_const(0)
        for mono, c in x.t.items():
            term = S.R_const(c)
            for aid, e in mono:
                a = _sa(ATOMS[aid], m, memo)
                term = term * (S.pow_(a, e) if isinstance(a, R) else a ** e)
            out = out + term
    else:
        args = [subst(a, m, memo) if isinstance(a, (R, B)) else a for a in x.args]
        if x.op == "gt":
            out = S.cmp_lt(0, args[0])
        elif x.op == "ge":
            out = S.cmp_le(0, args[0])
        elif x.op == "eq":
            out = S.cmp_eq(args[0], 0)
        elif x.op == "and":
            out = S.and_(*args)
        elif x.op == "or":
            out = S.or_(*args)
        elif x.op == "not":
            out = S.not_(args[0])
        else:
            out = x
    memo[k] = out
    return out


def _sa(at, m, memo):
    if at.id in m:
        return m[at.id]
    if at.kind in ("var", "const", "nroot"):
        return S._ratom(at)
    if not any(a in m for a in S.deps(at)):
        return S._ratom(at)
    args = [subst(a, m, memo) if isinstance(a, (R, B)) else a for a in at.args]
    if at.kind == "P":
        return args[0]
    if at.kind == "ite":
        return S.ite(*args)
    if at.kind == "uf":
        return S.uf(at.name, *args, is_int=at.is_int, pos=at.pos, nneg=at.nneg)
    return _REB[at.name](*args)


def diff(x, v, memo=None):
    """d x / d v  (v: atom id of a variable)"""
    if memo is None:
        memo = {}
    if not isinstance(x, R) or v not in S.term_atoms(x):
        return S.R_const(0)
    k = x.h
    if k in memo:
        return memo[k]
    out = S.R_const(0)
    for mono, c in x.t.items():
        for i, (aid, e) in enumerate(mono):
            at = ATOMS[aid]
            if v not in S.deps(at):
                continue
            da = _da(at, v, memo)
            if not isinstance(da, float) and not da.t:
                continue
            rest = S.R_const(c)
            for j, (bid, f) in enumerate(mono):
                ee = f - 1 if j == i else f
                if ee != 0:
                    rest = rest * S.pow_(S._ratom(ATOMS[bid]), ee)
            out = out + rest * S.R_const(Fraction(e)) * da
    memo[k] = out
    return out


def _da(at, v, memo):
    if at.id == v:
        return S.R_const(1)
    if at.kind == "P":
        return diff(at.args[0], v, memo)
    if at.kind == "ite":
        return S.ite(at.args[0], diff(at.args[1], v, memo), diff(at.args[2], v, memo))
    if at.kind != "fn":
        raise Unsupported(f"derivative of {at.kind} {at.name}")
    a = at.args[0]
    d = diff(a, v, memo)
    me = S._ratom(at)
    n = at.name
    if n == "exp":
        return me * d
    if n == "ln":
        return S.div(d, a)
    if n == "sin":
        return S.cos_(a) * d
    if n == "cos":
        return -S.sin_(a) * d
    if n == "tanh":
        return (1 - me * me) * d
    if n == "asinh":
        return S.div(d, S.sqrt_(1 + a * a))
    if n == "atan":
        return S.div(d, 1 + a * a)
    if n == "erf":
        return 2 * S.exp_(-(a * a)) * d / S.sqrt_(S.PI())
    if n == "abs":
        return S.sign_(a) * d
    if n == "floor" or n == "idiv":
        return S.R_const(0)
    if n == "gammaln":
        return S.digamma_(a) * d
    raise Unsupported(f"derivative of {n}")
