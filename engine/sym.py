"""Symbolic terms: hash-consed polynomials over atoms (reals/ints) and Boolean terms.

R   polynomial (exact rational coefficients, rational exponents) over atoms
B   Boolean term

Atoms: variables, named constants, primitive polynomial factors (for negative / fractional
powers), function applications (exp, ln, sin, ...), if-then-else, uninterpreted functions.
"""
from __future__ import annotations

import math
from fractions import Fraction

import mpmath
import numpy as np

mpmath.mp.dps = 30


class Unsupported(BaseException):
    """The engine cannot encode something (=> inconclusive, never a pass)."""


class Ctx:
    """Hooks into the explorer (set by explore.py)."""

    def decide(self, b):  # pragma: no cover
        raise Unsupported("branch on a symbolic condition outside an exploration")

    def known_pos(self, r):
        return False

    def known_nonneg(self, r):
        return False

    def known_nonzero(self, r):
        return False


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c
    new_facts()


# Results that may have been simplified with the facts of the current path: forgotten when the facts change
# other than by growing.
_MULTAB: dict = {}
_POWTAB: dict = {}
_EXPTAB: dict = {}


def new_facts():
    _MULTAB.clear()
    _POWTAB.clear()
    _EXPTAB.clear()


def swap_facts(saved=None):
    """set the memo tables aside (saved=None) or put them back"""
    global _MULTAB, _POWTAB, _EXPTAB
    cur = (_MULTAB, _POWTAB, _EXPTAB)
    _MULTAB, _POWTAB, _EXPTAB = saved if saved is not None else tuple(dict(t) for t in cur)
    return cur


# ----------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "is_int", "pos", "nneg", "val", "deps_", "text_")

    def __repr__(self):
        """for reports (long ones are cut)"""
        try:
            return self.text_
        except AttributeError:
            t = self._text()
            self.text_ = t if len(t) <= 600 else t[:600] + "..."
            return self.text_

    def _text(self):
        if self.kind == "var":
            return self.name
        if self.kind in ("const", "nroot"):
            return self.name
        if self.kind == "P":
            return f"({self.args[0]!r})"
        if self.kind == "ite":
            return f"ite({self.args[0]!r}, {self.args[1]!r}, {self.args[2]!r})"
        return f"{self.name}({', '.join(map(repr, self.args))})"


ATOMS: list[Atom] = []
_ATAB: dict = {}


def _atom(kind, name, args=(), is_int=False, pos=False, nneg=False, val=None) -> Atom:
    key = (kind, name, tuple(id(a) if isinstance(a, (R, B)) else a for a in args))
    a = _ATAB.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.name, a.args, a.is_int = kind, name, tuple(args), is_int
        a.pos, a.nneg, a.val = pos, (nneg or pos), val
        a.deps_ = None
        ATOMS.append(a)
        _ATAB[key] = a
    return a


# ----------------------------------------------------------------------------- monomials
# monomial: tuple of (atom_id, exponent) sorted by atom id; exponent int or Fraction (non-int)
ONE = ()


def _nexp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def _mono_mul_raw(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a)
        if n is None:
            d[a] = e
        else:
            n = _nexp(n + e)
            if n == 0:
                del d[a]
            else:
                d[a] = n
    return tuple(sorted(d.items()))


def _needs_fix(m):
    """Does the monomial contain a reducible power?"""
    for aid, e in m:
        a = ATOMS[aid]
        k = a.kind
        if k == "P":
            if e >= 1:
                return True
        elif k == "nroot":
            if not (0 < e < 1):
                return True
        elif k == "fn":
            if a.name == "cos" and isinstance(e, int) and e >= 2:
                return True
            if a.name == "abs" and (e >= 2 or e <= -2):
                return True
        elif k == "ite":
            if e != 1 and isinstance(e, int) and e > 1:
                return True
    return False


def _fix_mono(m, c):
    """Reduce powers in a monomial -> R"""
    out = R_const(c)
    rest = []
    for aid, e in m:
        a = ATOMS[aid]
        k = a.kind
        if k == "P" and e >= 1:
            fl = math.floor(e)
            fr = _nexp(e - fl)
            out = out * _ipow(a.args[0], fl)
            if fr != 0:
                rest.append((aid, fr))
        elif k == "nroot" and not (0 < e < 1):
            fl = math.floor(e)
            fr = _nexp(Fraction(e) - fl)
            out = out * R_const(Fraction(a.val) ** fl)
            if fr != 0:
                rest.append((aid, fr))
        elif k == "fn" and a.name == "cos" and isinstance(e, int) and e >= 2:
            s = sin_(a.args[0])
            out = out * _ipow(1 - s * s, e // 2)
            if e % 2:
                rest.append((aid, 1))
        elif k == "fn" and a.name == "abs" and (e >= 2 or e <= -2):
            h = math.floor(e / 2) if e > 0 else -math.floor(-e / 2)
            r = _nexp(e - 2 * h)
            out = out * _ipow(a.args[0], 2 * h) if h > 0 else out * pow_(a.args[0], 2 * h)
            if r != 0:
                rest.append((aid, r))
        elif k == "ite" and isinstance(e, int) and e > 1:
            b, t, f = a.args
            out = out * ite(b, _ipow(t, e), _ipow(f, e))
        else:
            rest.append((aid, e))
    if rest:
        out = out * _mk({tuple(rest): Fraction(1)})
    return out


# ----------------------------------------------------------------------------- R
_RTAB: dict = {}
MAX_TERMS = 4000


def _mk(t: dict) -> "R":
    t = {m: c for m, c in t.items() if c != 0}
    key = frozenset(t.items())
    r = _RTAB.get(key)
    if r is None:
        r = object.__new__(R)
        r.t = t
        r.h = len(_RTAB)
        r.cache = {}
        _RTAB[key] = r
    return r


def R_const(c) -> "R":
    c = Fraction(c)
    return _mk({(): c} if c != 0 else {})


def _ratom(a: Atom, e=1) -> "R":
    return _mk({((a.id, e),): Fraction(1)})


def float_to_frac(x) -> Fraction:
    """decimal reading of a float: 0.1 -> 1/10 (rounding of literals is outside the claim)"""
    return Fraction(repr(float(x))) if not isinstance(x, np.float32) else Fraction(str(x))


_SNAP = None


def _snap_table():
    global _SNAP
    if _SNAP is None:
        tab = []
        lnpi = _mk({((_LN_PI.id, 1),): Fraction(1)})
        pi = PI()
        ln2 = ln_(R_const(2))
        for q in (1, 2, 3, 4, 6, 8):
            for p in (1, 2, 3, 4, 5, 6):
                if math.gcd(p, q) == 1:
                    tab.append(pi * Fraction(p, q))
        tab += [lnpi, lnpi / 2]
        for k in range(1, 17):
            tab += [(lnpi + ln2) * Fraction(k, 2), (1 + lnpi + ln2) * Fraction(k, 2)]
        for n in list(range(2, 65)) + [100, 1000]:
            tab.append(ln_(R_const(n)))
        for n in (2, 3, 5, 6, 7, 10):
            s = pow_(R_const(n), Fraction(1, 2))
            tab += [s, 1 / s]
        tab += [pow_(2 * pi, Fraction(1, 2)), pow_(2 * pi, Fraction(-1, 2)), pow_(pi, Fraction(1, 2)),
                pow_(pi, Fraction(-1, 2)), 2 * pow_(pi, Fraction(-1, 2)), 1 / ln2, EULER()]
        _SNAP = sorted(((float(evalf(r)), r) for r in tab), key=lambda p: p[0])
        globals()["_SNAPK"] = [p[0] for p in _SNAP]
    return _SNAP


def snap(x):
    """recognise well-known constants computed in floating point"""
    import bisect

    f32 = isinstance(x, np.float32)
    v = float(x)
    s = str(x) if f32 else repr(v)
    digits = sum(ch.isdigit() for ch in s.split("e")[0].lstrip("-0."))
    if digits < (7 if f32 else 14):
        return None
    tab = _snap_table()
    a = abs(v)
    i = bisect.bisect_left(_SNAPK, a)
    for j in (i - 1, i):
        if 0 <= j < len(tab) and abs(tab[j][0] - a) <= (1.2e-7 if f32 else 5e-16) * a:
            return tab[j][1] if v > 0 else -tab[j][1]
    return None


def lift(x):
    """Python/NumPy scalar -> R | B | special float (inf/nan) ."""
    if isinstance(x, (R, B)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return R_const(int(x))
    if isinstance(x, (int, np.integer)):
        return R_const(int(x))
    if isinstance(x, Fraction):
        return R_const(x)
    if isinstance(x, (float, np.floating)):
        if math.isinf(x) or math.isnan(x):
            return float(x)
        s = snap(x)
        if s is not None:
            return s
        return R_const(float_to_frac(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item() if x.dtype != np.float32 else np.float32(x))
    if hasattr(x, "dtype") and hasattr(x, "shape") and x.shape == ():
        y = np.asarray(x)
        return lift(y[()])
    raise TypeError(f"cannot lift {type(x)}")


def _is_special(x):
    return isinstance(x, float)


class _Num:
    pass


class R(_Num):
    __slots__ = ("t", "h", "cache")
    __array_priority__ = 1000

    def __hash__(self):
        return self.h

    # --- structure
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self) -> Fraction:
        return self.t.get((), Fraction(0))

    @property
    def is_int(self):
        v = self.cache.get("int")
        if v is None:
            v = True
            for m, c in self.t.items():
                if c.denominator != 1:
                    v = False
                    break
                for a, e in m:
                    if not ATOMS[a].is_int or not isinstance(e, int) or e < 0:
                        v = False
                        break
                if not v:
                    break
            self.cache["int"] = v
        return v

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    # --- arithmetic
    def __add__(self, o):
        o = _lift_or_ni(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self, o) if len(self.t) >= len(o.t) else (o, self)
        d = dict(a.t)
        for m, c in b.t.items():
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        return _mk(d)

    __radd__ = __add__

    def __neg__(self):
        return _mk({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _lift_or_ni(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = _lift_or_ni(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _lift_or_ni(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if math.isnan(o):
                return o
            if truth(self > 0):
                return o
            if truth(self < 0):
                return -o
            return math.nan
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _lift_or_ni(o)
        if o is NotImplemented:
            return o
        return div(self, o)

    def __rtruediv__(self, o):
        o = _lift_or_ni(o)
        if o is NotImplemented:
            return o
        return div(o, self)

    def __floordiv__(self, o):
        return floordiv(self, lift(o))

    def __rfloordiv__(self, o):
        return floordiv(lift(o), self)

    def __mod__(self, o):
        return mod(self, lift(o))

    def __rmod__(self, o):
        return mod(lift(o), self)

    def __divmod__(self, o):
        return floordiv(self, lift(o)), mod(self, lift(o))

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(lift(o), self)

    def __abs__(self):
        return abs_(self)

    # --- comparisons
    def __lt__(self, o):
        o = _lift_or_ni(o)
        if o is NotImplemented:
            return o
        return cmp_lt(self, o)

    def __gt__(self, o):
        o = _lift_or_ni(o)
        if o is NotImplemented:
            return o
        return cmp_lt(o, self)

    def __le__(self, o):
        o = _lift_or_ni(o)
        if o is NotImplemented:
            return o
        return cmp_le(self, o)

    def __ge__(self, o):
        o = _lift_or_ni(o)
        if o is NotImplemented:
            return o
        return cmp_le(o, self)

    def __eq__(self, o):
        if self is o:
            return True
        try:
            o = lift(o)
        except TypeError:
            return False
        return cmp_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __bool__(self):
        return truth(cmp_ne(self, R_const(0)))

    def __float__(self):
        if self.is_const():
            return float(self.const())
        v = self.num_const()
        if v is not None:
            return float(v)
        raise Unsupported(f"float() of a symbolic value reached native code: {self!r}"[:300])

    def __int__(self):
        if self.is_const():
            return int(self.const())
        return concretize_int(self)

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        return concretize_int(self)

    def num_const(self):
        """numeric value if built of constant atoms only, else None"""
        if "num" not in self.cache:
            self.cache["num"] = evalf(self) if not var_atoms(self) else None
        return self.cache["num"]

    def __round__(self, nd=None):
        return round_(self, nd or 0)

    def __trunc__(self):
        return trunc_(self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    # numpy scalar-like API
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype(int) if self.is_int else np.dtype(float)

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    def conjugate(self):
        return self

    def sum(self, *a, **k):
        return self

    mean = sum
    max = sum
    min = sum

    def is_integer(self):
        return cmp_eq(self, floor_(self))

    def exp(self):
        return exp_(self)

    def log(self):
        return ln_(self)

    def sqrt(self):
        return sqrt_(self)

    def sin(self):
        return sin_(self)

    def cos(self):
        return cos_(self)

    def __repr__(self):
        if not self.t:
            return "0"
        parts = []
        for m, c in sorted(self.t.items(), key=lambda mc: (len(mc[0]), mc[0].__repr__())):
            s = "*".join(repr(ATOMS[a]) + ("" if e == 1 else f"^{e}") for a, e in m)
            if not s:
                parts.append(str(c))
            elif c == 1:
                parts.append(s)
            elif c == -1:
                parts.append("-" + s)
            else:
                parts.append(f"{c}*{s}")
        s = " + ".join(parts)
        return s if len(s) < 600 else s[:600] + "..."

    def __format__(self, spec):
        if self.is_const() and spec:
            c = self.const()
            v = int(c) if c.denominator == 1 and spec[-1] in "dxob" else float(c)
            return format(v, spec)
        if self.is_const() and self.const().denominator == 1:
            return str(int(self.const()))
        return f"\x01{register_text(self)}|{spec}\x02"

    def __str__(self):
        return self.__format__("")


_TEXT: dict = {}


def register_text(r):
    _TEXT[r.h] = r
    return f"S{r.h}"


def text_terms(s: str):
    """split a formatted string into literal parts and (term, spec) parts"""
    import re

    out = []
    pos = 0
    for m in re.finditer("\x01S(\\d+)\\|([^\x02]*)\x02", s):
        if m.start() > pos:
            out.append(s[pos:m.start()])
        out.append((_TEXT[int(m.group(1))], m.group(2)))
        pos = m.end()
    if pos < len(s):
        out.append(s[pos:])
    return out


def _lift_or_ni(o):
    if isinstance(o, R):
        return o
    if isinstance(o, B):
        return ite(o, R_const(1), R_const(0))
    if isinstance(o, np.ndarray) and o.ndim > 0:
        return NotImplemented
    try:
        return lift(o)
    except TypeError:
        return NotImplemented


def mul(a: R, b: R) -> R:
    if not a.t or not b.t:
        return R_const(0)
    if a.is_const():
        c = a.const()
        return b if c == 1 else _mk({m: c * k for m, k in b.t.items()})
    if b.is_const():
        c = b.const()
        return a if c == 1 else _mk({m: c * k for m, k in a.t.items()})
    key = (a.h, b.h) if a.h < b.h else (b.h, a.h)
    r = _MULTAB.get(key)
    if r is not None:
        return r
    if len(a.t) * len(b.t) > MAX_TERMS:
        # too big to expand: keep as product of opaque factors
        raise Unsupported("polynomial product too large")
    d: dict = {}
    extra = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mono_mul_raw(m1, m2)
            if _needs_fix(m):
                x = _fix_mono(m, c1 * c2)
                extra = x if extra is None else extra + x
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = _mk(d)
    if extra is not None:
        r = r + extra
    r = _cancel(r)
    _MULTAB[key] = r
    return r



def _ipow(a: R, n: int) -> R:
    if n == 0:
        return R_const(1)
    if n < 0:
        return pow_(a, n)
    r = a
    for _ in range(n - 1):
        r = r * a
    return r


def _neg_P(r: R):
    """P-atoms occurring with a negative exponent, with their least exponent"""
    out = {}
    for m in r.t:
        for a, e in m:
            if e < 0 and ATOMS[a].kind == "P":
                out[a] = min(e, out.get(a, 0))
    return out


def _cancel(r: R) -> R:
    """cancel common factors P * P^-1 when the cofactor is exactly divisible"""
    negs = _neg_P(r)
    if not negs:
        return r
    for aid in negs:
        groups: dict = {}
        for m, c in r.t.items():
            e = 0
            rest = []
            for a, x in m:
                if a == aid:
                    e = x
                else:
                    rest.append((a, x))
            groups.setdefault(e, {})[tuple(rest)] = c
        P = ATOMS[aid].args[0]
        changed = False
        add = None
        for e in sorted(g for g in groups if g < 0):
            while True:
                num = _mk(groups[e]) if groups.get(e) else None
                if num is None or not num.t or len(num.t) < len(P.t):
                    break
                q = poly_div_exact(num, P)
                if q is None:
                    break
                changed = True
                ne = _nexp(e + 1)
                groups[e] = {}
                if ne == 0:
                    add = q if add is None else add + q
                    break
                tgt = groups.setdefault(ne, {})
                for m, c in q.t.items():
                    tgt[m] = tgt.get(m, 0) + c
                if ne < 0:
                    break
                break
        if changed:
            d: dict = {}
            for e, g in groups.items():
                for m, c in g.items():
                    mm = m if e == 0 else tuple(sorted(m + ((aid, e),)))
                    d[mm] = d.get(mm, 0) + c
            r = _mk(d)
            if add is not None:
                r = r + add
            return _cancel(r)
    return r


def poly_div_exact(num: R, P: R):
    """num / P if exact (treating atoms as independent indeterminates), else None"""
    key = ("div", P.h)
    if key in num.cache:
        return num.cache[key]
    res = None
    try:
        lead_m, lead_c = max(P.t.items(), key=lambda mc: _mono_key(mc[0]))
        q: dict = {}
        cur = dict(num.t)
        steps = 0
        ok = True
        inv = tuple((a, -e) for a, e in lead_m)
        pmin = _min_exp(P)
        nmin = _min_exp(num)
        while cur:
            steps += 1
            if steps > len(num.t) + 8:
                ok = False
                break
            m, c = max(cur.items(), key=lambda mc: _mono_key(mc[0]))
            qm = _mono_mul_raw(m, inv)
            # the quotient may not introduce new negative powers of plain atoms
            for a, e in qm:
                if e < 0 and e < nmin.get(a, 0) - pmin.get(a, 0):
                    ok = False
                    break
            if not ok:
                break
            qc = c / lead_c
            q[qm] = q.get(qm, 0) + qc
            for pm, pc in P.t.items():
                mm = _mono_mul_raw(pm, qm)
                n = cur.get(mm, 0) - qc * pc
                if n == 0:
                    cur.pop(mm, None)
                else:
                    cur[mm] = n
        if ok and not cur:
            res = _mk(q)
    except Exception:
        res = None
    num.cache[key] = res
    return res


def _min_exp(r: R):
    allm = list(r.t)
    atoms = set(a for m in allm for a, _ in m)
    out = {}
    for a in atoms:
        out[a] = min(dict(m).get(a, 0) for m in allm)
    return out


class _MonoKey:
    __slots__ = ("m",)


def _mono_key(m):
    # a monomial order: total degree, then lexicographic
    return (float(sum(e for _, e in m)), tuple((-a, float(e)) for a, e in m))


def content(r: R):
    """r = c * mono * Q, Q primitive (min exponents 0, leading coeff > 0, coprime integer coeffs)"""
    if "content" in r.cache:
        return r.cache["content"]
    if not r.t:
        res = (Fraction(0), (), R_const(1))
    elif len(r.t) == 1:
        (m, c), = r.t.items()
        res = (c, m, R_const(1))
    else:
        mins = _min_exp(r)
        mono = tuple(sorted((a, e) for a, e in mins.items() if e != 0))
        inv = tuple((a, -e) for a, e in mono)
        num = 0
        den = 1
        for c in r.t.values():
            num = math.gcd(num, abs(c.numerator))
            den = den * c.denominator // math.gcd(den, c.denominator)
        cc = Fraction(num, den)
        lead = max(r.t.items(), key=lambda mc: _mono_key(mc[0]))
        if lead[1] < 0:
            cc = -cc
        d = {}
        bad = False
        for m, c in r.t.items():
            mm = _mono_mul_raw(m, inv)
            d[mm] = c / cc
        q = _mk(d)
        res = (cc, mono, q)
    r.cache["content"] = res
    return res


def _mono_R(m) -> R:
    return _mk({m: Fraction(1)})


def P_atom(q: R) -> Atom:
    return _atom("P", None, (q,))


def pow_(a: R, e) -> R:
    """a**e for rational e; caller guarantees the domain (a>0 for fractional, a!=0 for negative)."""
    e = _nexp(Fraction(e))
    if e == 0:
        return R_const(1)
    if e == 1:
        return a
    if isinstance(e, int) and e > 0:
        return _ipow(a, e)
    if not a.t:
        raise ZeroDivisionError("symbolic 0 ** negative")
    key = (a.h, e)
    frac = not isinstance(e, int)
    if not frac and key in _POWTAB:
        return _POWTAB[key]
    c, mono, q = content(a)
    out = R_const(1)
    # coefficient
    if frac:
        if c < 0:
            c = -c
            sgn_flip = True
        else:
            sgn_flip = False
        out = out * _const_pow(c, e)
    else:
        out = R_const(c ** e)
    # monomial part
    for aid, x in mono:
        at = ATOMS[aid]
        ne = _nexp(Fraction(x) * Fraction(e))
        base = _ratom(at)
        if frac and not (at.nneg or at.kind in ("nroot",)):
            if isinstance(x, int) and x % 2 == 0:
                if isinstance(ne, int) and ne % 2 == 0:
                    out = out * _safe_mono(at, ne)
                elif CTX.known_nonneg(base):
                    out = out * _safe_mono(at, ne)
                else:
                    out = out * _safe_mono(_abs_atom(base), ne)
            elif CTX.known_nonneg(base):
                out = out * _safe_mono(at, ne)
            else:
                out = out * _safe_mono(_abs_atom(base), ne)
        else:
            out = out * _safe_mono(at, ne)
    if not q.is_const():
        if frac:
            for f, k in factor(q):
                ne = _nexp(Fraction(k) * Fraction(e))
                if isinstance(ne, int) and ne % 2 == 0:
                    out = out * pow_(f, ne)
                elif isinstance(ne, int):
                    out = out * pow_(abs_(f), ne)
                else:
                    if k % 2 == 0 and not CTX.known_nonneg(f):
                        g = abs_(f)
                    elif CTX.known_nonneg(f):
                        g = f
                    elif CTX.known_nonneg(-f):
                        g = -f
                    elif k % 2 and len(factor(q)) == 1 and not mono:
                        g = f if not sgn_flip else -f  # domain guarantees a >= 0
                    else:
                        g = abs_(f)
                    if len(g.t) == 1:
                        out = out * pow_(g, ne)
                    else:
                        out = out * _safe_mono(P_atom(g), ne)
        else:
            out = out * _safe_mono(P_atom(q), e)
    if not frac:
        _POWTAB[key] = out
    return out


def _safe_mono(at: Atom, e):
    m = ((at.id, e),)
    if _needs_fix(m):
        return _fix_mono(m, Fraction(1))
    return _mk({m: Fraction(1)})


def _small_factor(n: int):
    """factor out small primes"""
    out = {}
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97):
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        if n == 1:
            break
    if n > 1:
        r = math.isqrt(n)
        if r * r == n:
            out[r] = out.get(r, 0) + 2
        else:
            out[n] = out.get(n, 0) + 1
    return out


def nroot_atom(n: int) -> Atom:
    return _atom("nroot", f"{n}", (), pos=True, val=n)


def _const_pow(c: Fraction, e) -> R:
    out = R_const(1)
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in _small_factor(n).items():
            out = out * _safe_mono(nroot_atom(p), _nexp(Fraction(e) * k * s))
    return out


_FACT: dict = {}


def factor(q: R):
    """factor a primitive polynomial (non-negative integer exponents after clearing) -> [(R, k)]"""
    if q.h in _FACT:
        return _FACT[q.h]
    res = [(q, 1)]
    ok = 2 <= len(q.t) <= 200
    deg = 0
    for m in q.t:
        for a, e in m:
            if not isinstance(e, int) or e < 0:
                ok = False
        deg = max(deg, sum(e for _, e in m) if ok else 0)
    if ok and 2 <= deg <= 80 and all(c.numerator.bit_length() < 600 and c.denominator.bit_length() < 600 for c in q.t.values()):
        import sympy

        ats = sorted(q.atoms())
        syms = {a: sympy.Symbol(f"z{a}") for a in ats}
        expr = sympy.Add(
            *[sympy.Rational(c.numerator, c.denominator) * sympy.Mul(*[syms[a] ** e for a, e in m]) for m, c in q.t.items()]
        )
        try:
            c0, fl = sympy.factor_list(expr, *[syms[a] for a in ats])
            if len(fl) > 1 or (fl and fl[0][1] > 1):
                back = []
                sign = 1
                for f, k in fl:
                    p = sympy.Poly(f, *[syms[a] for a in ats])
                    d = {}
                    for mon, co in p.terms():
                        m = tuple((a, int(e)) for a, e in zip(ats, mon) if e)
                        d[m] = Fraction(int(co.p), int(co.q))
                    fr = _mk(d)
                    cc, mo, qq = content(fr)
                    if cc < 0:
                        fr = -fr
                        sign *= (-1) ** k
                    back.append((fr, int(k)))
                prod = R_const(Fraction(int(c0.p), int(c0.q)) * sign)
                for f, k in back:
                    prod = prod * _ipow(f, k)
                if prod is q or prod is -q:
                    res = back
                elif (prod / 1) is not None and len(prod.t) == len(q.t):
                    # allow constant content: push it into nothing (primitive => constant is 1)
                    pass
        except Exception:
            pass
    _FACT[q.h] = res
    return res


def div(a, b):
    """a / b with numpy-like semantics for zero divisors (forks if the sign of b is open)"""
    if isinstance(b, float):
        if math.isnan(b):
            return math.nan
        if isinstance(a, float):
            return math.nan
        return R_const(0)
    if isinstance(a, float):
        if math.isnan(a):
            return a
        if truth(b > 0):
            return a
        if truth(b < 0):
            return -a
        return a
    if b.is_const():
        c = b.const()
        if c == 0:
            return _div_zero(a)
        return _mk({m: k / c for m, k in a.t.items()})
    if not _nonzero(b):
        if truth(cmp_eq(b, R_const(0))):
            return _div_zero(a)
    return a * pow_(b, -1)


def _div_zero(a):
    if truth(a > 0):
        return math.inf
    if truth(a < 0):
        return -math.inf
    return math.nan


def _nonzero(b: R):
    if syn_pos(b) or syn_pos(-b):
        return True
    return CTX.known_nonzero(b)


def power(a, e):
    if isinstance(a, (bool, int, float, np.number, Fraction)):
        a = lift(a)
    if isinstance(e, R) and e.is_const():
        e = e.const()
    if isinstance(e, R):
        # a ** symbolic
        if isinstance(a, float):
            raise Unsupported("inf ** symbolic")
        if e.is_int and not syn_pos(a) and not CTX.known_pos(a):
            n = concretize_int(e)
            return power(a, n)
        if truth(a > 0):
            return exp_(e * ln_(a))
        if truth(cmp_eq(a, R_const(0))):
            return R_const(0) if truth(e > 0) else (R_const(1) if truth(cmp_eq(e, R_const(0))) else math.inf)
        return math.nan
    if isinstance(e, float) and (math.isinf(e) or math.isnan(e)):
        raise Unsupported("power with infinite exponent")
    if isinstance(a, float):
        return a ** float(e)
    if not isinstance(e, Fraction):
        le = lift(e)
        e = le.const() if le.is_const() else None
        if e is None:
            return power(a, le)
    if e.denominator == 1:
        e = int(e)
        if e >= 0:
            return _ipow(a, e)
        return div(R_const(1), _ipow(a, -e))
    # fractional power: domain a >= 0
    if a.is_const():
        c = a.const()
        if c < 0:
            return math.nan
        if c == 0:
            return R_const(0) if e > 0 else math.inf
        return _const_pow(c, e)
    if not (syn_nonneg(a) or CTX.known_nonneg(a)):
        if truth(a < 0):
            return math.nan
    if e < 0 and not _nonzero(a):
        if truth(cmp_eq(a, R_const(0))):
            return math.inf
    return pow_(a, e)


def sqrt_(a):
    if isinstance(a, float):
        return math.inf if a > 0 else math.nan
    return power(a, Fraction(1, 2))


# ----------------------------------------------------------------------------- syntactic sign
def _mono_nonneg(m):
    for a, e in m:
        at = ATOMS[a]
        if at.nneg or at.kind in ("nroot", "const"):
            continue
        if isinstance(e, int) and e % 2 == 0:
            continue
        if not isinstance(e, int):
            continue  # fractional powers are non-negative by construction
        return False
    return True


def syn_nonneg(r: R) -> bool:
    v = r.cache.get("nn")
    if v is None:
        v = all(c > 0 and _mono_nonneg(m) for m, c in r.t.items()) or bool(_squares(r))
        r.cache["nn"] = v
    return v


def _squares(r):
    """a sum of squares found by pairing every term of unknown sign, c m, with two non-negative terms
    whose product is m^2 (|c| m <= c1 s1 + c2 s2 when 4 c1 c2 >= c^2); the terms left over, or None"""
    if not 3 <= len(r.t) <= 40:
        return None
    good, bad = {}, []
    for m, c in r.t.items():
        if c > 0 and _mono_nonneg(m):
            good[m] = c
        else:
            bad.append((m, abs(c)))
    if not bad or len(bad) > 12 or 2 > len(good):
        return None
    by = {frozenset(m): m for m in good}
    opts = []
    for m, c in bad:
        o = []
        for s1 in good:
            d = {a: 2 * e for a, e in m}
            for a, e in s1:
                d[a] = d.get(a, 0) - e
            s2 = by.get(frozenset((a, e) for a, e in d.items() if e))
            if s2 is not None and (s2, s1) not in o:
                o.append((s1, s2))
        if not o:
            return None
        opts.append((len(o), c, o))
    opts.sort(key=lambda t: t[0])
    for _, c, o in opts:
        for s1, s2 in o:
            a, b = good[s1], good[s2]
            if s1 == s2:
                if a >= c:
                    good[s1] = a - c
                    break
                continue
            if a >= c / 2 and b >= c / 2:
                good[s1], good[s2] = a - c / 2, b - c / 2
                break
            if a < b and a > 0 and c * c / (4 * a) <= b:
                good[s1], good[s2] = 0, b - c * c / (4 * a)
                break
            if b <= a and b > 0 and c * c / (4 * b) <= a:
                good[s1], good[s2] = a - c * c / (4 * b), 0
                break
        else:
            return None
    return {m: c for m, c in good.items() if c} or {(): 0}


def syn_pos(r: R) -> bool:
    v = r.cache.get("pp")
    if v is None:
        v = False
        if r.t and syn_nonneg(r):
            sq = _squares(r)
            for m, c in (sq or r.t).items():
                if c > 0 and all(ATOMS[a].pos or ATOMS[a].kind in ("nroot",) for a, e in m):
                    v = True
                    break
        if not v and r.t and not var_atoms(r):
            v = evalf(r) > 1e-15
        r.cache["pp"] = v
    return v


# ----------------------------------------------------------------------------- functions
def _fn(name, *args, is_int=False, pos=False, nneg=False) -> R:
    return _ratom(_atom("fn", name, args, is_int=is_int, pos=pos, nneg=nneg))


def uf(name, *args, is_int=False, pos=False, nneg=False) -> R:
    """uninterpreted function application"""
    args = tuple(canon(lift(a)) for a in args)
    return _ratom(_atom("uf", name, args, is_int=is_int, pos=pos, nneg=nneg))


def var(name, is_int=False, pos=False, nneg=False) -> R:
    return _ratom(_atom("var", name, ("I" if is_int else "R",), is_int=is_int, pos=pos, nneg=nneg))


def PI():
    return _ratom(_atom("const", "pi", (), pos=True, val=mpmath.pi))


def EULER():
    return _ratom(_atom("const", "euler_gamma", (), pos=True, val=mpmath.euler))


def E1():
    """e as exp atom of 1"""
    return exp_(R_const(1))


_LN_PI = None


def canon(r):
    if isinstance(r, float):
        return r
    return _cancel(r)


def exp_(a):
    if isinstance(a, float):
        return R_const(0) if a == -math.inf else a
    if not a.t:
        return R_const(1)
    if a.h in _EXPTAB:
        return _EXPTAB[a.h]
    out = R_const(1)
    mono = []
    cache = True
    for m, c in a.t.items():
        # c * ln(t) -> t^c
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "fn" and ATOMS[m[0][0]].name == "ln":
            t = ATOMS[m[0][0]].args[0]
            if t.is_const():
                out = out * _const_pow(t.const(), c)
            elif len(t.t) == 1 and list(t.t.values()) == [1]:
                (mm, _), = t.t.items()
                o = R_const(1)
                for aid, e in mm:
                    ee = _nexp(Fraction(e) * c)
                    at = ATOMS[aid]
                    # the logarithm is that of the modulus
                    if at.pos or at.nneg or (isinstance(ee, int) and ee % 2 == 0):
                        o = o * _safe_mono(at, ee)
                    else:
                        if CTX.known_nonneg(_ratom(at)):
                            cache = False
                            o = o * _safe_mono(at, ee)
                        else:
                            o = o * power(abs_(_ratom(at)), Fraction(ee))
                out = out * o
            elif syn_pos(t) or c % 2 == 0:
                out = out * _safe_mono(P_atom(t), _nexp(c))
            elif CTX.known_pos(t):
                cache = False
                out = out * _safe_mono(P_atom(t), _nexp(c))
            else:
                out = out * power(abs_(t), c)
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "fn" and ATOMS[m[0][0]].name == "asinh" and c in (1, -1):
            t = ATOMS[m[0][0]].args[0]
            out = out * (sqrt_(t * t + 1) + c * t)
        elif len(m) == 1 and m[0][1] == 1 and _LN_PI is not None and m[0][0] == _LN_PI.id:
            (pm, _), = PI().t.items()
            out = out * _mk({((pm[0][0], _nexp(c)),): Fraction(1)})
        else:
            at = _atom("fn", "exp", (_mono_R(m),), pos=True)
            mono.append((at.id, _nexp(c)))
    if mono:
        out = out * _mk({tuple(sorted(mono)): Fraction(1)})
    if cache:
        _EXPTAB[a.h] = out
    return out


def ln_(a):
    """natural logarithm (forks on the domain when the sign is open)"""
    if isinstance(a, float):
        return math.nan if not a > 0 else a
    if a.is_const():
        c = a.const()
        if c == 0:
            return -math.inf
        if c < 0:
            return math.nan
        return _ln_const(c)
    a = canon(a)
    if not (syn_pos(a) or CTX.known_pos(a)):
        if not truth(a > 0):
            if truth(cmp_eq(a, R_const(0))):
                return -math.inf
            return math.nan
    return ln_abs(a)


def _ln_const(c: Fraction) -> R:
    out = R_const(0)
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in _small_factor(n).items():
            if p != 1:
                out = out + s * k * _ratom(_atom("fn", "ln", (R_const(p),), pos=True))
    return out


def ln_abs(a: R) -> R:
    """ln|a| for a != 0"""
    c, mono, q = content(a)
    out = _ln_const(abs(c)) if abs(c) != 1 else R_const(0)
    for aid, e in mono:
        at = ATOMS[aid]
        if at.kind == "fn" and at.name == "exp":
            out = out + e * at.args[0]
        elif at.kind == "nroot":
            out = out + Fraction(e) * _ln_const(Fraction(at.val))
        elif at.kind == "P":
            out = out + Fraction(e) * ln_abs(at.args[0])
        elif at.kind == "const" and at.name == "pi":
            out = out + Fraction(e) * _ratom(_LN_PI)
        elif at.kind == "fn" and at.name == "abs":
            out = out + Fraction(e) * ln_abs(at.args[0])
        elif at.kind == "fn" and at.name == "gamma":
            out = out + Fraction(e) * gammaln_(at.args[0])
        else:
            out = out + Fraction(e) * _fn("ln", _ratom(at))
    if not q.is_const() and any(_needs_fix(m) for m in q.t):
        q2 = R_const(0)
        for m, c in q.t.items():
            q2 = q2 + (_fix_mono(m, c) if _needs_fix(m) else _mk({m: c}))
        if q2 is not q and q2.t:
            return out + ln_abs(q2)
    if not q.is_const():
        for f, k in factor(q):
            if len(f.t) == 1:
                out = out + k * ln_abs(f)
            else:
                f2 = f
                if not syn_nonneg(f):
                    # canonical sign for |f|: prefer known positive
                    if CTX.known_nonneg(-f):
                        f2 = -f
                out = out + k * _fn("ln", f2)
    return out


def _lnpi_init():
    global _LN_PI
    _LN_PI = _atom("const", "ln_pi", (), pos=True, val=mpmath.log(mpmath.pi))


def sin_(a):
    if isinstance(a, float):
        return math.nan
    a = canon(a)
    if not a.t:
        return R_const(0)
    lead = max(a.t.items(), key=lambda mc: _mono_key(mc[0]))
    if lead[1] < 0:
        return -sin_(-a)
    v = _trig_pi(a)
    if v is not None:
        return v[0]
    return _fn("sin", a)


def cos_(a):
    if isinstance(a, float):
        return math.nan
    a = canon(a)
    if not a.t:
        return R_const(1)
    lead = max(a.t.items(), key=lambda mc: _mono_key(mc[0]))
    if lead[1] < 0:
        return cos_(-a)
    v = _trig_pi(a)
    if v is not None:
        return v[1]
    return _fn("cos", a)


def _trig_pi(a: R):
    """exact sin/cos at multiples of pi/2"""
    pi = PI()
    (pm, _), = pi.t.items()
    if len(a.t) == 1 and pm in a.t:
        k = a.t[pm] * 2
        if k.denominator == 1:
            k = int(k) % 4
            return [(R_const(0), R_const(1)), (R_const(1), R_const(0)), (R_const(0), R_const(-1)), (R_const(-1), R_const(0))][k]
    return None


def _odd(name):
    def f(a):
        if isinstance(a, float):
            if math.isnan(a):
                return a
            if name in ("erf", "tanh"):
                return R_const(1 if a > 0 else -1)
            return a
        a = canon(a)
        if not a.t:
            return R_const(0)
        lead = max(a.t.items(), key=lambda mc: _mono_key(mc[0]))
        if lead[1] < 0:
            return -f(-a)
        return _fn(name, a)

    return f


erf_ = _odd("erf")
tanh_ = _odd("tanh")
_asinh0 = _odd("asinh")


def asinh_(a):
    if isinstance(a, R) and len(a.t) == 2:  # asinh(sinh t) = t
        (m1, c1), (m2, c2) = a.t.items()
        if abs(c1) == Fraction(1, 2) and c1 == -c2 and m1 and dict(m1) == {k: -e for k, e in m2} and all(
                ATOMS[k].kind == "fn" and ATOMS[k].name == "exp" for k, _ in m1):
            return ln_(_mono_R(m1 if c1 > 0 else m2))
    return _asinh0(a)


atan_ = _odd("atan")
erfinv_ = _odd("erfinv")
sinh_ = lambda a: (exp_(a) - exp_(-a)) / 2
cosh_ = lambda a: (exp_(a) + exp_(-a)) / 2


def _shift_arg(a: R):
    """a = t + k with integer k, constant part of t in (0, 1] or [0,1) ; returns (t, k)"""
    c = a.const()
    rest = a - R_const(c)
    if not rest.t:
        # pure constant: keep fractional part in (0,1]
        f = c - math.floor(c)
        k = math.floor(c)
        if f == 0:
            f = Fraction(1)
            k -= 1
        return R_const(f), k
    k = math.floor(c)
    return rest + R_const(c - k), k


def int_valued(a: R):
    """syntactically an integer for all values of its variables"""
    if a.is_int:
        return True
    for m, c in a.t.items():
        if c.denominator != 1:
            return False
        for aid, e in m:
            at = ATOMS[aid]
            if not (isinstance(e, int) and e > 0):
                return False
            if at.is_int and at.kind != "P":
                continue
            if at.kind == "ite" and int_valued(at.args[1]) and int_valued(at.args[2]):
                continue
            return False
    return True


def _common_scale(vals):
    """a positive factor common to all the values, if it is not 1"""
    if not vals:
        return None
    mins, num, den = None, 0, 1
    for v in vals:
        mo = _min_exp(v)
        mins = dict(mo) if mins is None else {a: min(mins.get(a, 0), mo.get(a, 0)) for a in set(mins) | set(mo)}
        for c in v.t.values():
            num = math.gcd(num, abs(c.numerator))
            den = den * c.denominator // math.gcd(den, c.denominator)
    mono = tuple(sorted((a, e) for a, e in mins.items() if e != 0 and ATOMS[a].pos and ATOMS[a].kind != "fn"))
    c = Fraction(num, den)
    if not mono and c == 1:
        return None
    return _mk({mono: c})


def kth(k: int, vals):
    """the k-th smallest (from 0) of the values, as one canonical term"""
    vals = [lift(v) for v in vals]
    if any(isinstance(v, float) for v in vals):
        raise Unsupported("order statistic of non-finite values")
    if len(vals) == 1:
        return vals[0]
    if all(v.is_const() for v in vals):
        return R_const(sorted(v.const() for v in vals)[k])
    cm = _common_scale([v for v in vals if v.t])
    if cm is not None:
        inv = div(R_const(1), cm)
        return cm * kth(k, [v * inv for v in vals])
    zs = [v for v in vals if not v.t]
    rest = [v for v in vals if v.t]
    if zs and all(syn_nonneg(v) or CTX.known_nonneg(v) for v in rest):
        # zeros come first
        return R_const(0) if k < len(zs) else kth(k - len(zs), rest)
    npos = sum(bool(CTX.known_pos(v)) for v in vals)
    pos = npos >= len(vals) - k
    if k == len(vals) - 1:  # maxima are flattened
        fl = []
        for v in vals:
            at = next((ATOMS[m[0][0]] for m, c in v.t.items() if len(v.t) == 1 and c == 1 and len(m) == 1 and m[0][1] == 1), None)
            if at is not None and at.kind == "fn" and at.name in ("kth", "kth+") and int(at.args[0].const()) == len(at.args) - 2:
                fl += list(at.args[1:])
            else:
                fl.append(v)
        vals = list({v.h: v for v in fl}.values())
        k = len(vals) - 1
        if len(vals) == 1:
            return vals[0]
    vals.sort(key=lambda v: v.h)
    nn = pos or all(syn_nonneg(v) for v in vals)
    return _ratom(_atom("fn", "kth+" if pos else "kth", (R_const(k),) + tuple(vals), pos=pos, nneg=nn))


def digamma_(a):
    if isinstance(a, float):
        return a
    if a.is_const() and a.const() <= 0 and a.const().denominator == 1:
        # numpy/scipy: psi(0) = -inf, psi(-n) = nan
        return -math.inf if a.const() == 0 else math.nan
    if not a.is_const() and int_valued(a):
        return _fn("digamma", a)  # a count: kept whole (the recurrence is not defined at 0)
    t, k = _shift_arg(a)
    out = R_const(0)
    if abs(k) > 400:
        raise Unsupported("digamma shift too large")
    if t.is_const():
        c = t.const()
        if c == 1:
            out = -EULER()
        elif c == Fraction(1, 2):
            out = -EULER() - 2 * ln_(R_const(2))
        else:
            out = _fn("digamma", t)
    else:
        out = _fn("digamma", t)
    for i in range(k):
        out = out + div(R_const(1), t + i)
    for i in range(1, -k + 1):
        out = out - div(R_const(1), t - i)
    return out


def gammaln_(a):
    if isinstance(a, float):
        return a
    t, k = _shift_arg(a)
    if abs(k) > 400:
        raise Unsupported("gammaln shift too large")
    if t.is_const():
        c = t.const()
        if c == 1:
            out = R_const(0)
        elif c == Fraction(1, 2):
            out = _ratom(_LN_PI) / 2
        else:
            out = _fn("gammaln", t)
    else:
        out = _fn("gammaln", t)
    for i in range(k):
        out = out + ln_abs(t + i)
    for i in range(1, -k + 1):
        out = out - ln_abs(t - i)
    return out


def gamma_(a):
    return exp_(gammaln_(a))


def _abs_atom(base: R) -> Atom:
    return _atom("fn", "abs", (base,), nneg=True)


def abs_(a):
    if isinstance(a, float):
        return abs(a)
    if isinstance(a, B):
        return a
    if a.is_const():
        return R_const(abs(a.const()))
    if syn_nonneg(a):
        return a
    if syn_nonneg(-a):
        return -a
    if CTX.known_nonneg(a):
        return a
    if CTX.known_nonneg(-a):
        return -a
    c, mono, q = content(a)
    out = R_const(abs(c))
    for aid, e in mono:
        at = ATOMS[aid]
        base = _ratom(at)
        if at.nneg or at.kind == "nroot" or not isinstance(e, int) or e % 2 == 0:
            out = out * _safe_mono(at, e)
        elif CTX.known_nonneg(base):
            out = out * _safe_mono(at, e)
        else:
            out = out * _safe_mono(_abs_atom(base), e)
    if not q.is_const():
        if syn_nonneg(q) or CTX.known_nonneg(q):
            out = out * q
        elif CTX.known_nonneg(-q):
            out = out * (-q)
        else:
            out = out * _ratom(_abs_atom(q))
    return out


def sign_(a):
    if isinstance(a, float):
        return math.nan if math.isnan(a) else R_const(1 if a > 0 else -1)
    if a.is_const():
        c = a.const()
        return R_const((c > 0) - (c < 0))
    return ite(a > 0, R_const(1), ite(a < 0, R_const(-1), R_const(0)))


def floor_(a):
    if isinstance(a, float):
        return a
    if a.is_const():
        return R_const(math.floor(a.const()))
    if a.is_int:
        return a
    # pull out the integer part
    ip = R_const(math.floor(a.const()))
    ints = {m: c for m, c in a.t.items() if m and c.denominator == 1 and all(ATOMS[x].is_int and isinstance(e, int) and e > 0 for x, e in m)}
    intpart = _mk(ints) + ip
    rest = a - intpart
    return intpart + _fn("floor", rest, is_int=True)


def trunc_(a):
    if isinstance(a, float):
        if math.isnan(a):
            raise ValueError("cannot convert float NaN to integer")
        raise OverflowError("cannot convert float infinity to integer")
    if a.is_int:
        return a
    if a.is_const():
        return R_const(int(a.const()))
    if syn_nonneg(a) or CTX.known_nonneg(a):
        return floor_(a)
    return ite(a >= 0, floor_(a), -floor_(-a))


def round_(a, nd=0):
    s = Fraction(10) ** int(nd)
    # ties ignored (measure zero); round-half-up
    return floor_(a * s + Fraction(1, 2)) / s


def floordiv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return math.nan
    if b.is_const() and b.const() == 0:
        raise ZeroDivisionError
    if a.is_const() and b.is_const():
        return R_const(a.const() // b.const())
    if a.is_int and b.is_int and not b.is_const():
        if truth(cmp_eq(b, R_const(0))):
            raise ZeroDivisionError
        q = _fn("idiv", a, b, is_int=True)
        return q
    return floor_(div(a, b))


def mod(a, b):
    return a - b * floordiv(a, b)


def concretize_int(a: R):
    """fork over the concrete integer values of a bounded symbolic integer"""
    if a.is_const():
        return int(a.const())
    if not a.is_int:
        a = trunc_(a)
        if a.is_const():
            return int(a.const())
    lo, hi = CTX.int_bounds(a)
    if lo is None or hi is None or hi - lo > 64:
        raise Unsupported(f"cannot concretise unbounded integer {a!r}")
    for v in range(lo, hi):
        if truth(cmp_eq(a, R_const(v))):
            return v
    return hi


# ----------------------------------------------------------------------------- Booleans
_BTAB: dict = {}


class B(_Num):
    """Boolean term: op in {gt, ge, eq, and, or, not, var}"""

    __slots__ = ("op", "args", "h", "cache")
    __array_priority__ = 1000

    def __hash__(self):
        return self.h

    def __bool__(self):
        return CTX.decide(self)

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return or_(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return or_(and_(self, not_(o)), and_(not_(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return not_(self)

    def _r(self):
        return ite(self, R_const(1), R_const(0))

    def __add__(self, o):
        return self._r() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._r() - o

    def __rsub__(self, o):
        return o - self._r()

    def __mul__(self, o):
        if isinstance(o, (B, bool, np.bool_)):
            return and_(self, o)
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return self._r() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._r() / o

    def __neg__(self):
        return -self._r()

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, (B, bool, np.bool_)):
            return or_(and_(self, o), and_(not_(self), not_(o)))
        if isinstance(o, (int, float, R, np.number)):
            return self._r() == o
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __lt__(self, o):
        return self._r() < o

    def __gt__(self, o):
        return self._r() > o

    def __le__(self, o):
        return self._r() <= o

    def __ge__(self, o):
        return self._r() >= o

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(bool)

    def item(self):
        return self

    def all(self, *a, **k):
        return self

    any = all

    def sum(self, *a, **k):
        return self._r()

    def astype(self, t=None, *a, **k):
        return self._r()

    def __repr__(self):
        if self.op in ("gt", "ge", "eq"):
            return f"({self.args[0]!r} {dict(gt='>', ge='>=', eq='==')[self.op]} 0)"
        if self.op == "not":
            return f"!{self.args[0]!r}"
        if self.op == "var":
            return self.args[0]
        s = f" {self.op} ".join(map(repr, self.args))
        return f"({s})" if len(s) < 500 else f"({s[:500]}...)"

    def __format__(self, spec):
        return repr(self)


def _mkB(op, *args):
    key = (op,) + tuple(a if isinstance(a, str) else id(a) for a in args)
    b = _BTAB.get(key)
    if b is None:
        b = object.__new__(B)
        b.op, b.args = op, args
        b.h = len(_BTAB) + 1_000_000_007
        b.cache = {}
        _BTAB[key] = b
    return b


def bvar(name):
    return _mkB("var", name)


def truth(x) -> bool:
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, B):
        return CTX.decide(x)
    return bool(x)


def _drop_pos(p: R) -> R:
    """divide by a positive factor"""
    c, mono, q = content(p)
    keep = []
    for a, e in mono:
        at = ATOMS[a]
        if at.pos or at.kind in ("nroot", "const"):
            continue
        single = len(mono) == 1 and q.is_const()
        if not (single and e == 1) and CTX.known_pos(_ratom(at)):
            continue
        if isinstance(e, int) and e < 0 and at.kind == "P" and (e % 2 == 0 or syn_pos(at.args[0]) or CTX.known_pos(at.args[0])):
            continue
        if isinstance(e, int) and e < 0 and at.kind == "P" and CTX.known_pos(-at.args[0]) and e % 2:
            c = -c
            continue
        keep.append((a, e))
    s = 1 if c > 0 else -1
    return s * _mono_R(tuple(keep)) * q if keep else s * q


def clear_dens(p: R) -> R:
    """multiply by positive powers of denominators known to be positive"""
    negs = _neg_P(p)
    for aid, e in negs.items():
        P = ATOMS[aid].args[0]
        k = -math.floor(e)
        if syn_pos(P) or CTX.known_pos(P):
            p = p * _ipow(P, k)
        elif CTX.known_pos(-P):
            p = p * _ipow(-P, k)
        elif k:
            p = p * _ipow(P, k + (k % 2))
    # plain atoms with negative exponents
    mins = _min_exp(p) if p.t else {}
    for aid, e in mins.items():
        if isinstance(e, int) and e < 0 and ATOMS[aid].kind != "P":
            at = ATOMS[aid]
            base = _ratom(at)
            if at.pos or CTX.known_pos(base):
                p = p * _ipow(base, -e)
            elif CTX.known_pos(-base):
                p = p * _ipow(-base, -e)
            else:
                k = -e
                p = p * _ipow(base, k + (k % 2))
    return p


def _canon_ineq(p: R):
    if len(p.t) > 1 and any(e < 0 for m in p.t for _, e in m):
        try:
            p = clear_dens(p)
        except Unsupported:
            pass
    p = _drop_pos(p)
    return p


def _numcmp(p: R):
    v = p.num_const()
    return v


def squash(p):
    """merge constants: drop coefficient groups (rational + ln 2, pi, ...) whose exact parts cancel up to float rounding"""
    groups = {}
    mixed = False
    for m, c in p.t.items():
        k = tuple((a, e) for a, e in m if not _const_atom(ATOMS[a]))
        if len(k) != len(m):
            mixed = True
        groups.setdefault(k, []).append((m, c))
    if not mixed:
        return p
    t = dict(p.t)
    for k, lst in groups.items():
        if len(lst) < 2:
            continue
        tot, mag = 0.0, 0.0
        for m, c in lst:
            v = float(c)
            for a, e in m:
                if _const_atom(ATOMS[a]):
                    v *= _const_val(ATOMS[a]) ** float(e)
            tot += v
            mag = max(mag, abs(v))
        if abs(tot) < 3e-13 * mag:
            for m, c in lst:
                t.pop(m, None)
    return p if len(t) == len(p.t) else _mk(t)


def _const_atom(at):
    return at.kind in ("const", "nroot") or (at.kind == "fn" and all(isinstance(a, R) and a.is_const() for a in at.args))


_CV = {}


def _const_val(at):
    v = _CV.get(at.id)
    if v is None:
        v = _CV[at.id] = float(evalf(_ratom(at)))
    return v


def _log_product(p, power=1, limit=3000):
    """sum c_i ln|a_i| (no constant) as the pair (P, Q) with k p = ln|P| - ln|Q|, k > 0; or None"""
    if not p.t or len(p.t) > 8:
        return None
    fs = []
    for m, c in p.t.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        at = ATOMS[m[0][0]]
        if at.id == _LN_PI.id:
            fs.append((PI(), c))
        elif at.kind == "fn" and at.name == "ln":
            fs.append((at.args[0], c))
        else:
            return None
    den = 1
    for _, c in fs:
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for _, c in fs:
        g = math.gcd(g, int(c * den))
    deg, size = 0, 1
    out = [R_const(1), R_const(1)]
    for a, c in fs:
        k = power * int(c * den) // g
        deg += abs(k)
        size *= len(a.t) ** abs(k)
        if deg > 14 or size > limit:
            return None
        for _ in range(abs(k)):
            out[k < 0] = out[k < 0] * a
    return out[0], out[1], [a for a, _ in fs]


def _loglin(p):
    """the polynomial whose sign is that of a sum of logarithms, or None"""
    pq = _log_product(p)
    if pq is None:
        return None
    if not all(syn_pos(a) or CTX.known_pos(a) for a in pq[2]):  # the atoms are ln|a|
        pq = _log_product(p, 2)
        if pq is None:
            return None
    return pq[0] - pq[1]


def log_zero(p):
    """a sum of logarithms that vanishes because the products agree up to sign"""
    pq = _log_product(p, limit=30000)
    if pq is None:
        return False
    return any(not clear(v).t for v in (pq[0] - pq[1], pq[0] + pq[1]))


def clear(v):
    v = squash(v)
    if v.t and any(e < 0 for m in v.t for _, e in m):
        v = squash(clear_dens(v))
    return v


def cmp_lt(a, b):
    """a < b"""
    if isinstance(a, float) or isinstance(b, float):
        return _special_lt(a, b, strict=True)
    p = squash(b - a)
    if p.is_const():
        return p.const() > 0
    ll = _loglin(p)
    if ll is not None:
        p = ll
    if p.is_const():
        return p.const() > 0
    v = _numcmp(p)
    if v is not None:
        if abs(v) > 1e-18:
            return bool(v > 0)
    if syn_pos(p):
        return True
    if syn_nonneg(-p):
        return False
    if p.is_int and not _has_frac(p):
        pass
    p = _canon_ineq(p)
    if p.is_const():
        return p.const() > 0
    if syn_pos(p):
        return True
    if syn_nonneg(-p):
        return False
    return _mkB("gt", p)


def cmp_le(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return _special_lt(a, b, strict=False)
    return not_(cmp_lt(b, a))


def _has_frac(p):
    return False


def _special_lt(a, b, strict):
    fa = a if isinstance(a, float) else 0.0
    fb = b if isinstance(b, float) else 0.0
    if math.isnan(fa) or math.isnan(fb):
        return False
    if isinstance(a, float) and isinstance(b, float):
        return fa < fb if strict else fa <= fb
    if isinstance(a, float):
        return fa < 0  # -inf < finite
    return fb > 0


def cmp_eq(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return a == b
        return False
    if isinstance(a, B) or isinstance(b, B):
        if isinstance(a, B) and isinstance(b, B):
            return a == b
        a, b = lift(a), lift(b)
        if isinstance(a, B) or isinstance(b, B):
            return False
    p = squash(a - b)
    if not p.t:
        return True
    ll = _loglin(p)
    if ll is not None:
        p = ll
    if not p.t:
        return True
    if p.is_const():
        return False
    v = _numcmp(p)
    if v is not None and abs(v) > 1e-18:
        return False
    if any(e < 0 for m in p.t for _, e in m):
        try:
            p = clear_dens(p)
        except Unsupported:
            pass
        if not p.t:
            return True
    if syn_pos(p) or syn_pos(-p):
        return False
    c, mono, q = content(p)
    p2 = q
    for a_, e in mono:
        at = ATOMS[a_]
        if e < 0 or at.pos or at.kind in ("nroot", "const"):
            continue
        p2 = p2 * _ratom(at)
    if p2.is_const():
        return p2.const() == 0
    c, mono, q = content(p2)
    return _mkB("eq", p2 if c > 0 else -p2)


def cmp_ne(a, b):
    return not_(cmp_eq(a, b))


def not_(b):
    if isinstance(b, (bool, np.bool_)):
        return not b
    if not isinstance(b, B):
        return not b
    if b.op == "not":
        return b.args[0]
    if b.op == "gt":
        # !(p > 0) <=> -p >= 0
        return _mkB("ge", -b.args[0])
    if b.op == "ge":
        return _mkB("gt", -b.args[0])
    return _mkB("not", b)


def _flat(op, args):
    out = []
    for a in args:
        if isinstance(a, B) and a.op == op:
            out.extend(a.args)
        else:
            out.append(a)
    return out


def and_(*args):
    out = []
    seen = set()
    for a in _flat("and", args):
        if isinstance(a, np.ndarray):
            a = a.item()
        if isinstance(a, (R,)):
            a = cmp_ne(a, R_const(0))
        if not isinstance(a, B):
            if not a:
                return False
            continue
        if id(a) in seen:
            continue
        seen.add(id(a))
        out.append(a)
    if not out:
        return True
    for a in out:
        if id(not_(a)) in seen:
            return False
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b.h)
    return _mkB("and", *out)


def or_(*args):
    out = []
    seen = set()
    for a in _flat("or", args):
        if isinstance(a, np.ndarray):
            a = a.item()
        if isinstance(a, (R,)):
            a = cmp_ne(a, R_const(0))
        if not isinstance(a, B):
            if a:
                return True
            continue
        if id(a) in seen:
            continue
        seen.add(id(a))
        out.append(a)
    if not out:
        return False
    for a in out:
        if id(not_(a)) in seen:
            return True
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b.h)
    return _mkB("or", *out)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def ite(b, t, f):
    if not isinstance(b, B):
        return t if b else f
    if isinstance(t, (bool, np.bool_, B)) and isinstance(f, (bool, np.bool_, B)):
        return or_(and_(b, t), and_(not_(b), f))
    if isinstance(t, B):
        t = t._r()
    if isinstance(f, B):
        f = f._r()
    t = lift(t)
    f = lift(f)
    if t is f or (isinstance(t, float) and isinstance(f, float) and (t == f or (t != t and f != f))):
        return t
    known = getattr(CTX, "known_truth", None)
    if known is not None:
        kt = known(b)
        if kt is not None:
            return t if kt else f
    if isinstance(t, float) or isinstance(f, float):
        return t if truth(b) else f  # inf/nan on one side: fork
    # canonical polarity
    if b.op == "not" or b.op == "ge":
        b, t, f = not_(b), f, t
    d = t - f
    if d.is_const() or True:
        # f + (t - f) * [b]   when the difference is constant; else atom
        if d.is_const():
            at = _atom("ite", None, (b, R_const(1), R_const(0)), is_int=True, nneg=True)
            return f + d * _ratom(at)
    t, f = squash(t), squash(f)
    # maxima and minima get one form, however they are spelled
    gt = cmp_lt(f, t)
    if isinstance(gt, B):
        if b is gt or b is cmp_lt(t, f):
            mx = b is gt  # t if t > f else f: the maximum
            if t.h > f.h:
                t, f = f, t
            b = cmp_lt(f, t)
            if known is not None:  # at equality the branches agree
                kt = known(cmp_le(f, t)), known(cmp_le(t, f))
                if kt[0] or kt[1]:
                    return (t if kt[0] else f) if mx else (f if kt[0] else t)
            if not mx:
                t, f = f, t
    nneg = syn_nonneg(t) and syn_nonneg(f)
    at = _atom("ite", None, (b, t, f), is_int=t.is_int and f.is_int, nneg=nneg, pos=syn_pos(t) and syn_pos(f))
    return _ratom(at)


def max_(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float):
            if math.isnan(a):
                return a
            return b if a < 0 else a
        if math.isnan(b):
            return b
        return a if b < 0 else b
    c = a > b
    return ite(c, a, b)


def min_(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, float) or isinstance(b, float):
        m = max_(_negs(a), _negs(b))
        return _negs(m)
    if a is b:
        return a
    return ite(a > b, b, a)


def _negs(x):
    return -x


_lnpi_init()


# ----------------------------------------------------------------------------- evaluation
def deps(at: Atom):
    """set of atom ids reachable (including itself)"""
    if at.deps_ is None:
        s = {at.id}
        for x in at.args:
            if isinstance(x, (R, B)):
                s |= term_atoms(x)
        at.deps_ = frozenset(s)
    return at.deps_


def term_atoms(x):
    c = x.cache.get("atoms")
    if c is None:
        s = set()
        if isinstance(x, R):
            for a in x.atoms():
                s |= deps(ATOMS[a])
        else:
            for a in x.args:
                if isinstance(a, (R, B)):
                    s |= term_atoms(a)
        c = frozenset(s)
        x.cache["atoms"] = c
    return c


def var_atoms(x):
    c = x.cache.get("vars")
    if c is None:
        c = frozenset(a for a in term_atoms(x) if ATOMS[a].kind in ("var", "uf"))
        x.cache["vars"] = c
    return c


UF_INTERP: dict = {}  # name -> callable on mpmath numbers


def tompf(v):
    if isinstance(v, Fraction):
        return mpmath.mpf(v.numerator) / v.denominator
    return mpmath.mpf(v)


class EvalError(Exception):
    pass


def _safe(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            return mpmath.nan

    return g


_EV = {
    "exp": mpmath.exp,
    "ln": lambda v: mpmath.log(abs(v)) if v != 0 else -mpmath.inf,
    "sin": mpmath.sin,
    "cos": mpmath.cos,
    "erf": mpmath.erf,
    "tanh": mpmath.tanh,
    "asinh": mpmath.asinh,
    "atan": mpmath.atan,
    "erfinv": mpmath.erfinv,
    "abs": abs,
    "floor": mpmath.floor,
    "digamma": mpmath.digamma,
    "kth": lambda k, *v: sorted(v)[int(k)],
    "kth+": lambda k, *v: sorted(v)[int(k)],
    "gammaln": lambda v: mpmath.loggamma(v),
    "idiv": lambda a, b: mpmath.floor(a / b),
}


def evalf(x, env=None, memo=None):
    """numeric evaluation (mpmath) of R / B; env: atom id -> number; uf: env[('uf', name)] callable"""
    env = env or {}
    memo = {} if memo is None else memo
    return _ev(x, env, memo)


def _ev(x, env, memo):
    if isinstance(x, (int, float, Fraction, bool, np.bool_, np.number)):
        return x if not isinstance(x, Fraction) else mpmath.mpf(x.numerator) / x.denominator
    k = id(x)
    if k in memo:
        return memo[k]
    if isinstance(x, R):
        s = mpmath.mpf(0)
        for m, c in x.t.items():
            v = mpmath.mpf(c.numerator) / c.denominator
            for a, e in m:
                b = _ev_atom(ATOMS[a], env, memo)
                if isinstance(e, int):
                    if e < 0 and b == 0:
                        v = mpmath.nan
                    else:
                        v = v * b ** e
                else:
                    if b < 0:
                        v = mpmath.nan
                    elif b == 0 and e < 0:
                        v = mpmath.nan
                    else:
                        v = v * mpmath.power(b, mpmath.mpf(e.numerator) / e.denominator)
            s = s + v
        memo[k] = s
        return s
    op = x.op
    if op == "gt":
        r = _ev(x.args[0], env, memo) > 0
    elif op == "ge":
        r = _ev(x.args[0], env, memo) >= 0
    elif op == "eq":
        r = abs(_ev(x.args[0], env, memo)) < mpmath.mpf("1e-12")
    elif op == "not":
        r = not _ev(x.args[0], env, memo)
    elif op == "and":
        r = all(_ev(a, env, memo) for a in x.args)
    elif op == "or":
        r = any(_ev(a, env, memo) for a in x.args)
    elif op == "var":
        r = bool(env.get(("b", x.args[0]), False))
    memo[k] = bool(r)
    return bool(r)


def _ev_atom(at: Atom, env, memo):
    k = ("a", at.id)
    if k in memo:
        return memo[k]
    if at.kind == "var":
        if at.id not in env:
            raise EvalError(f"no value for {at!r}")
        v = tompf(env[at.id])
    elif at.kind in ("const", "nroot"):
        v = mpmath.mpf(at.val) if at.kind == "nroot" else +at.val
    elif at.kind == "P":
        v = _ev(at.args[0], env, memo)
    elif at.kind == "ite":
        v = _ev(at.args[1] if _ev(at.args[0], env, memo) else at.args[2], env, memo)
    elif at.kind == "fn":
        try:
            v = _EV[at.name](*[_ev(a, env, memo) for a in at.args])
        except (ValueError, OverflowError, ZeroDivisionError, KeyError) as e:
            v = mpmath.nan
        if isinstance(v, mpmath.mpc):
            v = mpmath.nan
    elif at.kind == "uf":
        if at.id in env:
            memo[k] = tompf(env[at.id])
            return memo[k]
        f = env.get(("uf", at.name)) or UF_INTERP.get(at.name)
        if f is None:
            raise EvalError(f"no interpretation for {at!r}")
        v = mpmath.mpf(f(*[_ev(a, env, memo) for a in at.args]))
    memo[k] = v
    return v


# ---- fast double-precision evaluation (used to prune; ambiguous comparisons fall back to mpmath)
def _psi(x):
    return float(mpmath.digamma(x))


_FEV = {
    "kth": lambda k, *v: sorted(v)[int(k)],
    "kth+": lambda k, *v: sorted(v)[int(k)],
    "exp": math.exp,
    "ln": lambda v: math.log(abs(v)) if v else -math.inf,
    "sin": math.sin,
    "cos": math.cos,
    "erf": math.erf,
    "tanh": math.tanh,
    "asinh": math.asinh,
    "atan": math.atan,
    "abs": abs,
    "floor": math.floor,
    "digamma": _psi,
    "gammaln": math.lgamma,
    "idiv": lambda a, b: math.floor(a / b),
}


def fev(x, env, memo):
    """float value of an R (nan when undefined) / bool-or-None of a B"""
    k = id(x)
    if k in memo:
        return memo[k]
    if isinstance(x, R):
        s = 0.0
        try:
            for m, c in x.t.items():
                v = c.numerator / c.denominator
                for a, e in m:
                    b = _fev_atom(ATOMS[a], env, memo)
                    v = v * (b ** e if isinstance(e, int) else (b ** (e.numerator / e.denominator) if b >= 0 else math.nan))
                s += v
        except (OverflowError, ZeroDivisionError, ValueError):
            s = math.nan
        memo[k] = s
        return s
    op = x.op
    if op in ("gt", "ge", "eq"):
        v = fev(x.args[0], env, memo)
        if v != v:
            r = False if op != "eq" else False
            r = None
        elif abs(v) < 1e-8:
            r = None
        else:
            r = (v > 0) if op != "eq" else False
    elif op == "not":
        r = fev(x.args[0], env, memo)
        r = None if r is None else not r
    elif op == "and":
        r = True
        for a in x.args:
            q = fev(a, env, memo)
            if q is False:
                r = False
                break
            if q is None:
                r = None
    elif op == "or":
        r = False
        for a in x.args:
            q = fev(a, env, memo)
            if q is True:
                r = True
                break
            if q is None:
                r = None
    else:
        r = bool(env.get(("b", x.args[0]), False))
    memo[k] = r
    return r


def _fev_atom(at, env, memo):
    k = ("a", at.id)
    if k in memo:
        return memo[k]
    kd = at.kind
    if kd == "var":
        if at.id not in env:
            raise EvalError(f"no value for {at!r}")
        v = float(env[at.id])
    elif kd == "const":
        v = float(+at.val)
    elif kd == "nroot":
        v = float(at.val)
    elif kd == "P":
        v = fev(at.args[0], env, memo)
    elif kd == "ite":
        c = fev(at.args[0], env, memo)
        if c is None:
            c = bool(_ev(at.args[0], env, {}))
        v = fev(at.args[1] if c else at.args[2], env, memo)
    elif kd == "fn":
        f = _FEV.get(at.name)
        try:
            v = f(*[fev(a, env, memo) for a in at.args]) if f else float(_ev_atom(at, env, {}))
            v = float(v)
        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
            v = math.nan
    else:
        if at.id in env:
            v = float(env[at.id])
        else:
            v = float(_ev_atom(at, env, {}))
    memo[k] = v
    return v


def holds(b, env, memo=None, mp=None):
    """truth of a Boolean term under env (False if undefined)"""
    if not isinstance(b, B):
        return bool(b)
    r = fev(b, env, {} if memo is None else memo)
    if r is None:
        r = _ev(b, env, {} if mp is None else mp)
    return bool(r)
