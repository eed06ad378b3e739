"""Lowering of symbolic terms to Z3 and satisfiability queries.

Every atom becomes a Z3 constant; transcendental atoms are over-approximated by sound axioms
(so `unsat` is a proof within the real-arithmetic reading; `sat` is only a candidate that has
to be confirmed numerically and replayed on the real code)."""
from __future__ import annotations

import math
import time
from fractions import Fraction

import mpmath
import z3

from . import sym as S
from .sym import ATOMS, B, R

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_time": 0.0, "largest_s": 0.0}

z3.set_param("smt.random_seed", 1)


def q(fr) -> z3.ArithRef:
    fr = Fraction(fr)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


def _iv(v, digits=14):
    """rational interval around an mpmath value"""
    with mpmath.workdps(40):
        v = +v
        scale = mpmath.mpf(10) ** digits
        lo = int(mpmath.floor(v * scale))
    return Fraction(lo, 10 ** digits), Fraction(lo + 1, 10 ** digits)


class Lower:
    def __init__(self):
        self.side = []  # side constraints
        self.nl = []  # further, non-linear side constraints about transcendental atoms (tried in a second round)
        self.zat = {}
        self.rootc = {}
        self.invc = {}
        self.by_fn = {}
        self.bmemo = {}
        self.rmemo = {}
        self.has_int = False

    # ---- atoms
    def atom(self, at):
        z = self.zat.get(at.id)
        if z is not None:
            return z
        nm = f"{at.kind[0]}{at.id}"
        if at.is_int and at.kind != "P":
            zi = z3.Int(nm + "i")
            z = z3.ToReal(zi)
            self.has_int = True
        else:
            z = z3.Real(nm)
        self.zat[at.id] = z
        k = at.kind
        if at.pos:
            self.side.append(z > 0)
        elif at.nneg:
            self.side.append(z >= 0)
        if k == "const":
            lo, hi = _iv(at.val)
            self.side += [z > q(lo), z < q(hi)]
        elif k == "nroot":
            self.side.append(z == at.val)
        elif k == "P":
            self.side.append(z == self.R(at.args[0]))
        elif k == "ite":
            b = self.B(at.args[0])
            self.side.append(z == z3.If(b, self.R(at.args[1]), self.R(at.args[2])))
        elif k == "fn":
            self.fn(at, z)
        elif k == "uf":
            args = [self.R(a) if not isinstance(a, float) else None for a in at.args]
            for at2, args2, z2 in self.by_fn.setdefault(("uf", at.name, len(args)), []):
                cond = []
                okc = True
                for x, y, ax, ay in zip(args, args2, at.args, at2.args):
                    if x is None or y is None:
                        if not (x is None and y is None and ax == ay):
                            okc = False
                        continue
                    cond.append(x == y)
                if okc:
                    self.side.append(z3.Implies(z3.And(*cond) if cond else z3.BoolVal(True), z == z2))
            self.by_fn[("uf", at.name, len(args))].append((at, args, z))
        return z

    def _mono(self, name, at, z, x, guard=None):
        """strict monotonicity with the other atoms of the same function"""
        lst = self.by_fn.setdefault(name, [])
        for at2, x2, z2 in lst[-24:]:
            self.side.append((x < x2) == (z < z2))
            self.side.append((x == x2) == (z == z2))
        lst.append((at, x, z))

    def fn(self, at, z):
        n = at.name
        a0 = at.args[0]
        x = self.R(a0)
        sd = self.side
        if n in ("exp", "ln", "erf", "tanh", "sin", "cos", "digamma", "gammaln", "asinh", "atan", "erfinv") and a0.is_const():
            v = S._ev_atom(at, {}, {})
            lo, hi = _iv(v)
            sd += [z > q(lo), z < q(hi)]
            if n in ("sin", "cos"):
                return
        if n == "exp":
            sd += [z > 0, z >= 1 + x]
            self.nl.append(z3.Implies(x < 1, z * (1 - x) <= 1))
            E = q(Fraction(2718281828459, 10 ** 12))
            sd += [z >= E * x]
            for at2, x2, z2 in self.by_fn.get("ln", [])[-12:]:
                sd.append(z3.Implies(x2 > 0, z3.And((x2 > z) == (z2 > x), (x2 == z) == (z2 == x))))
            self._mono("exp", at, z, x)
        elif n == "ln":
            # the atom stands for ln|x|
            if not S.syn_pos(a0):
                x = z3.If(x >= 0, x, -x)
            sd += [z3.Implies(x > 0, z3.And(z <= x - 1, (z > 0) == (x > 1), (z == 0) == (x == 1)))]
            self.nl.append(z3.Implies(x > 0, z * x >= x - 1))
            for c in (Fraction(1, 8), Fraction(1, 4), Fraction(1, 2), Fraction(2), Fraction(4)):
                # tangent of the logarithm at c, with c's logarithm rounded up
                up = _iv(mpmath.log(mpmath.mpf(c.numerator) / c.denominator))[1]
                sd.append(z3.Implies(x > 0, z <= q(up) + (x - q(c)) / q(c)))
            if not a0.is_const():
                l2 = self.R(S.ln_(S.R_const(2)))
                sd.append(z3.Implies(x > 0, z3.And(z + l2 <= 2 * x - 1, z - l2 <= x / 2 - 1)))
            prev = self.by_fn.get("ln", [])
            if len(prev) <= 4:
                for at2, x2, z2 in prev:
                    # (x - x2) / x <= ln x - ln x2 <= (x - x2) / x2
                    self.nl.append(z3.Implies(z3.And(x > 0, x2 > 0), z3.And(x2 * (z - z2) <= x - x2, x * (z2 - z) <= x2 - x)))
            for at2, x2, z2 in self.by_fn.get("exp", [])[-12:]:
                # exp(w) against the argument: ln is its inverse
                sd.append(z3.Implies(x > 0, z3.And((x > z2) == (z > x2), (x == z2) == (z == x2))))
            self._mono_guard("ln", at, z, x)
        elif n in ("sin", "cos"):
            sd += [z <= 1, z >= -1]
            pair = ("trig", a0.h)
            d = self.by_fn.setdefault(pair, {})
            d[n] = z
            if len(d) == 2:
                sd.append(d["sin"] * d["sin"] + d["cos"] * d["cos"] == 1)
            if n == "sin":
                sd += [z3.Implies(x >= 0, z <= x), z3.Implies(x <= 0, z >= x)]
            else:
                sd += [z >= 1 - x * x / 2]
            for at2, x2, z2 in self.by_fn.setdefault("L" + n, [])[-24:]:
                # 1-Lipschitz
                sd += [z3.Implies(x < x2, z3.And(z2 - z < x2 - x, z2 - z > x - x2)),
                       z3.Implies(x > x2, z3.And(z2 - z < x - x2, z2 - z > x2 - x)),
                       z3.Implies(x == x2, z == z2)]
            self.by_fn["L" + n].append((at, x, z))
        elif n in ("erf", "tanh"):
            sd += [z < 1, z > -1, (z > 0) == (x > 0), (z < 0) == (x < 0)]
            self._oddness(n, at, z, x)
            self._mono(n, at, z, x)
        elif n in ("asinh", "atan", "erfinv"):
            sd += [(z > 0) == (x > 0), (z < 0) == (x < 0)]
            if n == "asinh":
                sd += [z3.Implies(x > 0, z < x), z3.Implies(x < 0, z > x)]
            self._oddness(n, at, z, x)
            self._mono(n, at, z, x)
        elif n == "abs":
            sd.append(z == z3.If(x >= 0, x, -x))
        elif n == "floor":
            sd += [z <= x, x < z + 1]
        elif n == "idiv":
            y = self.R(at.args[1])
            sd += [z3.Implies(y > 0, z3.And(z * y <= x, x < z * y + y)),
                   z3.Implies(y < 0, z3.And(z * y >= x, x > z * y + y))]
        elif n in ("digamma",):
            self._mono_guard(n, at, z, x)
            if S.int_valued(a0) and not a0.is_const():
                for c in range(1, 13):
                    lo, hi = _iv(mpmath.digamma(c))
                    sd.append(z3.Implies(x == c, z3.And(z > q(lo), z < q(hi))))
        elif n in ("kth", "kth+"):
            k = int(a0.const())
            vs = [self.R(a) for a in at.args[1:]]
            sd.append(z3.Or(*[z == v for v in vs]))
            if k == 0:
                sd += [z <= v for v in vs]
            elif k == len(vs) - 1:
                sd += [z >= v for v in vs]
            else:
                sd.append(z3.PbLe([(v < z, 1) for v in vs], k))
                sd.append(z3.PbGe([(v <= z, 1) for v in vs], k + 1))
        elif n == "gammaln":
            pass
        else:
            # unknown function: congruence only
            args = [self.R(a) for a in at.args]
            for at2, args2, z2 in self.by_fn.setdefault(("g", n, len(args)), []):
                sd.append(z3.Implies(z3.And(*[a == b for a, b in zip(args, args2)]), z == z2))
            self.by_fn[("g", n, len(args))].append((at, args, z))

    def _oddness(self, name, at, z, x):
        """f(-t) = -f(t) is in the normal form, except where an absolute value hides the sign"""
        mine = _has_abs(at)
        for at2, x2, z2 in self.by_fn.get(name, [])[-24:]:
            if mine or _has_abs(at2):
                self.side.append((x < -x2) == (z < -z2))
                self.side.append((x == -x2) == (z == -z2))

    def _mono_guard(self, name, at, z, x):
        lst = self.by_fn.setdefault(name, [])
        for at2, x2, z2 in lst[-24:]:
            self.side.append(z3.Implies(z3.And(x > 0, x2 > 0), z3.And((x < x2) == (z < z2), (x == x2) == (z == z2))))
        lst.append((at, x, z))

    def root(self, at, d):
        key = (at.id, d)
        r = self.rootc.get(key)
        if r is None:
            base = self.atom(at)
            r = z3.Real(f"r{at.id}_{d}")
            pw = r
            for _ in range(d - 1):
                pw = pw * r
            self.side += [pw == base, r >= 0]
            if at.pos or at.kind == "nroot":
                self.side.append(r > 0)
            if at.kind == "nroot":
                lo, hi = _iv(mpmath.mpf(at.val) ** (mpmath.mpf(1) / d))
                self.side += [r > q(lo), r < q(hi)]
            self.rootc[key] = r
        return r

    def inv(self, key, base, pos):
        r = self.invc.get(key)
        if r is None:
            r = z3.Real("inv_" + "_".join(map(str, key)))
            self.side.append(r * base == 1)
            if pos:
                self.side.append(r > 0)
            self.invc[key] = r
        return r

    def R(self, r):
        z = self.rmemo.get(r.h)
        if z is not None:
            return z
        terms = []
        for m, c in r.t.items():
            fs = []
            for aid, e in m:
                at = ATOMS[aid]
                if isinstance(e, int):
                    if e > 0:
                        fs += [self.atom(at)] * e
                    else:
                        fs += [self.inv((aid, 1), self.atom(at), at.pos)] * (-e)
                else:
                    n, d = e.numerator, e.denominator
                    rt = self.root(at, d)
                    if n > 0:
                        fs += [rt] * n
                    else:
                        fs += [self.inv((aid, d), rt, True)] * (-n)
            if not fs:
                terms.append(q(c))
                continue
            p = fs[0]
            for f in fs[1:]:
                p = p * f
            terms.append(p if c == 1 else q(c) * p)
        if not terms:
            z = q(0)
        elif len(terms) == 1:
            z = terms[0]
        else:
            z = z3.Sum(*terms)
        self.rmemo[r.h] = z
        return z

    def B(self, b):
        if not isinstance(b, B):
            return z3.BoolVal(bool(b))
        z = self.bmemo.get(b.h)
        if z is not None:
            return z
        op = b.op
        if op in ("gt", "ge", "eq"):
            p = b.args[0]
            if any(e < 0 for m in p.t for _, e in m):
                try:
                    p = S.clear_dens(p)
                except S.Unsupported:
                    pass
            x = self.R(p)
            z = x > 0 if op == "gt" else x >= 0 if op == "ge" else x == 0
        elif op == "not":
            z = z3.Not(self.B(b.args[0]))
        elif op == "and":
            z = z3.And(*[self.B(a) for a in b.args])
        elif op == "or":
            z = z3.Or(*[self.B(a) for a in b.args])
        elif op == "var":
            z = z3.Bool("bv_" + b.args[0])
        self.bmemo[b.h] = z
        return z


def _has_abs(at):
    return any(ATOMS[a].kind == "fn" and ATOMS[a].name == "abs" for m in at.args[0].t for a, _ in m)


def _connected(pc, goal):
    """conjuncts transitively sharing variables with the goal"""
    need = set(S.term_atoms(goal)) if isinstance(goal, B) else set()
    # constants do not connect
    def vs(b):
        return {a for a in S.term_atoms(b) if ATOMS[a].kind in ("var", "uf")}

    need = vs(goal) if isinstance(goal, B) else set()
    bv = _bvars(goal) if isinstance(goal, B) else set()
    rest = list(pc)
    out = []
    direct = None
    while True:
        nxt = []
        added = False
        add_v, add_b = set(), set()
        for b in rest:
            v = vs(b)
            bb = _bvars(b)
            if (v & need) or (bb & bv):
                out.append(b)
                add_v |= v
                add_b |= bb
                added = True
            else:
                nxt.append(b)
        need |= add_v
        bv |= add_b
        rest = nxt
        if direct is None:
            direct = list(out)
        if not added:
            break
    return direct, out


def _bvars(b):
    c = b.cache.get("bv")
    if c is None:
        if b.op == "var":
            c = frozenset([b.args[0]])
        else:
            s = set()
            for a in b.args:
                if isinstance(a, B):
                    s |= _bvars(a)
            c = frozenset(s)
            # booleans inside ite atoms
            for a in S.term_atoms(b):
                at = ATOMS[a]
                if at.kind == "ite" and isinstance(at.args[0], B):
                    c = c | _bvars(at.args[0])
        b.cache["bv"] = c
    return c


def _num(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def _run(conj, timeout_ms, nra_first=False, tactics=("def", "nra")):
    L = Lower()
    zs = [L.B(b) for b in conj]
    cons = L.side + zs
    if L.nl:
        s = z3.Solver()
        s.set("timeout", int(min(timeout_ms, 1500)))
        s.add(*cons)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t
        STATS["queries"] += 1
        STATS["solver_time"] += dt
        STATS["largest_s"] = max(STATS["largest_s"], dt)
        STATS[str(r)] += 1
        if r == z3.unsat:
            return "unsat", None
        cons = L.side + L.nl + zs
    order = list(tactics)
    if L.has_int and "nra" in order:
        order = [o for o in order if o != "nra"] or ["def"]
    verdict, model = "unknown", None
    for o in order:
        s = z3.Solver() if o == "def" else z3.SolverFor("QF_NRA")
        s.set("timeout", int(timeout_ms))
        s.add(*cons)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t
        STATS["queries"] += 1
        STATS["solver_time"] += dt
        STATS["largest_s"] = max(STATS["largest_s"], dt)
        STATS[str(r)] += 1
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            m = s.model()
            env = {}
            for aid, z in L.zat.items():
                at = ATOMS[aid]
                if at.kind in ("var", "uf"):
                    zz = z.arg(0) if z3.is_to_real(z) else z
                    v = _num(m.eval(zz, model_completion=True))
                    if v is not None:
                        env[aid] = v
            for b in conj:
                if isinstance(b, B):
                    for nm in _bvars(b):
                        env[("b", nm)] = z3.is_true(m.eval(z3.Bool("bv_" + nm), model_completion=True))
            return "sat", env
    return verdict, model


def check(pc, goal, timeout_ms=4000):
    """Is pc /\\ goal satisfiable?  -> ('unsat'|'sat'|'unknown', env)"""
    if not isinstance(goal, B):
        if not goal:
            return "unsat", None
        if not pc:
            return "sat", {}
        goal = pc[0]
    direct, conn = _connected(pc, goal)
    cand = None
    if len(direct) < len(conn):
        r, env = _run(direct + [goal], min(timeout_ms, 1500), tactics=("def",))
        if r == "unsat":
            return r, None
    r, env = _run(conn + [goal], timeout_ms)
    return r, env
