"""Path exploration: run a harness on symbolic values, forking at every open branch."""
from __future__ import annotations

import math
import random
import time
import traceback
from fractions import Fraction

from . import smt
from . import sym as S
from .sym import ATOMS, B, R, Unsupported

INF = math.inf


class PathAbort(BaseException):
    """this path is infeasible / excluded by an assumption"""


class Budget(BaseException):
    pass


class VarDecl:
    __slots__ = ("atom", "name", "lo", "hi", "kind", "sampler")


def _nice(rng, lo, hi):
    if lo is None and hi is None:
        v = rng.uniform(-2.5, 2.5)
    elif hi is None:
        v = float(lo) + rng.choice([rng.uniform(0.05, 1.0), rng.uniform(0.2, 4.0)])
    elif lo is None:
        v = float(hi) - rng.uniform(0.05, 4.0)
    else:
        v = rng.uniform(float(lo), float(hi))
        for nd in (2, 3, 4, 6):
            f = Fraction(round(v * 10 ** nd), 10 ** nd)
            if lo < f < hi:
                return f
        return Fraction(v).limit_denominator(10 ** 12)
    f = Fraction(round(v * 100), 100)
    if lo is not None and f <= lo:
        f = Fraction(v).limit_denominator(10 ** 9)
    return f


class Explorer(S.Ctx):
    POOL = 10

    def __init__(self, name, seed=1, time_budget=120.0, max_paths=4000, smt_ms=4000):
        self.name = name
        self.seed = seed
        self.deadline = time.time() + time_budget
        self.grace = time_budget / 2
        self.max_paths = max_paths
        self.smt_ms = smt_ms
        self.memo = {}
        self.pcids = {}
        self.paths = 0
        self.branches = 0
        self.aborted = 0
        self.unsupported = []  # (message)
        self.unresolved = []  # (label, message)
        self.candidates = []  # (label, env by name)
        self.witnesses = []  # env by name, one per completed path
        self.ob_total = 0
        self.ob_normal = 0
        self.ob_solver = 0
        self.decls = {}
        self.samples = []
        self.exhausted = True
        self.interrupted = False
        self.covers = {}
        self.path_pool = []
        self.iv_cache = {}
        self.vcount = {}
        self.undecided = []  # models of the path conditions of paths whose encoding stopped

    # ------------------------------------------------------------------ path state
    def begin(self, prefix, wit):
        self.pc = []
        self.pcset = set()
        self.pckey = 0
        self.prefix = prefix
        self.pos = 0
        self.decs = []
        self.events = []
        self.wit = wit
        self.rlog = []
        self.rng = random.Random(f"{self.seed}:{self.name}:{len(prefix)}:{self.paths}")
        self.pool = [dict(wit) if wit else {}] + [{} for _ in range(self.POOL - 1)]
        self.cur_vars = []
        self.label_stack = []
        self.fresh = {}
        self.iv_cache = {}
        S.set_ctx(self)

    def explore(self, fn):
        """all paths, within the budget (a computation that never comes back is interrupted some time after it)"""
        import signal
        import threading

        def late(*_):
            self.interrupted = True
            raise Budget()

        if threading.current_thread() is not threading.main_thread() or self.deadline == float("inf"):
            return self._explore(fn)
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, self.deadline - time.time()) * 1.3 + 25, 5.0)
        try:
            self._explore(fn)
        except Budget:
            self.exhausted = False
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def _explore(self, fn):
        stack = [([], None)]
        self.stack = stack
        while stack:
            if self.paths >= self.max_paths or time.time() > self.deadline:
                self.exhausted = False
                break
            prefix, wit = stack.pop()
            self.begin(prefix, wit)
            done = True
            try:
                fn()
            except PathAbort:
                self.aborted += 1
                continue
            except Budget:
                self.exhausted = False
                if len(self.undecided) < 8:
                    self.undecided.append(self.named(next((e for e in self.pool if self.env_ok(e)), {})))
                break
            except (Unsupported, RecursionError) as e:
                self.unsupported.append(_where(e))
                done = False
                if len(self.undecided) < 8:
                    b = self.best_env() or {}
                    self.undecided += [self.named(e) for e in [b] + (self.variants(b, 2) if b else [])]
            except Exception as e:
                if self.interrupted:  # the interruption, as something in between reports it
                    self.exhausted = False
                    break
                # the code under test raised where the harness does not expect it
                self.ob_total += 1
                self.cand("unexpected-exception:" + type(e).__name__, None, exc=_where(e))
                done = False
            self.paths += 1
            w = self.best_env()
            if w is not None:
                self.witnesses.append(self.named(w))
                if len(self.samples) < 5:
                    self.samples.append({"path": self.paths, "decisions": len(self.decs),
                                         "pc": [repr(b)[:160] for b in self.pc[:8]],
                                         "witness": {k: str(v) for k, v in list(self.named(w).items())[:12]}})
        S.set_ctx(S.Ctx())

    # ------------------------------------------------------------------ environment
    def declare(self, name, lo=None, hi=None, kind="real", lo_open=False, hi_open=False, sampler=None):
        is_int = kind == "int"
        pos = lo is not None and (lo > 0 or (lo == 0 and lo_open))
        # the sign flag is part of the atom, so it is part of the atom's name
        v = S.var(name + ("+" if pos else ""), is_int=is_int, pos=pos, nneg=(lo is not None and lo >= 0))
        (m, _), = v.t.items()
        at = ATOMS[m[0][0]]
        lo = None if lo is None else S.float_to_frac(lo) if isinstance(lo, float) else Fraction(lo)
        hi = None if hi is None else S.float_to_frac(hi) if isinstance(hi, float) else Fraction(hi)
        d = self.decls.get(at.id)
        if d is None:
            d = VarDecl()
            d.atom, d.name, d.lo, d.hi, d.kind, d.sampler = at, name, lo, hi, kind, sampler
            self.decls[at.id] = d
        self.cur_vars.append(d)
        for e in self.pool:
            if at.id not in e:
                e[at.id] = self.draw(d)
        if lo is not None and not (pos and lo == 0):
            self.add_pc(v > lo if lo_open else v >= lo, filter_pool=False)
        if hi is not None:
            self.add_pc(v < hi if hi_open else v <= hi, filter_pool=False)
        return v

    def draw(self, d):
        if d.sampler is not None:
            return d.sampler(self.rng)
        if d.kind == "int":
            lo = int(d.lo) if d.lo is not None else -5
            hi = int(d.hi) if d.hi is not None else lo + 12
            return self.rng.randint(lo, hi)
        if d.lo is not None and d.hi is not None and d.lo == d.hi:
            return d.lo
        return _nice(self.rng, d.lo, d.hi)

    def named(self, env):
        out = {}
        for d in self.cur_vars:
            if d.atom.id in env:
                out[d.name] = env[d.atom.id]
        for k, v in env.items():
            if isinstance(k, tuple) and k[0] == "b":
                out["b:" + k[1]] = v
        return out

    def add_pc(self, b, filter_pool=True):
        if not isinstance(b, B):
            if not b:
                raise PathAbort()
            return
        if b.op == "and":
            for a in b.args:
                self.add_pc(a, filter_pool)
            return
        if id(b) in self.pcset:
            return
        self.pc.append(b)
        self.pcset.add(id(b))
        key = (self.pckey, b.h)
        self.pckey = self.pcids.setdefault(key, len(self.pcids) + 1)
        if filter_pool and self.pool:
            self.pool = [e for e in self.pool if self.sat_env(b, e)]

    def sat_env(self, b, e):
        try:
            return S.holds(b, e)
        except S.EvalError:
            return False

    def assume(self, b):
        if isinstance(b, B):
            nb = S.not_(b)
            if id(nb) in self.pcset:
                raise PathAbort()
        self.add_pc(b)
        if not self.pool:
            self.refill()

    def env_ok(self, e):
        memo = {}
        mp = {}
        for b in self.pc:
            try:
                if not S.holds(b, e, memo, mp):
                    return False
            except S.EvalError:
                return False
        return True

    def rand_env(self):
        base = None
        if self.pool and self.rng.random() < 0.7:
            base = self.rng.choice(self.pool)
        e = {}
        for d in self.cur_vars:
            if base is not None and d.atom.id in base and self.rng.random() < 0.6:
                e[d.atom.id] = base[d.atom.id]
            else:
                e[d.atom.id] = self.draw(d)
        return e

    def refill(self, n=150, want=4):
        got = []
        for _ in range(n):
            e = self.rand_env()
            if self.env_ok(e):
                got.append(e)
                if len(got) >= want:
                    break
        if got:
            self.pool = (self.pool + got)[: 2 * self.POOL]
            return True
        if self.pool:
            return True
        # ask the solver for a witness
        key = (self.pckey, "model")
        if key in self.memo:
            env = self.memo[key]
        else:
            r, env = smt._run(self.pc, self.smt_ms)
            if r == "unsat":
                env = "unsat"
            self.memo[key] = env
        if env == "unsat":
            raise PathAbort()
        if env is not None:
            e = self.complete(env)
            if self.env_ok(e):
                self.pool = [e]
                return True
        return False

    def complete(self, env, base=None):
        base = base if base is not None else (self.pool[0] if self.pool else {})
        e = {}
        for d in self.cur_vars:
            i = d.atom.id
            e[i] = env[i] if i in env else base[i] if i in base else self.draw(d)
        for k, v in env.items():
            if k not in e:
                e[k] = v
        return e

    def best_env(self):
        for e in self.pool:
            if self.env_ok(e):
                return e
        try:
            if self.refill():
                return self.pool[0]
        except PathAbort:
            pass
        return None

    # ------------------------------------------------------------------ decisions
    def decide(self, b):
        if id(b) in self.pcset:
            return True
        nb = S.not_(b)
        if id(nb) in self.pcset:
            return False
        if b.op == "and":
            return all(self.decide(a) if isinstance(a, B) else bool(a) for a in b.args)
        if b.op == "or":
            return any(self.decide(a) if isinstance(a, B) else bool(a) for a in b.args)
        key = (self.pckey, b.h)
        known = self.memo.get(key)
        if known is None:
            known = self._classify(b, nb)
            self.memo[key] = known
        if known[0] == "forced":
            v = known[1]
            self.add_pc(b if v else nb, filter_pool=False)
            return v
        if self.pos < len(self.prefix):
            pb, v = self.prefix[self.pos]
            if pb is not b:
                raise Unsupported("non-deterministic re-execution")
            self.pos += 1
            self.decs.append((b, v))
            self.add_pc(b if v else nb)
            return v
        # fork
        self.branches += 1
        if time.time() > self.deadline:
            raise Budget()
        wt, wf = known[1], known[2]
        if wt is None and wf is None:
            v = True
        else:
            v = wt is not None
        self.pos += 1
        alt = self.decs + [(b, not v)]
        self.stack.append((alt, wf if v else wt))
        self.prefix = self.decs + [(b, v)]
        self.decs = list(self.prefix)
        self.add_pc(b if v else nb)
        w = wt if v else wf
        if not self.pool and w is not None:
            self.pool = [self.complete(w, w)]
        if not self.pool:
            self.refill()
        return v

    def _classify(self, b, nb):
        if not self.pool:
            self.refill()
        wt = wf = None
        for e in self.pool:
            try:
                if S.holds(b, e):
                    wt = wt or e
                elif S.holds(nb, e):
                    wf = wf or e
            except S.EvalError:
                pass
        for _ in range(12):
            if wt is not None and wf is not None:
                break
            e = self.rand_env()
            if not self.env_ok(e):
                continue
            self.pool.append(e)
            try:
                if S.holds(b, e):
                    wt = wt or e
                elif S.holds(nb, e):
                    wf = wf or e
            except S.EvalError:
                pass
        if len(self.pool) > 3 * self.POOL:
            self.pool = self.pool[: 2 * self.POOL]
        if wt is not None and wf is not None:
            return ("fork", dict(wt), dict(wf))
        if b.op == "var" and not any(b is x or any(b is y for y in getattr(x, "args", ())) for x in self.pc) and self.pool:
            # a free choice
            e1, e2 = dict(self.pool[0]), dict(self.pool[0])
            e1[("b", b.args[0])] = True
            e2[("b", b.args[0])] = False
            return ("fork", e1, e2)
        res = []
        for side, w in ((b, wt), (nb, wf)):
            if w is not None:
                res.append(dict(w))
                continue
            r, env = smt.check(self.pc, side, self.smt_ms)
            if r == "unsat":
                return ("forced", side is nb)
            w2 = None
            if r == "sat" and env is not None:
                e = self.complete(env)
                if self.env_ok(e) and self.sat_env(side, e):
                    w2 = e
            res.append(w2)
        return ("fork", res[0], res[1])

    # ------------------------------------------------------------------ knowledge queries
    def _known(self, r, tag, cond):
        if not isinstance(cond, B):
            return bool(cond)
        if id(cond) in self.pcset:
            return True
        key = (self.pckey, tag, r.h)
        v = self.memo.get(key)
        if v is not None:
            return v
        v = True
        for e in self.pool:
            try:
                if not S.holds(cond, e):
                    v = False
                    break
            except S.EvalError:
                v = False
                break
        if v:
            lo, hi = self.ival(r)
            if (tag == "pos" and lo > 1e-12) or (tag == "nn" and lo >= 0) or (tag == "nz" and (lo > 1e-12 or hi < -1e-12)):
                pass
            else:
                rr, _ = smt.check(self.pc, S.not_(cond), 1500)
                v = rr == "unsat"
        self.memo[key] = v
        return v

    def known_pos(self, r):
        if S.syn_pos(r):
            return True
        return self._known(r, "pos", _raw_gt(r))

    def known_nonneg(self, r):
        if S.syn_nonneg(r):
            return True
        return self._known(r, "nn", _raw_ge(r))

    def known_nonzero(self, r):
        if S.syn_pos(r) or S.syn_pos(-r):
            return True
        c, mono, q = S.content(r)
        if q.is_const() and len(mono) == 1 and mono[0][1] == 1:
            pass
        b = S._mkB("eq", r) if not r.is_const() else None
        if b is None:
            return r.const() != 0
        return self._known(r, "nz", S.not_(b))

    def _has(self, b):
        return b is True or id(b) in self.pcset

    def known_truth(self, b):
        if id(b) in self.pcset:
            return True
        if id(S.not_(b)) in self.pcset:
            return False
        if b.op == "ge" and self._has(S.cmp_lt(S.R_const(0), b.args[0])):
            return True
        if b.op == "gt" and self._has(S.cmp_lt(b.args[0], S.R_const(0))):
            return False
        if b.op in ("gt", "ge"):
            lo, hi = self.ival(b.args[0])
            if lo > 1e-12:
                return True
            if hi < -1e-12:
                return False
        return None

    # ------------------------------------------------------------------ intervals
    def ival(self, r):
        v = self.iv_cache.get(r.h)
        if v is not None:
            return v
        lo = hi = 0.0
        try:
            for m, c in r.t.items():
                a, b = float(c), float(c)
                for aid, e in m:
                    x, y = self.iv_atom(ATOMS[aid])
                    x, y = _ipow(x, y, e)
                    a, b = _imul(a, b, x, y)
                lo += a
                hi += b
            if lo != lo:
                lo = -INF
            if hi != hi:
                hi = INF
        except (OverflowError, ValueError, ZeroDivisionError):
            lo, hi = -INF, INF
        s = 1e-13 * max(abs(lo) if lo > -INF else 0, abs(hi) if hi < INF else 0)
        v = (lo - s, hi + s)
        if all(ATOMS[a].id in self.decls for a in S.var_atoms(r)):
            self.iv_cache[r.h] = v
        return v

    def iv_atom(self, at):
        k = at.kind
        if k == "var":
            d = self.decls.get(at.id)
            lo = float(d.lo) if d is not None and d.lo is not None else (0.0 if at.nneg else -INF)
            hi = float(d.hi) if d is not None and d.hi is not None else INF
            return lo, hi
        if k in ("const", "nroot"):
            v = float(+at.val) if k == "const" else float(at.val)
            return v, v
        if k == "P":
            return self.ival(at.args[0])
        if k == "ite":
            a, b = self.ival(at.args[1])
            c, d = self.ival(at.args[2])
            return min(a, c), max(b, d)
        if k == "fn":
            n = at.name
            if n == "idiv":
                return -INF, INF
            if n in ("kth", "kth+"):
                iv = [self.ival(a) for a in at.args[1:]]
                k = int(at.args[0].const())
                return sorted(a for a, _ in iv)[k], sorted(b for _, b in iv)[k]
            a, b = self.ival(at.args[0])
            if n in ("exp",):
                return (math.exp(min(a, 700)) if a > -INF else 0.0), (math.exp(b) if b < 700 else INF)
            if n in ("sin", "cos", "erf", "tanh"):
                if n in ("erf", "tanh"):
                    f = getattr(math, n)
                    return f(a), f(b)
                return -1.0, 1.0
            if n == "abs":
                if a >= 0:
                    return a, b
                if b <= 0:
                    return -b, -a
                return 0.0, max(-a, b)
            if n == "floor":
                return (math.floor(a) if a > -INF else a), (math.floor(b) if b < INF else b)
            if n == "ln" and a > 0:
                return math.log(a), (math.log(b) if b < INF else INF)
            if n in ("asinh", "atan"):
                f = getattr(math, n)
                return f(a), f(b)
        if at.nneg:
            return 0.0, INF
        return -INF, INF

    def int_bounds(self, r):
        lo, hi = self.ival(r)
        lo = None if lo == -INF else math.ceil(lo - 1e-9)
        hi = None if hi == INF else math.floor(hi + 1e-9)
        # tighten with the path condition on this very term
        for b in self.pc:
            if b.op in ("gt", "ge"):
                p = b.args[0]
                d = p - r
                if d.is_const():
                    # r + c > 0
                    c = d.const()
                    l = math.floor(-c) + 1 if b.op == "gt" else math.ceil(-c)
                    lo = l if lo is None else max(lo, l)
                d = p + r
                if d.is_const():
                    c = d.const()
                    h = math.ceil(c) - 1 if b.op == "gt" else math.floor(c)
                    hi = h if hi is None else min(hi, h)
            elif b.op == "eq":
                for s in (b.args[0] - r, b.args[0] + r):
                    if s.is_const():
                        c = s.const()
                        v = -c if s is b.args[0] - r else c
                        return int(v), int(v)
        return lo, hi

    # ------------------------------------------------------------------ obligations
    def variants(self, env, k, tries=60):
        """other inputs that follow the same path (solver models are full of zeros)"""
        out = []
        for _ in range(tries):
            e = {d.atom.id: env[d.atom.id] if d.atom.id in env and self.rng.random() < 0.4 else self.draw(d) for d in self.cur_vars}
            if self.env_ok(e):
                out.append(e)
                if len(out) == k:
                    break
        return out

    def cand(self, label, env, exc=None):
        more = []
        if env is None:
            env = self.best_env()
            if env is not None and not any(c[0] == label for c in self.candidates):
                more = self.variants(env, 3)
        n = sum(1 for c in self.candidates if c[0] == label)
        if env is None:
            self.unresolved.append((label, "no witness for a failing path" + (": " + exc if exc else "")))
            return
        self.vcount[label] = self.vcount.get(label, 0) + 1
        if n < 6:
            self.candidates.append((label, self.named(env), exc))
            self.candidates += [(label, self.named(e), exc) for e in more]

    def late(self):
        return time.time() > self.deadline + self.grace

    def prove_fail(self, label, exc=None):
        self.ob_total += 1
        self.cand(label, None, exc)

    def prove(self, goal, label, margin=None, depth=0):
        """goal holds on this path for all values; otherwise record a candidate"""
        self.ob_total += 1
        if not isinstance(goal, B):
            if goal:
                self.ob_normal += 1
                return True
            self.cand(label, None)
            return False
        if id(goal) in self.pcset:
            self.ob_normal += 1
            return True
        if goal.op == "and":
            self.ob_total -= 1
            ok = True
            for a in goal.args:
                ok = self.prove(a, label) and ok
            return ok
        for e in self.pool:
            if not self.sat_env(goal, e) and self.sat_env(S.not_(goal), e) and self.env_ok(e):
                self.cand(label, e)
                return False
        if self.late():
            self.unresolved.append((label, "out of time"))
            return False
        r, env = smt.check(self.pc, S.not_(goal), self.smt_ms)
        if r == "unsat":
            self.ob_solver += 1
            return True
        if r == "sat" and env is not None:
            e = self.complete(env)
            if self.env_ok(e) and not self.sat_env(goal, e):
                first = not any(c[0] == label for c in self.candidates)
                self.cand(label, e)
                if first:
                    self.candidates += [(label, self.named(v), None) for v in self.variants(e, 3) if not self.sat_env(goal, v)]
                return False
        if depth < 6 and goal.op in ("gt", "ge"):
            at = next((ATOMS[a] for m in goal.args[0].t for a, _ in m if ATOMS[a].kind == "ite"), None) or _nested_ite(goal.args[0])
            if at is not None:
                return self._split(at, lambda m: self.prove(_resubst(goal, m), label, depth=depth + 1), label)
        for _ in range(200):
            e = self.rand_env()
            if self.env_ok(e) and not self.sat_env(goal, e):
                self.cand(label, e)
                return False
        self.unresolved.append((label, f"{r}: {goal!r}"[:400]))
        return False

    def prove_zero(self, d, label, scale=1.0, tol=1e-6, depth=0):
        """d == 0 up to the rounding of floating-point constants"""
        self.ob_total += 1
        d = S.squash(d)
        if not d.t:
            self.ob_normal += 1
            return True
        if _tiny(d, scale, tol):
            self.ob_normal += 1
            return True
        if depth < 6:
            at = next((ATOMS[a] for m in d.t for a, _ in m if ATOMS[a].kind == "ite"), None)
            if at is not None:
                return self._split(at, lambda m: self.prove_zero(_resubst(d, m), label, scale, tol, depth + 1), label)
        dd = S._cancel(d)
        if any(e < 0 for m in dd.t for _, e in m):
            try:
                dd = S.clear_dens(dd)
            except Unsupported:
                dd = d
        if not dd.t or _tiny(dd, 1.0, tol):
            self.ob_normal += 1
            return True
        try:
            if S.log_zero(S.squash(dd)):
                self.ob_normal += 1
                return True
        except Unsupported:
            pass
        worst = None
        for e in self.pool:
            try:
                v = abs(S.fev(d, e, {}))
            except S.EvalError:
                continue
            if v == v and v > 1e-4 * max(1.0, scale) and self.env_ok(e):
                if worst is None or v > worst[0]:
                    worst = (v, e)
        if worst is not None:
            self.cand(label, worst[1])
            return False
        if self.late():
            self.unresolved.append((label, "out of time"))
            return False
        goal = S.cmp_eq(d, S.R_const(0))
        if goal is True:
            self.ob_normal += 1
            return True
        if isinstance(goal, B):
            r, env = smt.check(self.pc, S.not_(goal), self.smt_ms)
            if r == "unsat":
                self.ob_solver += 1
                return True
            if self.late():
                self.unresolved.append((label, "out of time"))
                return False
            halves = [S.not_(S.cmp_lt(S.R_const(0), d)), S.not_(S.cmp_lt(d, S.R_const(0)))]  # d <= 0 and d >= 0
            if all(not isinstance(h, B) and h or isinstance(h, B) and (id(h) in self.pcset or smt.check(self.pc, S.not_(h), self.smt_ms)[0] == "unsat")
                   for h in halves):
                self.ob_solver += 1
                return True
        for eps in (Fraction(1, 100), Fraction(1, 10 ** 6)):
            g = S.or_(d > eps, -d > eps)
            r, env = smt.check(self.pc, g, self.smt_ms)
            if r == "sat" and env is not None:
                e = self.complete(env)
                if self.env_ok(e) and self.sat_env(g, e):
                    self.cand(label, e)
                    return False
        if r == "unsat":
            self.ob_solver += 1
            return True
        if depth < 6:
            at = _nested_ite(d)
            if at is not None:
                return self._split(at, lambda m: self.prove_zero(_resubst(d, m), label, scale, tol, depth + 1), label)
        for _ in range(150):
            e = self.rand_env()
            if self.env_ok(e):
                try:
                    v = abs(S.fev(d, e, {}))
                except S.EvalError:
                    continue
                if v == v and v > 1e-4:
                    self.cand(label, e)
                    return False
        self.unresolved.append((label, f"{r}: {d!r} == 0"[:600]))
        return False


    def _split(self, at, prove, label):
        """case split on an if-then-else inside a term"""
        if self.late():
            self.unresolved.append((label, "out of time"))
            return False
        self.ob_total -= 1
        save = (list(self.pc), set(self.pcset), self.pckey, list(self.pool))
        ok = True
        for cond, val in ((at.args[0], at.args[1]), (S.not_(at.args[0]), at.args[2])):
            if cond is False:
                continue
            if isinstance(cond, B):
                if id(S.not_(cond)) in self.pcset:
                    continue
                if not any(self.sat_env(cond, e) for e in self.pool):
                    r, env = smt.check(self.pc, cond, self.smt_ms)
                    if r == "unsat":
                        self.ob_total += 1
                        self.ob_solver += 1
                        continue
                    if r == "sat" and env is not None:
                        e = self.complete(env)
                        if self.env_ok(e) and self.sat_env(cond, e):
                            self.pool.append(e)
                self.add_pc(cond)
            tables = S.swap_facts()
            try:
                ok = prove({at.id: S.lift(val)}) and ok
            finally:
                S.swap_facts(tables)
                self.pc, self.pcset, self.pckey, self.pool = list(save[0]), set(save[1]), save[2], list(save[3])
        return ok


def _nested_ite(x):
    """an if-then-else inside the arguments of other functions, innermost first"""
    its = [ATOMS[a] for a in S.term_atoms(x) if ATOMS[a].kind == "ite"]
    return min(its, key=lambda a: (len(S.deps(a)), a.id)) if its else None


def _resubst(x, m):
    from . import calc

    return calc.subst(x, m)


def _raw_gt(r):
    return r > 0


def _raw_ge(r):
    return r >= 0


def _tiny(d, scale, tol):
    return all(abs(c) <= tol * max(1.0, scale) * 1e-1 and abs(float(c)) < tol for c in map(float, d.t.values()))


def _imul(a, b, c, d):
    ps = []
    for x in (a, b):
        for y in (c, d):
            p = 0.0 if (x == 0 or y == 0) else x * y
            ps.append(p)
    return min(ps), max(ps)


def _ipow(lo, hi, e):
    if e == 1:
        return lo, hi
    if isinstance(e, int) and e > 0:
        if e % 2 == 0:
            if lo >= 0:
                return _p(lo, e), _p(hi, e)
            if hi <= 0:
                return _p(hi, e), _p(lo, e)
            return 0.0, max(_p(lo, e), _p(hi, e))
        return _p(lo, e), _p(hi, e)
    e = float(e)
    if lo > 0:
        a, b = _p(lo, e), _p(hi, e)
        return min(a, b), max(a, b)
    if lo >= 0:
        if e > 0:
            return _p(lo, e), _p(hi, e)
        return (_p(hi, e) if hi < INF else 0.0), INF
    if hi < 0 and e == int(e):
        a, b = _p(lo, e), _p(hi, e)
        return min(a, b), max(a, b)
    return -INF, INF


def _p(x, e):
    if x in (INF, -INF):
        if e > 0:
            return x if (e % 2 or x > 0) else INF
        return 0.0
    return x ** e


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/engine/" not in f.filename]
    loc = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in fr[-3:])
    eng = [f for f in tb if "/engine/" in f.filename]
    loc2 = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in eng[-3:])
    return f"{type(e).__name__}: {str(e)[:300]} [{loc}] [{loc2}]"
