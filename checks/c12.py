"""Inversion of strictly increasing functions by bisection."""
import numpy as _np

from engine.harness import case


class Mono:
    """an arbitrary strictly increasing function (concretely: a cubic with random increasing coefficients)"""

    def __init__(self, H, lo=None, hi=None):
        self.H = H
        self.seen = []
        self.lo, self.hi = lo, hi
        if not H.symbolic:
            self.a, self.b, self.c = H.real("f.a", 0.2, 3), H.real("f.b", 0, 1), H.real("f.c", -1, 1)

    def __call__(self, x):
        H = self.H
        if not H.symbolic:
            return self.a * x + self.b * x * x * x + self.c
        from engine import sarr as A
        from engine import sym as S

        if hasattr(x, "shape") and x.shape != ():
            return A.emap(self, x)
        x = S.lift(A.un0(A.asarr(x)))
        for x2, v2 in self.seen:
            if not (x - x2).t:
                return v2
        v = H.real(f"f#{len(self.seen)}", self.lo, self.hi, lo_open=self.lo is not None, hi_open=self.hi is not None)
        for x2, v2 in self.seen:
            H.assume(S.iff(x < x2, v < v2))
            H.assume(S.iff(S.cmp_eq(x, x2), S.cmp_eq(v, v2)))
        self.seen.append((x, v))
        return v


def _clip(H, t, lo, hi):
    if H.truth(t < lo):
        return lo
    if H.truth(t > hi):
        return hi
    return t


@case("C12", quick=[dict(k=2), dict(k=4)], thorough=[dict(k=k) for k in (1, 2, 3, 4, 5, 6, 7)], budget=90)
def accuracy(H, k):
    """an arbitrary interval, an arbitrary preimage (inside or outside), delta down to the interval over 2^k"""
    M = H.mod("bmi.transforms")
    lo = H.real("x_min", -3, 3)
    w = H.real("width", 0.5, 4)
    r = H.real("ratio", 2.0 ** -k, 2)
    delta = w * r
    t = H.real("t", -8, 8)
    f = Mono(H)
    y = f(t)
    g = M.invert_cdf(f, x_min=lo, x_max=lo + w, delta=delta)
    x = g(y)
    want = _clip(H, t, lo, lo + w)
    H.le(x - want, delta, "within delta of the preimage", tol=1e-5)
    H.le(want - x, delta, "within delta of the preimage", tol=1e-5)
    H.le(lo, x, "inside the interval", tol=1e-5)
    H.le(x, lo + w, "inside the interval", tol=1e-5)


@case("C12", quick=[dict(end="low"), dict(end="high")])
def outside_image(H, end):
    """values the function never takes"""
    M = H.mod("bmi.transforms")
    lo = H.real("x_min", -3, 3)
    w = H.real("width", 0.5, 4)
    r = H.real("ratio", 0.1, 1)
    delta = w * r
    f = Mono(H, lo=0, hi=1)
    y = H.real("y", 300, 400) if end == "high" else H.real("y", -400, -300)
    x = M.invert_cdf(f, x_min=lo, x_max=lo + w, delta=delta)(y)
    end = lo + w if end == "high" else lo
    H.le(x - end, delta, "nearest end up to delta", tol=1e-5)
    H.le(end - x, delta, "nearest end up to delta", tol=1e-5)


@case("C12", quick=[dict(k=2)], thorough=[dict(k=2), dict(k=3), dict(k=4)], budget=90)
def monotone(H, k):
    M = H.mod("bmi.transforms")
    lo = H.real("x_min", -3, 3)
    w = H.real("width", 0.5, 4)
    delta = w * H.real("ratio", 2.0 ** -k, 1)
    f = Mono(H)
    a, b = H.real("s", -8, 8), H.real("t", -8, 8)
    H.assume(a < b)
    g = M.invert_cdf(f, x_min=lo, x_max=lo + w, delta=delta)
    ya, yb = f(a), f(b)
    xa, xb = g(ya), g(yb)
    H.le(xa, xb, "non-decreasing", tol=1e-5)
    arr = g(H.jvec([yb, ya]))
    H.true(tuple(arr.shape) == (2,), "shape")
    H.eq(arr[0], xb, "acts elementwise on arrays", tol=1e-5)
    H.eq(arr[1], xa, "acts elementwise on arrays", tol=1e-5)


@case("C12", quick=[dict(shape=(2, 2)), dict(shape=(1,)), dict(shape=())])
def shapes(H, shape):
    M = H.mod("bmi.transforms")
    f = Mono(H)
    ts = H.array("t", shape if shape else (1,), -2, 2)
    ys = [f(v) for v in ts.ravel()]
    g = M.invert_cdf(f, x_min=-1.0, x_max=1.0, delta=1.0)
    arr = H.jvec(ys) if shape else ys[0]
    if shape == (2, 2):
        arr = H.jnp.reshape(arr, (2, 2))
    out = g(arr)
    H.true(tuple(H.np.shape(out)) == shape, "shape")
    flat = list(out.ravel()) if shape else [out]
    for o, y in zip(flat, ys):
        H.eq(o, g(y), "acts elementwise on arrays", tol=1e-5)


@case("C12", quick=[{}])
def induction(H):
    """any delta: the loop's invariant (lower end <= preimage <= upper end, width halved at each step) is inductive"""
    M = H.mod("bmi.transforms")
    lo = H.real("x_min", -3, 3)
    w = H.real("width", 0.5, 4)
    delta = H.real("delta", 0, 1, lo_open=True)
    inside = H.pick("where", ["inside", "below", "above"])
    t = H.real("t", -8, 8)
    hi = lo + w
    H.assume(((t >= lo) & (t <= hi)) if inside == "inside" else (t < lo) if inside == "below" else (t > hi))
    f = Mono(H)
    y = f(t)
    if H.symbolic:
        from engine import overrides as O

        def inv(s):
            x0, x1 = s
            c = (lo <= x0) & (x0 < x1) & (x1 <= hi)
            if inside == "inside":
                return c & (x0 <= t) & (t <= x1)
            return c & ((x0 == lo) if inside == "below" else (x1 == hi))

        def loop(cond, body, init):
            st = tuple(H_lift(v) for v in init)
            if len(st) != 2:
                return O.while_loop(cond, body, init)
            H.true(inv(st), "invariant holds at the start")
            p = (H.real("x0"), H.real("x1"))
            H.assume(inv(p))
            c = cond(p)
            if H.truth(c):
                q = tuple(H_lift(v) for v in body(p))
                H.true(inv(q), "invariant is kept by a step")
                H.eq(q[1] - q[0], (p[1] - p[0]) / 2, "a step halves the interval")
                from engine.explore import PathAbort

                raise PathAbort()
            return p

        def H_lift(v):
            from engine import sarr as A
            from engine import sym as S

            return S.lift(A.un0(A.asarr(v)))

        H.stub("jax.lax.while_loop", loop)
    x = M.invert_cdf(f, x_min=lo, x_max=hi, delta=delta)(y)
    want = t if inside == "inside" else lo if inside == "below" else hi
    H.le(x - want, delta, "within delta of the preimage", tol=1e-5)
    H.le(want - x, delta, "within delta of the preimage", tol=1e-5)


@case("C12", quick=[{}], replays=12)
def bimodal_maps(H):
    """the bimodal task: quantile maps of the documented mixtures (inverting the mixture CDF gives the point back)"""
    T = H.mod("bmi.benchmark.tasks.bimodal_gaussians")
    tr = H.mod("bmi.transforms")
    got = []
    if H.symbolic:
        def fake(cdf, *a, **k):
            got.append((cdf, a, k))
            return lambda v: v

        H.stub("bmi.transforms.invert_cdf", fake)
        T.__dict__["invert_cdf"] = fake
        T.task_bimodal_gaussians(gaussian_correlation=0.5)
        H.true(len(got) == 2, "two maps")
        x = H.real("x", -1.5, 6.5)
        nc = tr.normal_cdf
        want = [0.3 * nc(x) + 0.7 * nc(x - 5), 0.5 * nc(x + 1) + 0.5 * nc(x - 3)]
        # x map then y map, in either order of construction
        for cdf, w in zip(got, want):
            H.eq(cdf[0](x), w, "mixture CDF")
    else:
        t = T.task_bimodal_gaussians(gaussian_correlation=0.5)
        from math import erf, sqrt

        x = H.real("x", -1.5, 6.5)
        nc = lambda v: (1 + erf(v / sqrt(2))) / 2  # noqa
        u, v = 0.3 * nc(x) + 0.7 * nc(x - 5), 0.5 * nc(x + 1) + 0.5 * nc(x - 3)
        a, b = t.sampler.transform(H.jmat([[u]]), H.jmat([[v]]))
        H.eq(0.3 * nc(float(a[0, 0])) + 0.7 * nc(float(a[0, 0]) - 5), u, "mixture CDF", tol=1e-3)
        H.eq(0.5 * nc(float(b[0, 0]) + 1) + 0.5 * nc(float(b[0, 0]) - 3), v, "mixture CDF", tol=1e-3)
