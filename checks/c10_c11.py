"""Benchmark transforms."""
import math

import numpy as _np

from engine.harness import case

MAPS = ["normal_cdf", "half_cube", "arcsinh", "wiggly_x", "wiggly_y"]


def _map(H, name):
    if name == "normal_cdf":
        return H.mod("bmi.transforms").normal_cdf
    if name == "half_cube":
        return H.mod("bmi.transforms").half_cube
    if not isinstance(name, tuple) and name.startswith("wiggly"):
        return getattr(H.mod("bmi.benchmark.tasks.wiggly"), name)
    # the maps inside the tasks
    from checks._common import fake_sampler

    T = H.mod("bmi.benchmark.task")
    base = T.Task(sampler=fake_sampler(H, "b", 1, 1, mi=0.5), task_id="b", task_name="b", task_params={})
    if name == "arcsinh":
        t = H.mod("bmi.benchmark.tasks.asinh").transform_asinh_task(base)
    else:
        t = H.mod("bmi.benchmark.tasks.power").transform_power_task(base, alpha=name[1])
    s = t.sampler

    def f(v):
        return s.transform(H.jmat([[v]]), H.jmat([[0.0]]))[0][0][0]

    return f


def _scalar(H, v):
    return v if H.symbolic else H.jnp.float32(v)


@case("C10", quick=[dict(name=m) for m in MAPS])
def increasing(H, name):
    """two arbitrary points"""
    f = _map(H, name)
    B = None if H.symbolic else 3.5
    x, y = H.real("x", None if B is None else -B, B), H.real("y", None if B is None else -B, B)
    H.assume(x < y)
    H.lt(f(_scalar(H, x)), f(_scalar(H, y)), "strictly increasing")


@case("C10", quick=[{}], replays=10)
def increasing_fine(H):
    """the same claim close together: concrete neighbours on a fine grid (symbolically: distance below 1/100)"""
    for name in MAPS:
        f = _map(H, name)
        x = H.real("x", -4, 4)
        h = H.real("h", 0.005, 0.01)
        if name == "normal_cdf":
            H.le(f(_scalar(H, x)), f(_scalar(H, x + h)), f"increasing ({name})", tol=1e-7)
        else:
            H.lt(f(_scalar(H, x)), f(_scalar(H, x + h)), f"increasing ({name})", tol=1e-7)


@case("C10", quick=[{}])
def values(H):
    T = H.mod("bmi.transforms")
    x = H.real("x", -6, 6)
    X = _scalar(H, x)
    erf = __import__("math").erf if not H.symbolic else None
    c = T.normal_cdf(X)
    if H.symbolic:
        from engine import sym as S

        H.eq(c, (1 + S.erf_(x / S.sqrt_(S.R_const(2)))) / 2, "normal CDF, lower half" if H.truth(x < 0) else "normal CDF, upper half")
    elif x < 0:  # relative precision in the tail
        H.eq(c, (1 + erf(x / math.sqrt(2))) / 2, "normal CDF, lower half", tol=1e-3, atol=2e-7)
    else:
        H.eq(c, (1 + erf(x / math.sqrt(2))) / 2, "normal CDF, upper half", tol=3e-7, atol=0)
    if H.symbolic:
        H.lt(0.0, c, "normal CDF above 0")
        H.lt(c, 1.0, "normal CDF below 1")
    h = T.half_cube(X)
    a = x if H.truth(x >= 0) else -x
    sg = 1.0 if H.truth(x >= 0) else -1.0
    H.eq(h, sg * a * (H.np.sqrt(a)), "signed 3/2 power", scale=10)
    H.eq(h * h, a * a * a, "signed 3/2 power", scale=100)
    w = _map(H, "arcsinh")(x)
    e = H.np.exp(w)
    H.eq((e - 1 / e) / 2, x, "asinh is the inverse of sinh", tol=1e-3, scale=10)
    wm = H.mod("bmi.benchmark.tasks.wiggly")
    sn = H.np.sin
    H.eq(wm.wiggly_x(X), x + 0.4 * sn(x) + 0.2 * sn(1.7 * x + 1) + 0.03 * sn(3.3 * x - 2.5), "wiggly X map", tol=1e-3)
    H.eq(wm.wiggly_y(X), x - 0.4 * sn(0.4 * x) + 0.17 * sn(1.3 * x + 3.5) + 0.02 * sn(4.3 * x - 2.5), "wiggly Y map", tol=1e-3)


ALPHAS_Q = [1, 2, 3, "1/2", "3/2"]
ALPHAS_T = ALPHAS_Q + [4, 5, "1/3", "5/2", "2/3", "1/4", "0.75"]


@case("C10", quick=[dict(alpha=a) for a in ALPHAS_Q], thorough=[dict(alpha=a) for a in ALPHAS_T])
def power(H, alpha):
    from fractions import Fraction

    fr = Fraction(alpha)
    f = _map(H, ("power", int(fr) if fr.denominator == 1 else float(fr)))
    B = 6 if not H.symbolic else None
    lo = None if B is None else -B
    x, y = H.real("x", lo, B), H.real("y", lo, B)
    fx = f(x)
    if H.truth(x > 0):
        a, sg = x, 1
    elif H.truth(x < 0):
        a, sg = -x, -1
    else:
        a, sg = None, 0
        H.eq(fx, 0.0, "signed power at zero")
    if a is not None:
        H.true(sg * fx > 0, "sign is kept")
        if fr.denominator in (1, 2, 3, 4) and fr.numerator < 10 and Fraction(float(fr)) == fr:
            v = (sg * fx)
            p, q = v, a
            for _ in range(fr.denominator - 1):
                p = p * v
            for _ in range(fr.numerator - 1):
                q = q * a
            H.eq(p, q, "power of the modulus", tol=2e-3, scale=10)
    H.assume(x < y)
    H.lt(fx, f(y), "strictly increasing", tol=1e-5)


@case("C10", quick=[dict(m="normal_cdf"), dict(m="half_cube"), dict(m="wiggly_x"), dict(m="wiggly_y")])
def elementwise(H, m):
    """on a vector the maps act coordinate by coordinate"""
    f = _map(H, m)
    x = H.jarray("x", (3,), -4, 4)
    r = f(x)
    for i in range(3):
        H.eq(r[i], f(x[i]), "acts on every coordinate alone", tol=1e-4)


@case("C10", quick=[{}])
def power_any_exponent(H):
    """an arbitrary real exponent"""
    al = H.real("alpha", 0.05, 8)
    f = _map(H, ("power", al))
    x, y = H.real("x", -4, 4), H.real("y", -4, 4)
    H.assume(x < y)
    H.assume(x * y > 0)
    H.lt(f(x), f(y), "strictly increasing", tol=1e-5)
    H.eq(f(-x), -f(x), "odd", tol=1e-3, scale=10)


@case("C10", quick=[{}])
def swissroll(H):
    T = H.mod("bmi.transforms")
    a, b = H.real("a", 0, 1), H.real("b", 0, 1)
    p, q = T.swissroll2d(H.jvec([a])), T.swissroll2d(H.jvec([b]))
    H.true(tuple(p.shape) == (2,), "shape")
    s = 1.5 * H.np.pi * (1 + 2 * a)
    H.eq(p, H.vec([s * H.np.cos(s) / 21.0, s * H.np.sin(s) / 21.0]), "Swiss roll", tol=1e-3)
    H.eq(p[0] * p[0] + p[1] * p[1], s * s / 441.0, "radius is proportional to the parameter", tol=1e-3)
    H.assume(a < b)
    H.lt(p[0] * p[0] + p[1] * p[1], q[0] * q[0] + q[1] * q[1], "injective", tol=1e-4)


# ------------------------------------------------------------------------------------------------ C11
def _skew(H, n, rank2, tag="w"):
    """skew-symmetric generator: any for n <= 3; beyond that, any multiple of a canonical one"""
    if n <= 3:
        w = {(i, j): H.real(f"{tag}{i}{j}", -2, 2) for i in range(n) for j in range(i + 1, n)}
    else:
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        p = H.pick("plane", pairs)
        w = {p: H.real(f"{tag}", -2, 2)}
    return H.mat([[w.get((i, j), 0.0) if i < j else -w.get((j, i), 0.0) if j < i else 0.0 for j in range(n)] for i in range(n)])


def _rot(H, a, t, v):
    """exp(t a) v for a skew a of rank two, by Rodrigues' formula"""
    n = len(v)
    if n == 2:
        s, c = H.np.sin(t * a[0, 1]), H.np.cos(t * a[0, 1])
        return [c * v[0] + s * v[1], c * v[1] - s * v[0]]
    th2 = 0.0
    for i in range(n):
        for j in range(i + 1, n):
            th2 = th2 + a[i, j] * a[i, j]
    av = [sum((a[i, j] * v[j] for j in range(1, n)), a[i, 0] * v[0]) for i in range(n)]
    aav = [sum((a[i, j] * av[j] for j in range(1, n)), a[i, 0] * av[0]) for i in range(n)]
    if not H.truth(th2 > 0):
        return list(v)
    th = H.np.sqrt(th2)
    s, c = H.np.sin(t * th), H.np.cos(t * th)
    return [v[i] + s / th * av[i] + (1 - c) / th2 * aav[i] for i in range(n)]


@case("C11", quick=[dict(n=2), dict(n=3), dict(n=4), dict(n=2, far=True)], thorough=[dict(n=n, far=f) for n in (2, 3, 4, 5) for f in (False, True)])
def spiral(H, n, far=False):
    R = H.mod("bmi.transforms._rotate")
    a = _skew(H, n, True)
    sp = H.pick("direction", [1, -1]) * (H.real("speed", 0.001, 0.1) if far else H.real("speed", 0.02, 3))
    x = H.jarray("x", (n,), -8 if far else -1.5, 8 if far else 1.5)  # points far from the origin: the angle grows with |x|^2 without bound
    f = R.Spiral(a, speed=sp)
    y = f(x)
    H.true(tuple(y.shape) == (n,), "shape")
    xs = [x[i] for i in range(n)]
    r = sum((v * v for v in xs[1:]), xs[0] * xs[0])
    # generator scaled by the speed, then by |x|^2
    want = _rot(H, a, sp * r, xs)
    H.eq(y, H.vec(want), "exp(speed |x|^2 A) x", tol=2e-3, scale=8 if far else 2)
    H.eq(sum((y[i] * y[i] for i in range(1, n)), y[0] * y[0]), r, "norm preserved", tol=1e-3, scale=100 if far else 4)


@case("C11", quick=[dict(n=2, kind="array"), dict(n=3, kind="array"), dict(n=2, kind="list")], thorough=[dict(n=n, kind=k) for n in (2, 3, 4) for k in ("array", "list")])
def spiral_initial(H, n, kind):
    R = H.mod("bmi.transforms._rotate")
    a = _skew(H, n, True)
    x = H.jarray("x", (n,), -1.5, 1.5)
    m = [[H.real(f"m{i}{j}", -2, 2) for j in range(n)] for i in range(n)]
    plain = R.Spiral(a)(x)
    y = R.Spiral(a, initial=m if kind == "list" else H.mat(m))(x)
    H.eq(y, H.vec([sum((m[i][j] * plain[j] for j in range(1, n)), m[i][0] * plain[0]) for i in range(n)]), "initial matrix on the left", tol=1e-3, scale=4)
    H.eq(plain, R.Spiral(a, speed=1.0)(x), "default speed is one", tol=1e-4)
    H.eq(plain, R.Spiral(a, initial=H.mat([[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]))(x), "default initial matrix is the identity", tol=1e-4)


@case("C11", quick=[{}])
def spiral_shapes(H):
    R = H.mod("bmi.transforms._rotate")
    r, c = H.int("r", 1, 3), H.int("c", 1, 3)
    ri, ci = H.int("ri", 1, 3), H.int("ci", 1, 3)
    z = H.np.zeros if H.symbolic else _np.zeros
    rr, cc, rri, cci = (int(v) for v in (r, c, ri, ci)) if not H.symbolic else (_ci(H, r), _ci(H, c), _ci(H, ri), _ci(H, ci))
    g, init = z((rr, cc)), z((rri, cci))
    if rr != cc:
        H.raises(ValueError, lambda: R.Spiral(g), "rectangular generator rejected")
        return
    H.true(not H.fails(lambda: R.Spiral(g)), "square generator accepted")
    if (rri, cci) == (rr, cc):
        H.true(not H.fails(lambda: R.Spiral(g, initial=init)), "initial of the same shape accepted")
    else:
        H.raises(ValueError, lambda: R.Spiral(g, initial=init), "initial of another shape rejected")
    H.raises(ValueError, lambda: R.Spiral(z((rr,))), "one-dimensional generator rejected")


def _ci(H, v):
    from engine import sym as S

    return S.concretize_int(v)


@case("C11", quick=[{}])
def generators(H):
    R = H.mod("bmi.transforms._rotate")
    n, i, j = H.int("n", -1, 5), H.int("i", -2, 6), H.int("j", -2, 6)
    if H.symbolic:
        n, i, j = (_ci(H, v) for v in (n, i, j))
    if n >= 2 and 0 <= i < j < n:
        want = [[-1.0 if (a, b) == (i, j) else 1.0 if (a, b) == (j, i) else 0.0 for b in range(n)] for a in range(n)]
        H.eq(R.so_generator(n, i, j), H.mat(want), "canonical generator")
    else:
        H.raises(ValueError, lambda: R.so_generator(n, i, j), "invalid indices rejected")


@case("C11", quick=[dict(n=1), dict(n=3)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)])
def skew_symmetrize(H, n):
    R = H.mod("bmi.transforms._rotate")
    a = H.array("a", (n, n))
    keep = a.copy()
    r = R.skew_symmetrize(a)
    H.eq(r, H.mat([[(a[i, j] - a[j, i]) / 2 for j in range(n)] for i in range(n)]), "(A - A^T)/2")
    H.eq(a, keep, "argument unchanged")
    H.eq(R.so_generator(4), R.so_generator(4, 0, 1), "default plane")


@case("C11", quick=[dict(dx=3, dy=3), dict(dx=4, dy=3)], thorough=[dict(dx=a, dy=b) for a in (3, 4, 5) for b in (3, 4, 5)])
def rotate_task(H, dx, dy):
    """one orthogonal matrix for every point (inner products of any two points are kept)"""
    from checks._common import fake_sampler

    T = H.mod("bmi.benchmark.task")
    tr = H.mod("bmi.benchmark.tasks.rotate")
    base = T.Task(sampler=fake_sampler(H, "b", dx, dy, mi=0.5), task_id="b", task_name="b", task_params={})
    t = tr.transform_rotate_task(base)
    x, y = H.jarray("x", (2, dx), -2, 2), H.jarray("y", (2, dy), -2, 2)
    fx, fy = t.sampler.transform(x, y)
    for a, b, d in ((x, fx, dx), (y, fy, dy)):
        for i in range(2):
            for j in range(i + 1):
                H.eq(sum((b[i, k] * b[j, k] for k in range(1, d)), b[i, 0] * b[j, 0]), sum((a[i, k] * a[j, k] for k in range(1, d)), a[i, 0] * a[j, 0]),
                     "inner products kept", tol=1e-3, scale=8)
    # linear
    c = H.real("c", -2, 2)
    z = x[0] + c * x[1]
    zz = H.jnp.stack([z, z]) if H.symbolic else H.jnp.stack([z, z])
    gz, _ = t.sampler.transform(zz, y)
    H.eq(gz[0], fx[0] + c * fx[1], "the same linear map for all points", tol=1e-3, scale=8)
    H.eq(t.sampler.mutual_information(), 0.5, "mutual information kept")


@case("C11", quick=[dict(dx=2, dy=3), dict(dx=3, dy=3)], thorough=[dict(dx=a, dy=b) for a in (2, 3, 4) for b in (3, 4)])
def spiral_task(H, dx, dy):
    from checks._common import fake_sampler

    T = H.mod("bmi.benchmark.task")
    ts = H.mod("bmi.benchmark.tasks.spiral")
    base = T.Task(sampler=fake_sampler(H, "b", dx, dy, mi=0.5), task_id="b", task_name="b", task_params={})
    sp = H.pick("direction", [1, -1]) * H.real("speed", 0.02, 6)
    norm = H.pick("normalize", [True, False])
    t = ts.transform_spiral_task(base, speed=sp, normalize_speed=norm)
    x, y = H.jarray("x", (1, dx), -1, 1), H.jarray("y", (1, dy), -1, 1)
    fx, fy = t.sampler.transform(x, y)
    for v, f, d, (p, q) in ((x, fx, dx, (0, 1)), (y, fy, dy, (1, 2))):
        r = sum((v[0, k] * v[0, k] for k in range(1, d)), v[0, 0] * v[0, 0])
        th = (sp / d if norm else sp) * r
        c, s = H.np.cos(th), H.np.sin(th)
        want = [v[0, k] for k in range(d)]
        want[p], want[q] = c * v[0, p] - s * v[0, q], s * v[0, p] + c * v[0, q]
        H.eq(f[0], H.vec(want), "rotation by speed |x|^2 in the documented plane", tol=1e-3, scale=2)
        H.eq(sum((f[0, k] * f[0, k] for k in range(1, d)), f[0, 0] * f[0, 0]), r, "norm kept", tol=1e-3, scale=4)
