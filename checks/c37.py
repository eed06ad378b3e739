"""Transform tasks: documented maps of the base task's samples, derived identifiers and parameters."""
import warnings

import numpy as _np

from checks._common import fake_sampler, kid
from engine.harness import case, text_equal

TK = "bmi.benchmark.tasks."


def _base(H, dx, dy):
    T = H.mod("bmi.benchmark.task")
    fs = fake_sampler(H, "base", dx, dy, mi=H.real("mi", 0, 5))
    p = {"none": None, "own": {"alpha0": H.real("p0"), "kind": "k"}}[H.pick("base_params", ["none", "own"])]
    t = T.Task(fs, task_id="base-id", task_name="Base Name", **({} if p is None else dict(task_params=p)))
    return t, fs, dict(p or {})


def _same_text(H, a, b, label):
    H.true(text_equal(a, b) if H.symbolic else a == b, label)


def _same_dict(H, got, want, label):
    H.true(set(got) == set(want), label)
    for k, v in want.items():
        if isinstance(v, (str, bool)):
            H.true(got[k] == v, label)
        else:
            H.eq(got[k], v, label)


def _check(H, t, base, fs, keep, n, fx, fy, tid, name, own, dims=(0, 0), tol=1e-4):
    _same_text(H, t.id, tid, "the id derives from the base task's")
    _same_text(H, t.name, name, "the name derives from the base task's unless given")
    _same_dict(H, t.params, {**keep, **own}, "parameters are the base parameters plus its own")
    H.eq(t.mutual_information, fs.mi, "the base mutual information is kept")
    seed = H.seed()
    fs.calls.clear()
    x, y = t.sample(n, seed)
    H.true(all(int(c[0]) == n and c[1] == kid(H, seed) for c in fs.calls) and len(fs.calls) > 0, "the base task is sampled with the size and seed given")
    bx, by = fs.sample(n, seed)
    H.true(t.dim_x == fs.dim_x + dims[0] and t.dim_y == fs.dim_y + dims[1], "the dimensions of its samples")
    H.true(tuple(x.shape) == (n, t.dim_x) and tuple(y.shape) == (n, t.dim_y), "the dimensions of its samples")
    H.eq(x, fx(bx), "its documented map of X", tol=tol)
    H.eq(y, fy(by), "its documented map of Y", tol=tol)
    # the base task is as it was
    H.true(base.id == "base-id" and base.name == "Base Name" and base.sampler is fs, "the base task is not modified")
    _same_dict(H, base.params, keep, "the base task is not modified")
    H.true(base.dim_x == fs.dim_x and base.dim_y == fs.dim_y, "the base task is not modified")


def _name(H, default):
    n = H.pick("task_name", [None, "Own name"])
    return (default, {}) if n is None else (n, dict(task_name=n))


def _each(H, f):
    """apply a scalar map to every coordinate"""
    def g(a):
        return H.jnp.asarray([[f(a[i, j]) for j in range(a.shape[1])] for i in range(a.shape[0])])

    return g


SH = [dict(n=1, dx=1, dy=1), dict(n=2, dx=1, dy=3), dict(n=3, dx=2, dy=1)]
SH_T = [dict(n=4, dx=3, dy=2), dict(n=1, dx=5, dy=5)]


def _pointwise(which, shapes):
    return [dict(c, which=w) for w in which for c in shapes]


@case("C37", quick=_pointwise(["normal_cdf", "half_cube", "asinh", "wiggly"], SH), thorough=_pointwise(["normal_cdf", "half_cube", "asinh", "wiggly"], SH_T), replays=4)
def pointwise(H, which, n, dx, dy):
    base, fs, keep = _base(H, dx, dy)
    tr = H.mod("bmi.transforms")
    nice = {"normal_cdf": "Normal CDF", "half_cube": "Half-cube", "asinh": "Asinh", "wiggly": "Wiggly"}[which]
    name, kw = _name(H, f"{nice} @ Base Name")
    t = getattr(H.mod(TK + which), f"transform_{which}_task")(base, **kw)
    sin = H.np.sin
    fx, fy = {
        "normal_cdf": (tr.normal_cdf, tr.normal_cdf),
        "half_cube": (tr.half_cube, tr.half_cube),
        "asinh": (H.np.arcsinh, H.np.arcsinh),
        "wiggly": (lambda v: v + 0.4 * sin(v) + 0.2 * sin(1.7 * v + 1) + 0.03 * sin(3.3 * v - 2.5),
                   lambda v: v - 0.4 * sin(0.4 * v) + 0.17 * sin(1.3 * v + 3.5) + 0.02 * sin(4.3 * v - 2.5)),
    }[which]
    _check(H, t, base, fs, keep, n, _each(H, fx), _each(H, fy), f"{which}-base-id", name, {})


@case("C37", quick=[dict(c, alpha=a) for c, a in zip(SH, (2, 0.5, 3))] + [dict(n=1, dx=1, dy=2, alpha=None)], thorough=[dict(n=3, dx=2, dy=2, alpha=a) for a in (None, 1.5, 4)], replays=4)
def power(H, n, dx, dy, alpha):
    """sign(v) |v|^alpha"""
    base, fs, keep = _base(H, dx, dy)
    a = H.real("alpha", 0.1, 4) if alpha is None else alpha
    name, kw = _name(H, f"Power {a if alpha is None else float(a):.2f} @ Base Name")
    t = H.mod(TK + "power").transform_power_task(base, a, **kw)
    np_ = H.np

    def f(v):
        return np_.sign(v) * np_.power(abs(v), a)

    _check(H, t, base, fs, keep, n, _each(H, f), _each(H, f), f"power_{a if alpha is None else float(a):.5f}-base-id", name, dict(alpha=a), tol=1e-3)


@case("C37", quick=[dict(n=2, dx=2, dy=3), dict(n=1, dx=3, dy=4)], thorough=[dict(n=2, dx=4, dy=5), dict(n=3, dx=2, dy=4)], replays=5)
def spiral(H, n, dx, dy):
    """x -> exp(speed |x|^2 G) x in the plane of the first two X (second and third Y) coordinates"""
    base, fs, keep = _base(H, dx, dy)
    name, kw = _name(H, "Spiral @ Base Name")
    v = 1.0
    if H.pick("give_speed", [True, False]):
        kw["speed"] = v = H.real("speed", -2, 2)
    norm = H.pick("normalize", ["default", True, False])
    if norm != "default":
        kw["normalize_speed"] = norm
    norm = norm is not False
    t = H.mod(TK + "spiral").transform_spiral_task(base, **kw)
    Spiral = H.mod("bmi.transforms").Spiral

    def plane(i, j, d):
        g = [[0.0] * d for _ in range(d)]
        g[i][j], g[j][i] = -1.0, 1.0
        f = Spiral(H.np.asarray(g), speed=v / d if norm else v)
        return lambda a: H.jnp.stack([f(a[q]) for q in range(n)])

    _check(H, t, base, fs, keep, n, plane(0, 1, dx), plane(1, 2, dy), "spiral-base-id", name, dict(speed=v, normalize_speed=norm), tol=1e-3)


@case("C37", quick=[{}], replays=4)
def too_small(H):
    """spiral and rotation need enough dimensions; the Swiss roll a one-dimensional X"""
    base, fs, _ = _base(H, H.pick("dx", [1, 2, 3]), H.pick("dy", [1, 2, 3]))
    dx, dy = fs.dim_x, fs.dim_y
    sp = lambda: H.mod(TK + "spiral").transform_spiral_task(base)
    ro = lambda: H.mod(TK + "rotate").transform_rotate_task(base)
    sw = lambda: H.mod(TK + "embeddings").transform_swissroll_task(base, task_name="n")
    for ok, f in ((dx > 1 and dy > 2, sp), (dx > 2 and dy > 2, ro), (dx == 1, sw)):
        if ok:
            f()
        else:
            H.raises(AssertionError, f, "base tasks of unsuitable dimension are rejected")


@case("C37", quick=[dict(n=2, dx=3, dy=3), dict(n=1, dx=4, dy=3)], thorough=[dict(n=2, dx=5, dy=4)], replays=4)
def rotate(H, n, dx, dy):
    base, fs, keep = _base(H, dx, dy)
    name, kw = _name(H, "Rotate @ Base Name")
    t = H.mod(TK + "rotate").transform_rotate_task(base, **kw)

    def gen(d, *terms):
        g = [[0.0] * d for _ in range(d)]
        for c, i, j in terms:
            g[i][j] -= c
            g[j][i] += c
        from scipy.linalg import expm

        return expm(_np.array(g))

    RX, RY = gen(dx, (2, 0, 1), (-1, 1, 2), (-1, 0, 2)), gen(dy, (1, 0, 1), (2, 1, 2))
    x, y = t.sample(n, H.seed())
    _same_text(H, t.id, "rotate-base-id", "the id derives from the base task's")
    H.true(t.name == name, "the name derives from the base task's unless given")
    _same_dict(H, t.params, keep, "parameters are the base parameters plus its own")
    H.eq(t.mutual_information, fs.mi, "the base mutual information is kept")
    bx, by = list(fs.memo.values())[0]
    H.true(len(fs.memo) == 1 and tuple(x.shape) == (n, dx) and tuple(y.shape) == (n, dy) and t.dim_x == dx and t.dim_y == dy, "the dimensions of its samples")
    for a, b, R, d in ((x, bx, RX, dx), (y, by, RY, dy)):
        for q in range(n):
            for k in range(d):
                H.assume(b[q, k] * b[q, k] <= 25)
            for k in range(d):
                s = 0
                for l in range(d):
                    s = s + b[q, l] * float(R[l, k])
                e = a[q, k] - s
                H.le(e, 1e-4, "rotated by the fixed rotation", tol=1e-4)
                H.le(-1e-4, e, "rotated by the fixed rotation", tol=1e-4)


@case("C37", quick=[dict(n=2, dx=1, dy=2), dict(n=3, dx=2, dy=1)], thorough=[dict(n=4, dx=1, dy=1), dict(n=5, dx=1, dy=1)], replays=5)
def rescale(H, n, dx, dy):
    """every coordinate to mean 0 and (population) variance 1"""
    base, fs, keep = _base(H, dx, dy)
    name, kw = _name(H, "Rescale @ Base Name")
    tid = H.pick("task_id", [None, "own-id"])
    if tid:
        kw["task_id"] = tid
    t = H.mod(TK + "scaling").transform_rescale(base, **kw)
    sqrt = H.np.sqrt
    ok = []

    def f(a):
        a = a if H.symbolic else _np.asarray(a, dtype=float)
        cols = []
        for j in range(a.shape[1]):
            c = [a[i, j] for i in range(n)]
            m = sum(c[1:], c[0]) / n
            d = [v - m for v in c]
            var = sum((v * v for v in d[1:]), d[0] * d[0]) / n
            H.assume(var > 0.01)
            s = sqrt(var)
            cols.append([v / s for v in d])
        return H.np.asarray([[cols[j][i] for j in range(a.shape[1])] for i in range(n)])

    _check(H, t, base, fs, keep, n, f, f, tid or "rescale-base-id", name, {})


class Quantile:
    """stands in for scikit-learn's quantile transformation: an arbitrary function of its input and settings"""

    def __init__(self, H):
        self.H, self.memo = H, {}
        H.stub("sklearn.preprocessing.quantile_transform", self)

    def __call__(self, X, *, axis=0, n_quantiles=1000, output_distribution="uniform", ignore_implicit_zeros=False, subsample=10_000, random_state=None, copy=True):
        H = self.H
        X = H.np.asarray(X)
        from engine.sarr import lift

        key = (axis, lift(n_quantiles).h, output_distribution, ignore_implicit_zeros, random_state if random_state is None else lift(random_state).h, tuple(lift(v).h for v in X.ravel()), X.shape)
        if key not in self.memo:
            self.memo[key] = H.array(f"q{len(self.memo)}", X.shape, -5, 5)
        return self.memo[key]


@case("C37", quick=[dict(which=w, n=n, dx=dx, dy=dy) for w in ("uniformise", "gaussianise") for n, dx, dy in ((2, 1, 2), (3, 2, 1))],
      thorough=[dict(which=w, n=5, dx=3, dy=3) for w in ("uniformise", "gaussianise")], replays=5)
def quantiles(H, which, n, dx, dy):
    if H.symbolic:
        qt = Quantile(H)
    else:
        from sklearn.preprocessing import quantile_transform as qt
    base, fs, keep = _base(H, dx, dy)
    nice = {"uniformise": "Uniformise", "gaussianise": "Gaussianise"}[which]
    name, kw = _name(H, f"{nice} @ Base Name")
    nq, rs = 100, 0
    if H.pick("give_n", [True, False]):
        kw["n_quantiles"] = nq = H.int("n_quantiles", 2, 5)
    if H.pick("give_seed", [True, False]):
        kw["random_seed"] = rs = H.int("random_seed", 0, 99)
    t = getattr(H.mod(TK + "scaling"), f"transform_{which}")(base, **kw)

    def f(a):
        return qt(a if H.symbolic else _np.asarray(a), output_distribution="uniform" if which == "uniformise" else "normal", random_state=rs, n_quantiles=nq)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _check(H, t, base, fs, keep, n, f, f, f"{which}-base-id", name, dict(n_quantiles=nq))


@case("C37", quick=[dict(n=1, dy=1), dict(n=3, dy=2)], thorough=[dict(n=5, dy=4)], replays=5)
def swissroll(H, n, dy):
    """X in [0, 1] becomes a point of the planar roll"""
    base, fs, keep = _base(H, 1, dy)
    t = H.mod(TK + "embeddings").transform_swissroll_task(base, task_name="Roll")
    f = H.mod("bmi.transforms").swissroll2d

    def fx(a):
        rows = []
        for q in range(n):
            v = f(a[q])
            rows.append([v[0], v[1]])
        return H.jmat(rows)

    _check(H, t, base, fs, keep, n, fx, lambda a: a, "swissroll_x-base-id", "Roll", {}, dims=(1, 0))
    H.raises(TypeError, lambda: H.mod(TK + "embeddings").transform_swissroll_task(base), "the name has to be given")
