"""CCA estimator."""
import math

from engine.harness import case


def _corr(H, u, v):
    n = len(u)
    mu, mv = sum(u[1:], u[0]) / n, sum(v[1:], v[0]) / n
    a, b = [e - mu for e in u], [e - mv for e in v]
    sab = sum((p * q for p, q in zip(a[1:], b[1:])), a[0] * b[0])
    sa, sb = sum((p * p for p in a[1:]), a[0] * a[0]), sum((p * p for p in b[1:]), b[0] * b[0])
    return sab, sa, sb


def _mi(H, u, v):
    """-1/2 log(1 - r^2)"""
    sab, sa, sb = _corr(H, u, v)
    return -0.5 * H.np.log(1 - sab * sab / (sa * sb))


def _proper(H, sab, sa, sb):
    """both variances are positive and the correlation is not +-1 (replays keep a distance for the rounding)"""
    m = 0 if H.symbolic else 0.001
    H.assume(sa > m)
    H.assume(sb > m)
    H.assume(sa * sb - sab * sab > m * sa * sb)


def _distinct(H, x, y):
    """the sample correlation exists and is not +-1"""
    n = x.shape[0]
    u, v = [x[i, 0] for i in range(n)], [y[i, 0] for i in range(n)]
    sab, sa, sb = _corr(H, u, v)
    _proper(H, sab, sa, sb)
    return u, v


@case("C20", quick=[dict(n=3, scale=None), dict(n=3, scale=True), dict(n=4, scale=False)], thorough=[dict(n=6, scale=True), dict(n=6, scale=False)])
def one_dimensional(H, n, scale):
    x, y = H.array("x", (n, 1), -3, 3), H.array("y", (n, 1), -3, 3)
    u, v = _distinct(H, x, y)
    C = H.mod("bmi.estimators").CCAMutualInformationEstimator
    est = C() if scale is None else C(scale=scale)
    want = _mi(H, u, v)
    H.eq(est.estimate(x, y), want, "-1/2 log(1 - r^2)", tol=1e-6)
    H.eq(est.estimate(y, x), want, "symmetric", tol=1e-6)


@case("C20", quick=[dict(scale=None), dict(scale=False)])
def nearly_dependent(H, scale):
    """one-dimensional data with a correlation close to 1 or to -1"""
    x = [-1.5, -0.5, 0.25, 1.75]
    e = H.real("eps", 0.001, 0.05)
    sg = H.pick("sign", [1.0, -1.0])
    y = [sg * v + e * d for v, d in zip(x, (1.0, -0.5, 0.75, -1.25))]
    C = H.mod("bmi.estimators").CCAMutualInformationEstimator
    est = C() if scale is None else C(scale=scale)
    H.eq(est.estimate(H.mat([[v] for v in x]), H.mat([[v] for v in y])), _mi(H, x, y), "-1/2 log(1 - r^2)", tol=1e-5)


def _generic(H, a, scale):
    """(concrete runs only) the data are well conditioned"""
    import numpy as np

    a = np.asarray(a, float)
    return np.linalg.cond((a - a.mean(0)) / (a.std(0) + 1e-12)) < 50


@case("C20", quick=[dict(n=4, dx=2, dy=1, scale=True), dict(n=4, dx=1, dy=3, scale=False), dict(n=4, dx=2, dy=2, scale=True),
                    dict(n=4, dx=2, dy=3, scale=False), dict(n=4, dx=3, dy=2, scale=True)],
      thorough=[dict(n=n, dx=a, dy=b, scale=s) for n in (5,) for a in (1, 2, 3) for b in (1, 2, 3) if a * b > 1 for s in (True, False)])
def components(H, n, dx, dy, scale):
    N = n if H.symbolic else [dx + dy + 2, 12][int(abs(H.real("which", -1, 1)) * 1000) % 2]
    x, y = H.array("x", (N, dx), -3, 3), H.array("y", (N, dy), -3, 3)
    if not H.symbolic:
        H.assume(_generic(H, x, scale) and _generic(H, y, scale))
    k = min(dx, dy)
    sx, sy = H.mod("sklearn.cross_decomposition").CCA(n_components=k, scale=scale).fit_transform(x, y)
    H.true(sx.shape == (N, k) and sy.shape == (N, k), "as many components as the smaller dimension")
    want = 0
    for j in range(k):
        u, v = [sx[i, j] for i in range(N)], [sy[i, j] for i in range(N)]
        sab, sa, sb = _corr(H, u, v)
        _proper(H, sab, sa, sb)
        want = want + _mi(H, u, v)
    H.eq(H.mod("bmi.estimators").CCAMutualInformationEstimator(scale=scale).estimate(x, y), want, "sum over the canonical pairs", tol=1e-6)
