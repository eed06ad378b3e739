"""KSG estimators."""
import math

import numpy as _np

from engine.harness import case

FAST, SLOW = "KSGEnsembleFirstEstimator", "KSGEnsembleFirstEstimatorSlow"


def _psi(n):
    """digamma at a positive integer (exact: a rational minus Euler's constant)"""
    from fractions import Fraction

    return sum((Fraction(1, i) for i in range(1, n)), Fraction(0))


def _metric(H, name, u, v):
    d = [a - b for a, b in zip(u, v)]
    ab = [abs(e) for e in d]
    if len(d) == 1:
        return ab[0]
    if name == "manhattan":
        return sum(ab[1:], ab[0])
    if name == "chebyshev":
        m = ab[0]
        for e in ab[1:]:
            m = H.np.maximum(m, e)
        return m
    return H.np.sqrt(sum((e * e for e in d[1:]), d[0] * d[0]))


def _rows(a):
    return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


def _dist(H, a, metric):
    r = _rows(a)
    n = len(r)
    d = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j:
                d[i][j] = _metric(H, metric, r[i], r[j])
    return d


def _kth(H, k, vals):
    if H.symbolic:
        from engine import sym as S

        return S.kth(k, vals)
    return sorted(vals)[k]


def _psi_count(H, bs):
    """digamma(1 + number of true conditions)"""
    if not H.symbolic:
        return float(_psi(1 + sum(bool(b) for b in bs)))
    from engine import sym as S

    return S.digamma_(sum((S.lift(int(b)) if isinstance(b, (bool, _np.bool_)) else S.ite(b, S.R_const(1), S.R_const(0)) for b in bs), S.R_const(1))) + S.EULER()


def _eq8(H, dx, dy, k):
    """equation (8) from the definition (Euler's constants cancel: -g -g +g +g)"""
    n = len(dx)
    tot = 0
    for i in range(n):
        others = [j for j in range(n) if j != i]
        dz = [H.np.maximum(dx[i][j], dy[i][j]) for j in others]
        r = _kth(H, k - 1, dz)
        tot = tot + _psi_count(H, [dx[i][j] < r for j in others]) + _psi_count(H, [dy[i][j] < r for j in others])
    v = _psi(k) + _psi(n) - tot / n
    if H.symbolic:
        from engine import sym as S

        return S.max_(S.R_const(0), v)
    return max(0.0, float(v))


def _dyadic(arrays):
    """floating-point sums, differences and products of these values are exact"""
    return all(float(v) * 256 == round(float(v) * 256) for a in arrays for v in _np.asarray(a, dtype=float).ravel())


def _clear(H, dx, dy, given=None):
    """no two compared distances are closer than the rounding of the floating-point distances; equal ones only if computed exactly (in symbolic runs: no condition but distinct points)"""
    n = len(dx)
    for i in range(n):
        for j in range(n):
            if i < j:
                H.assume((dx[i][j] > 1e-6) | (dy[i][j] > 1e-6))
    if not H.symbolic:
        exact = given is not None and _dyadic(given)
        for i in range(n):
            v = sorted([dx[i][j] for j in range(n) if j != i] + [dy[i][j] for j in range(n) if j != i])
            for a, b in zip(v, v[1:]):
                H.assume(b - a > 1e-5 * max(1.0, b) or b == a and (exact or b == 0))


def _make(H, cls, ks, std, mx, my, chunk):
    K = H.mod("bmi.estimators.ksg")
    kw = dict(neighborhoods=ks, standardize=std, metric_x=mx, metric_y=my)
    if cls == FAST:
        kw["chunk_size"] = chunk
    return getattr(K, cls)(**kw)


def _scaled(H, a):
    """mean 0, variance 1 (constant coordinates to 0)"""
    n, d = a.shape
    cols = []
    for j in range(d):
        m = sum((a[i, j] for i in range(1, n)), a[0, j]) / n
        c = [a[i, j] - m for i in range(n)]
        v = sum((e * e for e in c[1:]), c[0] * c[0]) / n
        s = H.np.sqrt(v) if H.truth(v > 0) else 1.0
        cols.append([e / s for e in c])
    return H.mat([[cols[j][i] for j in range(d)] for i in range(n)])


E = "euclidean"
EST_Q = [dict(n=3, dx=1, dy=1, ks=(1,), mx=E, my=None, std=False, chunk=1),
         dict(n=3, dx=1, dy=1, ks=(2, 1), mx="manhattan", my="chebyshev", std=False, chunk=2),
         dict(n=4, dx=1, dy=1, ks=(2, 3, 2), mx=E, my=None, std=False, chunk=3),
         dict(n=3, dx=2, dy=1, ks=(1,), mx=E, my="manhattan", std=False, chunk=2),
         dict(n=3, dx=1, dy=2, ks=(2,), mx="chebyshev", my=None, std=False, chunk=5),
         dict(n=5, dx=1, dy=1, ks=(1, 4), mx=E, my=None, std=False, chunk=2),
         dict(n=3, dx=1, dy=1, ks=(1,), mx=E, my=None, std=True, chunk=2),
         ]
EST_T = [dict(n=6, dx=1, dy=1, ks=(2, 5), mx=E, my=None, std=False, chunk=4),
         dict(n=7, dx=1, dy=1, ks=(3,), mx=E, my=None, std=False, chunk=3),
         dict(n=4, dx=2, dy=2, ks=(1, 3), mx="manhattan", my=E, std=False, chunk=3),
         dict(n=4, dx=2, dy=2, ks=(2,), mx=E, my="chebyshev", std=False, chunk=10),
         dict(n=4, dx=1, dy=2, ks=(1, 2), mx=E, my=None, std=True, chunk=3)]


@case("C16", quick=EST_Q, thorough=EST_T, kth=True)
def equation8(H, n, dx, dy, ks, mx, my, std, chunk):
    x, y = H.array("x", (n, dx), -4, 4), H.array("y", (n, dy), -4, 4)
    a, b = (_scaled(H, x), _scaled(H, y)) if std else (x, y)
    Dx, Dy = _dist(H, a, mx), _dist(H, b, my or mx)
    _clear(H, Dx, Dy, None if std else (x, y))
    f = _make(H, FAST, ks, std, mx, my, chunk)
    s = _make(H, SLOW, ks, std, mx, my, chunk)
    m0 = max(ks) + 2  # an estimator object may have seen another sample before
    other = [H.mat([[((5 * i * i + 3 * i) % 17) + i / 8 + j for j in range(d)] for i in range(m0)]) for d in (dx, dy)]
    f.fit(*other)
    s.fit(*other)
    v = f.estimate(x, y)
    w = s.estimate(x, y)
    want = {k: _eq8(H, Dx, Dy, k) for k in ks}
    p, q = f.get_predictions(), s.get_predictions()
    H.true(set(p) == set(ks) and set(q) == set(ks), "one value per neighbourhood")
    for k in ks:
        H.eq(p[k], want[k], "fast: equation (8)", tol=1e-6)
        H.eq(q[k], want[k], "slow: equation (8)", tol=1e-6)
        H.true(p[k] >= 0, "non-negative")
    m = sum(want.values()) / len(want)
    H.eq(v, m, "fast: mean over the neighbourhoods", tol=1e-6)
    H.eq(w, m, "slow: mean over the neighbourhoods", tol=1e-6)
    if H.symbolic:
        return
    r = f.estimate(x, y)
    H.eq(r, v, "a second fit gives the same", tol=1e-9)


@case("C16", quick=[dict(n=11, ks=tuple(range(1, 11)), chunk=4), dict(n=10, ks=(9, 3), chunk=100)], thorough=[dict(n=16, ks=tuple(range(1, 16)), chunk=5), dict(n=14, ks=(13, 2, 7), chunk=3)], kth=True, budget=90)
def larger_sample(H, n, ks, chunk):
    """one coordinate of one point is arbitrary, the rest of the (larger) sample is fixed; many neighbourhoods"""
    t = H.real("t", -40, 40)
    xs = [[float((7 * i * i + 3 * i) % 53) + 0.125 * i] for i in range(n)]
    ys = [[float((11 * i * i + 5 * i) % 47) + 0.0625 * i * i] for i in range(n)]
    xs[n // 2] = [t]
    x, y = H.mat(xs), H.mat(ys)
    Dx, Dy = _dist(H, x, "euclidean"), _dist(H, y, "euclidean")
    _clear(H, Dx, Dy, (x, y))
    f = _make(H, FAST, ks, False, "euclidean", None, chunk)
    f.fit(x, y)
    p = f.get_predictions()
    for k in ks:
        H.eq(p[k], _eq8(H, Dx, Dy, k), "fast: equation (8)", tol=1e-6)


@case("C16", quick=[dict(n=4, k=2)], thorough=[dict(n=6, k=3)], kth=True)
def chunk_size(H, n, k):
    """every chunk size gives the same estimate"""
    x, y = H.array("x", (n, 1), -4, 4), H.array("y", (n, 1), -4, 4)
    _clear(H, _dist(H, x, E), _dist(H, y, E), (x, y))
    ref = _make(H, FAST, (k,), False, E, None, n).estimate(x, y)
    c = H.pick("chunk", range(1, n + 2))
    H.eq(_make(H, FAST, (k,), False, E, None, c).estimate(x, y), ref, "chunk size does not matter", tol=1e-6)


@case("C16", quick=[dict(cls=FAST), dict(cls=SLOW)], kth=True)
def validation(H, cls):
    ks = H.pick("ks", [(), (0,), (-1,), (2, 0), (-3, 1), (1,), (2,), (3,), (1, 3), (4,), (2, 4, 1)])
    bad = len(ks) == 0 or min(ks) < 1
    if bad:
        H.raises(ValueError, lambda: _make(H, cls, ks, False, E, None, 2), "bad neighbourhoods are rejected")
        return
    est = _make(H, cls, ks, False, E, None, 2)
    n = H.pick("n", [2, 3, 4])
    x, y = H.array("x", (n, 1), -4, 4), H.array("y", (n, 1), -4, 4)
    _clear(H, _dist(H, x, E), _dist(H, y, E), (x, y))
    if n <= max(ks):
        H.raises(ValueError, lambda: est.estimate(x, y), "too few points are rejected")
    else:
        H.true(est.estimate(x, y) >= 0, "enough points are accepted")


SYM_Q = [dict(n=3, dx=1, dy=1, k=1, mx=E, my=None), dict(n=4, dx=1, dy=1, k=2, mx=E, my=None), dict(n=3, dx=2, dy=1, k=1, mx="manhattan", my="chebyshev")]
SYM_T = [dict(n=6, dx=1, dy=1, k=3, mx=E, my=None), dict(n=4, dx=2, dy=2, k=2, mx=E, my="chebyshev")]


@case("C17", quick=[dict(p, what=w) for p in SYM_Q for w in ("permute", "shift", "scale", "swap")],
      thorough=[dict(p, what=w) for p in SYM_T for w in ("permute", "shift", "scale", "swap")], kth=True)
def invariance(H, n, dx, dy, k, mx, my, what):
    x, y = H.array("x", (n, dx), -4, 4), H.array("y", (n, dy), -4, 4)
    nx, ny = my or mx, mx
    moved = ()
    if what == "permute":
        p = H.perm("p", n) if n <= 3 else H.pick("p", [list(range(n))[::-1], list(range(1, n)) + [0], [1, 0] + list(range(2, n))])
        x2, y2 = H.mat([[x[i, j] for j in range(dx)] for i in p]), H.mat([[y[i, j] for j in range(dy)] for i in p])
    elif what == "shift":
        a, b = H.array("a", dx, -3, 3), H.array("b", dy, -3, 3)
        x2, y2 = x + a[None, :], y + b[None, :]
        moved = (a, b)
    elif what == "scale":
        c = H.real("c", 0.05, 20)
        x2, y2 = x * c, y * c
        moved = ([c],)
    _clear(H, _dist(H, x, mx), _dist(H, y, my or mx), (x, y, *moved))
    for cls in (FAST, SLOW):
        v = _make(H, cls, (k,), False, mx, my, 2).estimate(x, y)
        H.true(v >= 0, "non-negative")
        if what == "swap":
            w = _make(H, cls, (k,), False, nx, ny, 2).estimate(y, x)
        else:
            w = _make(H, cls, (k,), False, mx, my, 2).estimate(x2, y2)
        H.eq(w, v, f"{what}: same estimate ({'fast' if cls == FAST else 'slow'})", tol=1e-6)


@case("C17", quick=[dict(n=3, k=1)], thorough=[dict(n=4, k=2)], kth=True)
def standardised_rescale(H, n, k):
    x, y = H.array("x", (n, 1), -4, 4), H.array("y", (n, 1), -4, 4)
    for col in (x, y):  # (constant coordinates: see equation8 with std=True)
        m = sum(col[i, 0] for i in range(n)) / n
        H.assume(sum((col[i, 0] - m) * (col[i, 0] - m) for i in range(n)) / n > 0.01)
    a, b, c, d = H.real("a", 0.05, 20), H.real("b", -5, 5), H.real("c", 0.05, 20), H.real("d", -5, 5)
    _clear(H, _dist(H, _scaled(H, x), E), _dist(H, _scaled(H, y), E))
    for cls in (FAST, SLOW):
        v = _make(H, cls, (k,), True, E, None, 2).estimate(x, y)
        w = _make(H, cls, (k,), True, E, None, 2).estimate(a * x + b, c * y + d)
        H.true(v >= 0, "non-negative")
        H.eq(w, v, f"rescaling is absorbed ({'fast' if cls == FAST else 'slow'})", tol=1e-6)
