"""Histogram estimator."""
import itertools
import math

import numpy as _np

from engine.harness import case


def _mod(H):
    return H.mod("bmi.estimators").HistogramEstimator


def _points(H, n, dx, dy):
    """an arbitrary sample; which points are extreme in each coordinate is chosen first (every sample has such points)"""
    x, y = H.array("x", (n, dx), -4, 4), H.array("y", (n, dy), -4, 4)
    lohi = []
    for nm, a, d in (("x", x, dx), ("y", y, dy)):
        for j in range(d):
            lo = H.pick(f"lo{nm}{j}", range(n))  # the first minimum and the first maximum
            hi = H.pick(f"hi{nm}{j}", [i for i in range(n) if i != lo] + ([0] if lo == 0 else []))
            for i in range(n):
                if i != lo:
                    H.assume(a[lo, j] <= a[i, j] if i > lo else a[lo, j] < a[i, j])
                if i != hi:
                    H.assume(a[i, j] <= a[hi, j] if i > hi else a[i, j] < a[hi, j])
            lohi.append((lo, hi))
    return x, y, lohi


def _order(H, x, y):
    """points listed by their first X coordinate (no loss: `permuted` shows that the listing does not matter)"""
    for i in range(x.shape[0] - 1):
        H.assume(x[i, 0] <= x[i + 1, 0])


def _cells(H, a, nb):
    """bin index of every point, per coordinate: floor of nb (x - min)/(max - min), the maximum in the last bin"""
    n, d = a.shape
    out = [[] for _ in range(n)]
    for j in range(d):
        col = [a[i, j] for i in range(n)]
        lo, hi = H.np.min(a[:, j]), H.np.max(a[:, j])
        if H.truth(hi == lo):  # all points share a bin
            for i in range(n):
                out[i].append(0)
            continue
        for i in range(n):
            b = 0
            for k in range(1, nb):
                e = lo + (hi - lo) * k / nb
                if not H.symbolic:  # floating-point edges: keep clear of them
                    H.assume(abs(float(col[i] - e)) > 1e-6)
                if H.truth(col[i] >= e):
                    b = k
                else:
                    break
            out[i].append(b)
    return [tuple(c) for c in out]


def _plugin(H, cx, cy):
    n = len(cx)
    tot = 0
    for c in sorted(set(zip(cx, cy))):
        k = sum(p == c for p in zip(cx, cy))
        kx, ky = sum(p == c[0] for p in cx), sum(p == c[1] for p in cy)
        from fractions import Fraction

        r, p = Fraction(k * n, kx * ky), Fraction(k, n)
        if H.symbolic:
            from engine import sym as S

            tot = tot + S.R_const(p) * S.ln_(S.R_const(r))
        else:
            tot += float(p) * math.log(r)
    return tot


def _scaled(H, a):
    n, d = a.shape
    cols = []
    for j in range(d):
        m = sum((a[i, j] for i in range(1, n)), a[0, j]) / n
        c = [a[i, j] - m for i in range(n)]
        v = sum((e * e for e in c[1:]), c[0] * c[0]) / n
        s = H.np.sqrt(v) if H.truth(v > 0) else 1.0
        cols.append([e / s for e in c])
    return H.mat([[cols[j][i] for j in range(d)] for i in range(n)])


def _log(H, k):
    if H.symbolic:
        from engine import sym as S

        return S.ln_(S.R_const(k))
    return math.log(k)


@case("C18", quick=[dict(n=3, dx=1, dy=1, bx=2, by=3, std=False), dict(n=4, dx=1, dy=1, bx=2, by=None, std=False),
                    dict(n=3, dx=1, dy=1, bx=3, by=None, std=True), dict(n=2, dx=2, dy=1, bx=2, by=1, std=False),
                    dict(n=2, dx=1, dy=2, bx=3, by=2, std=False), dict(n=3, dx=1, dy=1, bx=1, by=2, std=False),
                    dict(n=1, dx=2, dy=1, bx=2, by=3, std=True)],
      thorough=[dict(n=4, dx=1, dy=1, bx=3, by=2, std=False), dict(n=5, dx=1, dy=1, bx=2, by=2, std=False),
                dict(n=3, dx=2, dy=1, bx=2, by=3, std=False), dict(n=3, dx=1, dy=2, bx=3, by=2, std=False),
                dict(n=4, dx=1, dy=1, bx=2, by=3, std=True)], max_paths=20000, budget=100)
def plug_in(H, n, dx, dy, bx, by, std):
    x, y, _ = _points(H, n, dx, dy)
    if n > 2:
        _order(H, x, y)
    est = _mod(H)(n_bins_x=bx, n_bins_y=by, standardize=std)
    v = est.estimate(x, y)
    by = bx if by is None else by
    cx, cy = _cells(H, x, bx), _cells(H, y, by)
    H.eq(v, _plugin(H, cx, cy), "plug-in formula", tol=1e-9)
    if H.symbolic:
        H.le(0, v, "non-negative")
        H.le(v, _log(H, min(bx ** dx, by ** dy)), "at most the log of the smaller number of cells")
    else:
        H.true(v >= -1e-9, "non-negative")
        H.true(v <= _log(H, min(bx ** dx, by ** dy)) + 1e-9, "at most the log of the smaller number of cells")


@case("C18", quick=[dict(n=130, bx=4, by=5, std=False), dict(n=130, bx=7, by=None, std=False), dict(n=1202, bx=2, by=None, std=False)], thorough=[dict(n=130, bx=4, by=5, std=True), dict(n=400, bx=20, by=3, std=False)])
def larger_sample(H, n, bx, by, std):
    """one arbitrary point in a larger fixed sample: sparse cells, many points, more bins"""
    xs, ys = [[8.0 * ((37 * i) % n) / n - 4] for i in range(n)], [[6.0 * ((37 * i + 11 * (i % 3) + i * i) % n) / n - 3] for i in range(n)]
    xs[5], ys[5] = [H.real("u", -3.9, 3.9)], [H.real("v", -2.9, 2.9)]
    x, y = H.mat(xs), H.mat(ys)
    v = _mod(H)(n_bins_x=bx, n_bins_y=by, standardize=std).estimate(x, y)
    H.eq(v, _plugin(H, _cells(H, x, bx), _cells(H, y, bx if by is None else by)), "plug-in formula", tol=1e-9)


@case("C18", quick=[dict(n=9, dx=3, dy=2, bx=2, by=2), dict(n=16, dx=1, dy=3, bx=3, by=2), dict(n=6, dx=4, dy=1, bx=2, by=3)], thorough=[dict(n=27, dx=3, dy=3, bx=3, by=2)])
def more_dimensions(H, n, dx, dy, bx, by):
    """one arbitrary point in a fixed sample with several coordinates (the estimate may be as large as the log of all cells)"""
    xs = [[((i // bx ** j) % bx) * 2.0 + 0.03 * ((7 * i + j) % 5) for j in range(dx)] for i in range(n)]
    ys = [[((i // by ** j) % by) * 3.0 - 0.02 * ((3 * i + j) % 7) for j in range(dy)] for i in range(n)]
    xs[1] = [H.real(f"u{j}", 0.2, 1.9) if j < 2 else xs[1][j] for j in range(dx)]
    ys[1][0] = H.real("v", 0.1, 2.8)
    x, y = H.mat(xs), H.mat(ys)
    v = _mod(H)(n_bins_x=bx, n_bins_y=by, standardize=False).estimate(x, y)
    H.eq(v, _plugin(H, _cells(H, x, bx), _cells(H, y, by)), "plug-in formula", tol=1e-9)


@case("C18", quick=[dict(n=3, bx=2, by=3, what=w) for w in ("permute", "rescale x", "rescale y")],
      thorough=[dict(n=4, bx=2, by=3, what=w) for w in ("permute", "rescale x", "rescale y")], max_paths=20000)
def invariance(H, n, bx, by, what):
    x, y, _ = _points(H, n, 1, 1)
    est = _mod(H)(n_bins_x=bx, n_bins_y=by, standardize=False)
    v = est.estimate(x, y)
    if not H.symbolic:
        _cells(H, x, bx), _cells(H, y, by)
    x2, y2 = x, y
    if what == "permute":
        for i, j in ((0, 1), (0, n - 1)):
            p = list(range(n))
            p[i], p[j] = p[j], p[i]
            w = est.estimate(H.mat([[x[k, 0]] for k in p]), H.mat([[y[k, 0]] for k in p]))
            H.eq(w, v, "point order does not matter", tol=1e-9)
        return
    a, b = H.real("a", 0.05, 20), H.real("b", -5, 5)
    if what == "rescale x":
        x2 = a * x + b
    else:
        y2 = a * y + b
    H.eq(est.estimate(x2, y2), v, "positive rescaling and shifts do not matter", tol=1e-9)


@case("C18", quick=[{}])
def validation(H):
    C = _mod(H)
    bx, by = H.pick("bx", [-2, 0, 1, 4]), H.pick("by", [-1, 0, 1, 5, None])
    if bx <= 0 or (by is not None and by <= 0):
        H.raises(ValueError, lambda: C(n_bins_x=bx, n_bins_y=by), "non-positive bin counts are rejected")
    else:
        p = C(n_bins_x=bx, n_bins_y=by).parameters()
        H.true(p.n_bins_x == bx and p.n_bins_y == (bx if by is None else by), "the numbers of bins are kept")
