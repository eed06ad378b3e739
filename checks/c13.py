"""Multivariate normal and Student models: densities, marginals and pointwise mutual information."""
import math

import numpy as _np

from engine.harness import case

DIMS_Q = [(1, 1), (1, 2), (2, 1)]
DIMS_T = [(1, 1), (1, 2), (2, 1), (2, 2)]


def _quad(H, m, v):
    """v^T m^-1 v and det m, by Cramer's rule"""
    n = len(v)
    d = H.det(m)
    q = 0.0
    for i in range(n):
        for j in range(n):
            rows = [r for r in range(n) if r != j]
            cols = [c for c in range(n) if c != i]
            minor = H.det(H.sub(m, rows, cols)) if n > 1 else 1.0
            cof = minor if (i + j) % 2 == 0 else -minor
            q = q + v[i] * cof * v[j]
    return q / d, d


def _normal_lp(H, m, mu, x):
    n = len(mu)
    q, d = _quad(H, m, [a - b for a, b in zip(x, mu)])
    return -(q + H.np.log(d)) / 2 - n / 2 * H.np.log(2 * H.np.pi)


def _lgamma(H, v):
    if H.symbolic:
        from engine import sym as S

        return S.gammaln_(S.lift(v))
    return math.lgamma(float(v))


def _ln(H, v):
    if H.symbolic:
        from engine import sym as S

        return S.ln_(S.lift(v))
    return math.log(v)


def _student_lp(H, m, mu, df, x):
    n = len(mu)
    q, d = _quad(H, m, [a - b for a, b in zip(x, mu)])
    return (_lgamma(H, (df + n) / 2) - _lgamma(H, df / 2) - n / 2 * _ln(H, df) - n / 2 * H.np.log(H.np.pi) - H.np.log(d) / 2
            - (df + n) / 2 * H.np.log(1 + q / df))


def _inputs(H, dx, dy, npts=1):
    n = dx + dy
    if H.symbolic:
        c = H.pd("S", n)
    else:  # well-conditioned matrices (the code runs in single precision)
        l = _np.array([[H.real(f"S{i}{j}", 0.6, 2.5) if i == j else (H.real(f"S{i}{j}", -1.2, 1.2) if j < i else 0.0) for j in range(n)] for i in range(n)])
        c = l @ l.T
    mu = H.array("mu", (n,), -3, 3)
    x, y = H.jarray("x", (npts, dx), -3, 3), H.jarray("y", (npts, dy), -3, 3)
    return c, mu, x, y


def _row(a, i):
    return [a[i, k] for k in range(a.shape[1])]


def _check(H, D, c, mu, x, y, dx, dy, lp):
    n = dx + dy
    X, Y = list(range(dx)), list(range(dx, n))
    rows = [[c[i, j] for j in range(n)] for i in range(n)]
    m = [mu[i] for i in range(n)]
    xy = H.jnp.hstack([x, y])
    gj, gx, gy, gp = D.dist_joint.log_prob(xy), D.dist_x.log_prob(x), D.dist_y.log_prob(y), D.pmi(x, y)
    H.true(tuple(gp.shape) == (x.shape[0],), "one value per point")
    for i in range(x.shape[0]):
        wj = lp(rows, m, _row(xy, i))
        wx = lp(H.sub(rows, X, X), m[:dx], _row(x, i))
        wy = lp(H.sub(rows, Y, Y), m[dx:], _row(y, i))
        H.eq(gj[i], wj, "joint log-density", tol=3e-3, scale=5)
        H.eq(gx[i], wx, "X marginal log-density", tol=3e-3, scale=5)
        H.eq(gy[i], wy, "Y marginal log-density", tol=3e-3, scale=5)
        H.eq(gp[i], wj - wx - wy, "pointwise mutual information", tol=3e-3, scale=5)


@case("C13", quick=[dict(dx=a, dy=b) for a, b in DIMS_Q], thorough=[dict(dx=a, dy=b) for a, b in DIMS_T + [(1, 3), (3, 1)]])
def normal(H, dx, dy):
    """every mean, positive-definite covariance and point"""
    F = H.mod("bmi.samplers._tfp")
    c, mu, x, y = _inputs(H, dx, dy)
    D = F.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=c, mean=mu)
    _check(H, D, c, mu, x, y, dx, dy, lambda m, mu_, p: _normal_lp(H, m, mu_, p))
    s = H.mod("bmi.samplers").SplitMultinormal(dim_x=dx, dim_y=dy, covariance=c, mean=mu)
    H.eq(D.analytic_mi, s.mutual_information(), "analytic value of the split sampler", tol=1e-3)
    H.eq(D.mean, mu, "mean kept")
    H.eq(D.covariance, c, "covariance kept")
    H.eq((D.dim_x, D.dim_y), (dx, dy), "dimensions kept")


@case("C13", quick=[dict(dx=a, dy=b) for a, b in DIMS_Q], thorough=[dict(dx=a, dy=b) for a, b in DIMS_T])
def student(H, dx, dy):
    F = H.mod("bmi.samplers._tfp")
    c, mu, x, y = _inputs(H, dx, dy)
    df = H.real("df", 1, 20)
    D = F.MultivariateStudentDistribution(dim_x=dx, dim_y=dy, df=df, dispersion=c, mean=mu)
    _check(H, D, c, mu, x, y, dx, dy, lambda m, mu_, p: _student_lp(H, m, mu_, df, p))
    s = H.mod("bmi.samplers").SplitStudentT(dim_x=dx, dim_y=dy, df=df, dispersion=c, mean=mu)
    H.eq(D.analytic_mi, s.mutual_information(), "analytic value of the split sampler", tol=1e-3)
    H.eq(D.mean, mu, "mean kept")
    H.eq(D.dispersion, c, "dispersion kept")
    H.eq(D.df, df, "df kept")
    H.eq((D.dim_x, D.dim_y), (dx, dy), "dimensions kept")


@case("C13", quick=[dict(kind="normal"), dict(kind="student")])
def defaults(H, kind):
    """the mean defaults to zero; several points at once are treated one by one; wrong sizes are rejected"""
    F = H.mod("bmi.samplers._tfp")
    c, mu, x, y = _inputs(H, 1, 1, 2)
    df = 5

    def make(**k):
        if kind == "normal":
            return F.MultivariateNormalDistribution(covariance=c, **k)
        return F.MultivariateStudentDistribution(dispersion=c, df=df, **k)

    D0 = make(dim_x=1, dim_y=1)
    lp = (lambda m, mu_, p: _normal_lp(H, m, mu_, p)) if kind == "normal" else (lambda m, mu_, p: _student_lp(H, m, mu_, df, p))
    z = H.vec([0.0, 0.0])
    _check(H, D0, c, z, x, y, 1, 1, lp)
    H.eq(D0.mean, z, "default mean is zero")
    D = make(dim_x=1, dim_y=1, mean=mu)
    H.eq(D.analytic_mi, D0.analytic_mi, "the mean does not change the mutual information")
    H.raises(ValueError, lambda: make(dim_x=1, dim_y=2), "wrong size rejected")
    H.raises(ValueError, lambda: make(dim_x=1, dim_y=1, mean=H.vec([0.0, 0.0, 0.0])), "wrong mean rejected")
