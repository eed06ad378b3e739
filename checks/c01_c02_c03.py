"""Multinormal and Student-t samplers: ground-truth mutual information, accepted matrices."""
import math

import numpy as _np

from engine.harness import case

D_Q = [dict(m=m, n=n) for m, n in [(1, 1), (1, 2), (2, 1), (2, 2)]]
D_T = D_Q + [dict(m=m, n=n) for m, n in [(1, 3), (3, 1)]]


def _mi_formula(H, S, m, n):
    """1/2 log(det S_XX det S_YY / det S) by Laplace expansion"""
    xs, ys = range(m), range(m, m + n)
    dx, dy, d = H.det(H.sub(S, xs, xs)), H.det(H.sub(S, ys, ys)), H.det(S)
    return 0.5 * (H.np.log(dx) + H.np.log(dy) - H.np.log(d))


@case("C01", quick=D_Q, thorough=D_T)
def multinormal_formula(H, m, n):
    spl = H.mod("bmi.samplers")
    S = H.pd("L", m + n)
    mean = H.vec(H.reals("mu", m + n))
    s = spl.SplitMultinormal(dim_x=m, dim_y=n, covariance=S, mean=mean)
    mi = s.mutual_information()
    H.eq(mi, _mi_formula(H, S, m, n), "log-determinant formula")
    H.le(0, mi, "non-negative")
    s0 = spl.SplitMultinormal(dim_x=m, dim_y=n, covariance=S)
    H.eq(s0.mutual_information(), mi, "does not depend on the mean")
    H.eq(s.dim_x, m, "dim_x")
    H.eq(s.dim_y, n, "dim_y")
    H.eq(s.dim_total, m + n, "dim_total")


@case("C01", quick=[dict(m=1, n=2), dict(m=2, n=1)], thorough=[dict(m=1, n=2), dict(m=2, n=1), dict(m=2, n=2)])
def swap_roles(H, m, n):
    spl = H.mod("bmi.samplers")
    S = H.pd("L", m + n)
    order = list(range(m, m + n)) + list(range(m))
    T = H.mat([[S[i][j] for j in order] for i in order])
    a = spl.SplitMultinormal(dim_x=m, dim_y=n, covariance=S).mutual_information()
    b = spl.SplitMultinormal(dim_x=n, dim_y=m, covariance=T).mutual_information()
    H.eq(a, b, "X and Y swap roles")


@case("C01", quick=[dict(m=1, n=1), dict(m=2, n=1), dict(m=1, n=2)], thorough=[dict(m=1, n=1), dict(m=2, n=1), dict(m=1, n=2), dict(m=2, n=2)])
def linear_remap(H, m, n):
    """X -> A X with any invertible A (the formula is a quotient of determinants, A drops out)"""
    spl = H.mod("bmi.samplers")
    S = H.pd("L", m + n)
    side = H.pick("side", ["x", "y"])
    k, off = (m, 0) if side == "x" else (n, m)
    A = [[H.real(f"A{i}{j}") for j in range(k)] for i in range(k)]
    d = H.det(A)
    H.assume(d * d > 0.01)
    N = m + n
    M = [[(A[i - off][j - off] if (off <= i < off + k and off <= j < off + k) else (1.0 if i == j and not off <= i < off + k else 0.0))
          for j in range(N)] for i in range(N)]
    MS = [[H.add(*[M[i][q] * S[q][j] for q in range(N)]) for j in range(N)] for i in range(N)]
    T = [[H.add(*[MS[i][q] * M[j][q] for q in range(N)]) for j in range(N)] for i in range(N)]
    a = spl.SplitMultinormal(dim_x=m, dim_y=n, covariance=S).mutual_information()
    b = _mi_formula(H, T, m, n)
    H.eq(a, b, "formula is invariant under linear re-mapping", tol=2e-3)


@case("C01", quick=[dict(scale=s, n=n) for s in (-200, 200) for n in (2,)] + [dict(scale=-5, n=80)],
      thorough=[dict(scale=s, n=n) for s in (-300, -200, 200, 300) for n in (2,)] + [dict(scale=-5, n=80), dict(scale=5, n=80)])
def extreme_scales(H, scale, n):
    """units do not matter, however small or large: a block-diagonal covariance of equicorrelated pairs in units of 10^scale"""
    spl = H.mod("bmi.samplers")
    rho = H.real("rho", -1, 1, lo_open=True, hi_open=True)
    H.assume(rho * rho < 0.998)
    c = 10.0 ** scale
    h = n // 2
    S = H.mat([[c if i == j else (rho * c if abs(i - j) == h and (i if i < j else j) < 1 else 0.0) for j in range(n)] for i in range(n)])
    s = spl.SplitMultinormal(dim_x=h, dim_y=h, covariance=S)
    H.eq(s.mutual_information(), -0.5 * H.np.log(1 - rho * rho), "independent of the units")


@case("C01")
def bivariate(H):
    spl = H.mod("bmi.samplers")
    rho = H.real("rho", -1, 1, lo_open=True, hi_open=True)
    sx, sy = H.real("sx", 0, lo_open=True), H.real("sy", 0, lo_open=True)
    mx, my = H.real("mx"), H.real("my")
    b = spl.BivariateNormalSampler(correlation=rho, std_x=sx, std_y=sy, mean_x=mx, mean_y=my)
    mi = b.mutual_information()
    H.eq(mi, -0.5 * H.np.log(1 - rho * rho), "closed form")
    cov = H.mat([[sx * sx, rho * sx * sy], [rho * sx * sy, sy * sy]])
    g = spl.SplitMultinormal(dim_x=1, dim_y=1, covariance=cov, mean=H.vec([mx, my]))
    H.eq(g.mutual_information(), mi, "agrees with the general sampler")
    H.eq(b.correlation(), rho, "correlation()")
    H.eq(b.dim_x, 1, "dim_x")
    H.eq(b.dim_y, 1, "dim_y")


@case("C01")
def bivariate_rejects(H):
    """accepted iff -1 < rho < 1 and both deviations are positive"""
    spl = H.mod("bmi.samplers")
    rho, sx, sy = H.real("rho"), H.real("sx"), H.real("sy")
    bad = H.pick("bad", ["rho", "sx", "sy"])  # this one at least is invalid, the others are arbitrary
    if bad == "rho":
        H.assume((rho <= -1) | (rho >= 1))
    else:
        H.assume((sx if bad == "sx" else sy) <= 0)
    H.raises(ValueError, lambda: spl.BivariateNormalSampler(correlation=rho, std_x=sx, std_y=sy), "rejected")


@case("C01", quick=[dict(v=v) for v in (-1.0, 1.0, 1)])
def bivariate_boundary(H, v):
    spl = H.mod("bmi.samplers")
    H.raises(ValueError, lambda: spl.BivariateNormalSampler(correlation=v), "boundary correlation rejected")
    H.raises(ValueError, lambda: spl.BivariateNormalSampler(correlation=0.5, std_x=0.0), "zero deviation rejected")
    H.raises(ValueError, lambda: spl.BivariateNormalSampler(correlation=0.5, std_y=0), "zero deviation rejected")


# ------------------------------------------------------------------------------------------------ C02
def _make(H, which, m, n, S, mean=None):
    spl = H.mod("bmi.samplers")
    if which == "normal":
        return spl.SplitMultinormal(dim_x=m, dim_y=n, covariance=S, mean=mean)
    return spl.SplitStudentT(dim_x=m, dim_y=n, dispersion=S, df=3, mean=mean)


@case("C02", quick=[dict(which="normal", m=1, n=1), dict(which="normal", m=1, n=2), dict(which="normal", m=2, n=1), dict(which="student", m=1, n=1)],
      thorough=[dict(which=w, m=m, n=n) for w in ("normal", "student") for m, n in [(1, 1), (1, 2), (2, 1), (2, 2)]])
def accepts_pd(H, which, m, n):
    S = H.pd("L", m + n)
    mean = H.vec(H.reals("mu", m + n)) if H.pick("mean", [True, False]) else None
    H.true(not H.fails(lambda: _make(H, which, m, n, S, mean)), "accepted")


@case("C02", quick=[dict(which="normal", m=1, n=1), dict(which="student", m=1, n=1)], thorough=[dict(which=w, m=1, n=1) for w in ("normal", "student")])
def rejects_indefinite_2(H, which, m, n):
    a, b, c = H.real("a"), H.real("b"), H.real("c")
    # not positive definite
    H.assume((a <= -0.01) | (a * c - b * b <= -0.01) | (c <= -0.01))
    S = H.mat([[a, b], [b, c]])
    H.raises(ValueError, lambda: _make(H, which, m, n, S), "indefinite rejected")


@case("C02", quick=[dict(which="normal", m=1, n=2), dict(which="normal", m=2, n=1), dict(which="student", m=2, n=1)],
      thorough=[dict(which=w, m=m, n=n) for w in ("normal", "student") for m, n in [(1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]])
def rejects_indefinite(H, which, m, n):
    """L D L^T with an arbitrary unit lower-triangular L and at least one negative pivot"""
    N = m + n
    L = [[1.0 if i == j else (H.real(f"L{i}{j}", -2, 2) if j < i else 0.0) for j in range(N)] for i in range(N)]
    neg = H.pick("neg", list(range(1, 2 ** N)))  # which pivots are negative: any non-empty set
    d = [H.real(f"d{i}", -3, -0.05) if neg >> i & 1 else H.real(f"d{i}", 0.05, 3) for i in range(N)]
    S = H.mat([[H.add(*[L[i][k] * d[k] * L[j][k] for k in range(min(i, j) + 1)]) for j in range(N)] for i in range(N)])
    H.raises(ValueError, lambda: _make(H, which, m, n, S), "indefinite rejected")


@case("C02", quick=[dict(which="normal", m=1, n=1), dict(which="normal", m=2, n=1), dict(which="student", m=1, n=2)],
      thorough=[dict(which=w, m=m, n=n) for w in ("normal", "student") for m, n in [(1, 1), (1, 2), (2, 1), (2, 2)]])
def rejects_singular(H, which, m, n):
    """diagonal, non-negative, one variance (at least) exactly zero: symmetric, but not positive definite"""
    N = m + n
    zero = H.pick("zero", list(range(1, 2 ** N)))
    d = [0.0 if zero >> i & 1 else H.real(f"d{i}", 0.1, 10) for i in range(N)]
    S = H.mat([[d[i] if i == j else 0.0 for j in range(N)] for i in range(N)])
    H.raises(ValueError, lambda: _make(H, which, m, n, S), "singular rejected")


@case("C02", quick=[dict(which="normal", m=1, n=1), dict(which="normal", m=1, n=2), dict(which="student", m=2, n=1)],
      thorough=[dict(which=w, m=m, n=n) for w in ("normal", "student") for m, n in [(1, 1), (1, 2), (2, 1)]])
def rejects_asymmetric(H, which, m, n):
    """an entry (or two of different pairs) differs from its transpose, everything else is a positive-definite matrix"""
    N = m + n
    S = H.pd("L", N)
    pairs = [(i, j) for i in range(N) for j in range(N) if i != j]
    i, j = H.pick("entry", pairs)
    e = H.real("e")
    H.assume((e > 0.05) | (e < -0.05))
    rows = [[S[a][b] for b in range(N)] for a in range(N)]
    H.assume((rows[i][j] < 50) & (rows[i][j] > -50))
    rows[i][j] = rows[i][j] + e
    if N > 2 and H.pick("two", [False, True]):
        k, l = [p for p in pairs if set(p) != {i, j}][0]
        rows[k][l] = rows[k][l] + H.pick("same size", [-1, 1]) * e
    H.raises(ValueError, lambda: _make(H, which, m, n, H.mat(rows)), "non-symmetric rejected")


SHAPES = [(2, 2), (3, 3), (1, 1), (4, 4), (2, 3), (3, 2)]


@case("C02", quick=[dict(which="normal"), dict(which="student")])
def rejects_shapes(H, which):
    """wrong matrix shape, mean length or dimension"""
    spl = H.mod("bmi.samplers")
    m, n = H.pick("dims", [(1, 1), (1, 2), (2, 1), (0, 1), (1, 0), (0, 2), (2, 0), (-1, 2), (2, -1), (-1, 3), (3, -1), (1, 3), (0, 0)])
    r, c = H.pick("shape", SHAPES)
    k = H.pick("mean", [None, 1, 2, 3, 4])
    S = H.np.eye(r, c) * H.real("s", 0.1, 5)
    mean = None if k is None else H.np.zeros(k)
    good = m > 0 and n > 0 and r == c == m + n and (k is None or k == m + n)
    if good:
        H.true(not H.fails(lambda: _make(H, which, m, n, S, mean)), "accepted")
    elif which == "student" and (m < 1 or n < 1):
        H.raises(ValueError, lambda: _make(H, which, m, n, S, mean), "bad dimension rejected")
    else:
        H.raises(ValueError, lambda: _make(H, which, m, n, S, mean), "bad shape rejected")


# ------------------------------------------------------------------------------------------------ C03
def _h(k, df):
    """entropy of the standard k-dimensional t distribution (Arellano-Valle et al. 2013, eq. 7), independent implementation"""
    from scipy.special import digamma, gammaln

    a, b = 0.5 * (df + k), 0.5 * df
    return -(gammaln(a) - gammaln(b)) + 0.5 * k * math.log(df * math.pi) + a * (digamma(a) - digamma(b))


DFS = [0.3, 1, 2, 2.5, 3, 10, 200, 1000]


@case("C03", quick=[dict(m=1, n=1), dict(m=1, n=2), dict(m=2, n=1)], thorough=D_T)
def student_formula(H, m, n):
    spl = H.mod("bmi.samplers")
    S = H.pd("L", m + n)
    mean = H.vec(H.reals("mu", m + n)) if H.pick("mean", [True, False]) else None
    df = H.pick("df", DFS)
    s = spl.SplitStudentT(dim_x=m, dim_y=n, df=df, dispersion=S, mean=mean)
    normal = _mi_formula(H, S, m, n)
    H.eq(s.mi_normal(), normal, "normal part")
    corr = _h(m, df) + _h(n, df) - _h(m + n, df)
    H.eq(s.mi_correction(), corr, "correction", atol=1e-6)
    H.eq(s.mutual_information(), normal + corr, "mutual information")
    H.eq(s.df, df, "df")
    H.eq((s.dim_x, s.dim_y), (m, n), "dimensions")
    H.eq(spl.SplitStudentT.mi_correction_function(df=df, dim_x=n, dim_y=m), corr, "symmetric in the dimensions", atol=1e-6)


@case("C03", quick=[dict(m=1, n=1), dict(m=2, n=3)])
def student_df_symbolic(H, m, n):
    """the correction for every real df in an interval, and its limits"""
    spl = H.mod("bmi.samplers")
    df = H.real("df", 0.2, 5000)
    s = spl.SplitStudentT(dim_x=m, dim_y=n, df=df, dispersion=_np.eye(m + n))
    a = s.mi_correction()
    b = spl.SplitStudentT.mi_correction_function(df=df, dim_x=n, dim_y=m)
    H.eq(a, b, "symmetric in the dimensions", tol=1e-6)
    H.eq(s.mutual_information(), a, "identity dispersion leaves the correction")
    if H.symbolic:
        g, p = H.mod("scipy.special").gammaln, H.mod("scipy.special").digamma

        def h(k):
            x, y = 0.5 * (df + k), 0.5 * df
            return g(y) - g(x) + 0.5 * k * H.np.log(df * math.pi) + x * (p(x) - p(y))
    else:
        def h(k):
            return _h(k, df)
    H.eq(a, h(m) + h(n) - h(m + n), "correction", atol=1e-6)


@case("C03", quick=[dict(m=1, n=1), dict(m=2, n=3)])
def student_gaussian_limit(H, m, n):
    spl = H.mod("bmi.samplers")
    rho = H.real("rho", -0.99, 0.99)
    S = [[1.0 if i == j else (rho if {i, j} == {0, m} else 0.0) for j in range(m + n)] for i in range(m + n)]
    s = spl.SplitStudentT(dim_x=m, dim_y=n, df=_np.inf, dispersion=H.mat(S))
    H.eq(s.mi_correction(), 0.0, "zero correction for infinite df")
    H.eq(s.mutual_information(), -0.5 * H.np.log(1 - rho * rho), "Gaussian limit")


@case("C03", quick=[dict(m=1, n=1), dict(m=1, n=2)], thorough=[dict(m=1, n=1), dict(m=1, n=2), dict(m=2, n=2)])
def student_covariance(H, m, n):
    spl = H.mod("bmi.samplers")
    S = H.pd("L", m + n)
    df = H.real("df", 0, 400, lo_open=True)
    s = spl.SplitStudentT(dim_x=m, dim_y=n, df=df, dispersion=S)
    if H.truth(df > 2):
        H.assume(df > 2.001)
        H.eq(s.covariance(), [[df / (df - 2) * S[i][j] for j in range(m + n)] for i in range(m + n)], "covariance")
    else:
        H.raises(ValueError, s.covariance, "no covariance")


@case("C03")
def student_covariance_2(H):
    spl = H.mod("bmi.samplers")
    s = spl.SplitStudentT(dim_x=1, dim_y=1, df=2, dispersion=_np.eye(2))
    H.raises(ValueError, s.covariance, "no covariance at df = 2")


@case("C03")
def student_rejects_df(H):
    spl = H.mod("bmi.samplers")
    df = H.real("df", None, 0)
    H.raises(ValueError, lambda: spl.SplitStudentT(dim_x=1, dim_y=1, df=df, dispersion=_np.eye(2)), "non-positive df rejected")
    H.raises(ValueError, lambda: spl.SplitStudentT(dim_x=1, dim_y=1, df=0, dispersion=_np.eye(2)), "zero df rejected")
