"""Multinormal, bivariate and Student samplers: shapes, reproducibility, exact mean and covariance of the draws."""
import numpy as _np

from engine.harness import case

SAMP = "bmi.samplers"


def _rng(H, seed, how):
    if how == "key":
        return H.key(seed)
    if how == "npint" and not H.symbolic:
        return _np.int64(seed)
    return seed


def _affine(H, rows):
    """each coordinate as constant + sum of coefficient * standard normal draw"""
    from engine import calc
    from engine import sym as S
    from engine.sarr import lift

    out = []
    for r in rows:
        line = []
        for e in r:
            e = lift(e)
            vs = [i for i in S.var_atoms(e) if (S.ATOMS[i].name or "").startswith("rng:normal")]
            if any((S.ATOMS[i].name or "").startswith("rng:") and i not in vs for i in S.var_atoms(e)):
                raise S.Unsupported("draws that are not standard normals")
            zero = {i: S.R_const(0) for i in vs}
            const = calc.subst(e, zero)
            co = {i: calc.subst(e, {**zero, i: S.R_const(1)}) - const for i in vs}
            back = const
            for i, c in co.items():
                back = back + c * S._ratom(S.ATOMS[i])
            H.eq(e, back, "the sample is an affine image of standard normal draws")
            line.append((const, co))
        out.append(line)
    return out


def _moments(H, xy, n, mean, cov):
    d = len(mean)
    A = _affine(H, [[xy[i, k] for k in range(d)] for i in range(n)])
    for i in range(n):
        for k in range(d):
            H.eq(A[i][k][0], mean[k], "mean of the draws is the configured mean")
            for l in range(k + 1):
                c = sum((A[i][k][1][v] * A[i][l][1][v] for v in A[i][k][1] if v in A[i][l][1]), 0)
                H.eq(c, cov[k][l], "covariance of the draws is the configured covariance")
        for j in range(i):
            shared = set().union(*[set(c) for _, c in A[i]]) & set().union(*[set(c) for _, c in A[j]])
            H.true(not shared, "different points do not share randomness")


def _stat_moments(H, xy, mean, cov):
    """the same with real draws: sample moments of many points"""
    xy = _np.asarray(xy, dtype=float)
    mean, cov = _np.asarray(mean, dtype=float), _np.asarray(cov, dtype=float)
    N = len(xy)
    sd = _np.sqrt(_np.diag(cov))
    H.true(bool(_np.all(abs(xy.mean(0) - mean) < 6 * sd / N ** 0.5)), "mean of the draws is the configured mean")
    c = _np.cov(xy.T)
    tol = 6 * _np.sqrt((_np.outer(_np.diag(cov), _np.diag(cov)) + cov ** 2) / N)
    H.true(bool(_np.all(abs(c - cov) < tol)), "covariance of the draws is the configured covariance")
    z = _np.linalg.solve(_np.linalg.cholesky(cov), (xy - mean).T).T
    lag = (z[1:] * z[:-1]).mean(0)
    H.true(bool(_np.all(abs(lag) < 6 / N ** 0.5)), "different points do not share randomness")


def _shapes(H, x, y, n, dx, dy):
    H.true(tuple(x.shape) == (n, dx) and tuple(y.shape) == (n, dy), "paired arrays of shapes (n, dim_x) and (n, dim_y)")


N_REAL = 20000
HOW = ["int", "key", "npint"]
QN = [dict(n=1, m=1, k=1), dict(n=2, m=1, k=2), dict(n=3, m=2, k=1), dict(n=2, m=2, k=2)]


@case("C36", quick=[dict(c, how=h) for c in QN[:3] for h in HOW] + [dict(QN[3], how="key")],
      thorough=[dict(n=n, m=m, k=k, how=h) for n, m, k in ((1, 1, 1), (4, 2, 2), (5, 1, 3), (3, 3, 1)) for h in HOW], replays=4)
def multinormal(H, n, m, k, how):
    """any mean and covariance"""
    sm = H.mod(SAMP)
    cov = H.pd("L", m + k)
    mean = H.vec([H.real(f"mu{i}", -30, 30) for i in range(m + k)])
    kw = dict(mean=mean) if H.pick("give_mean", [True, False]) else {}
    mean = mean if kw else H.vec([0.0] * (m + k))
    s = sm.SplitMultinormal(dim_x=m, dim_y=k, covariance=cov, **kw)
    seed = H.int("seed", -2 ** 31, 2 ** 31 - 1)
    x, y = s.sample(n, _rng(H, seed, how))
    _shapes(H, x, y, n, m, k)
    xy = H.np.concatenate([x, y], axis=1)
    if H.symbolic:
        _moments(H, xy, n, mean, cov)
    else:
        c = _np.asarray(cov, dtype=float)
        if _np.linalg.cond(c) < 1e6:
            a, b = s.sample(N_REAL, _rng(H, seed, how))
            _stat_moments(H, _np.concatenate([a, b], axis=1), mean, cov)
    _same(H, lambda: sm.SplitMultinormal(dim_x=m, dim_y=k, covariance=cov, **kw), s, n, seed, how, x, y, True)


def _same(H, make, s, n, seed, how, x, y, keys):
    for o in (s, make()):
        x2, y2 = o.sample(n, _rng(H, seed, how))
        H.eq(x2, x, "the sample depends on the seed only")
        H.eq(y2, y, "the sample depends on the seed only")
        x2, y2 = o.sample(n_points=n, rng=_rng(H, seed, how))
        H.eq(x2, x, "the sample depends on the seed only")
        H.eq(y2, y, "the sample depends on the seed only")
    for h in HOW:
        if h != how and (keys or "key" not in (h, how)):
            x2, y2 = s.sample(n, _rng(H, seed, h))
            H.eq(x2, x, f"integer, NumPy integer{' and key' if keys else ''} seeds give the same sample")
            H.eq(y2, y, f"integer, NumPy integer{' and key' if keys else ''} seeds give the same sample")


@case("C36", quick=[dict(n=n, how=h) for n, h in ((1, "int"), (2, "key"), (3, "npint"))], thorough=[dict(n=n, how=h) for n in (1, 4) for h in HOW], replays=4)
def bivariate(H, n, how):
    sm = H.mod(SAMP)
    r = H.real("rho", -0.99, 0.99)
    sx, sy, mx, my = H.real("sx", 0.02, 40), H.real("sy", 0.02, 40), H.real("mx", -30, 30), H.real("my", -30, 30)
    kw = dict(std_x=sx, std_y=sy, mean_x=mx, mean_y=my)
    drop = H.pick("drop", ["nothing", *kw])
    d = dict(std_x=1.0, std_y=1.0, mean_x=0.0, mean_y=0.0)
    kw = {a: v for a, v in kw.items() if a != drop}
    d.update(kw)
    s = sm.BivariateNormalSampler(correlation=r, **kw)
    seed = H.int("seed", -2 ** 31, 2 ** 31 - 1)
    x, y = s.sample(n, _rng(H, seed, how))
    _shapes(H, x, y, n, 1, 1)
    mean = [d["mean_x"], d["mean_y"]]
    c = r * d["std_x"] * d["std_y"]
    cov = [[d["std_x"] * d["std_x"], c], [c, d["std_y"] * d["std_y"]]]
    if H.symbolic:
        _moments(H, H.np.concatenate([x, y], axis=1), n, mean, cov)
    else:
        a, b = s.sample(N_REAL, _rng(H, seed, how))
        _stat_moments(H, _np.concatenate([a, b], axis=1), mean, cov)
    _same(H, lambda: sm.BivariateNormalSampler(correlation=r, **kw), s, n, seed, how, x, y, True)


class StudentT:
    """stands in for scipy.stats.multivariate_t: draws are arbitrary, a function of the random state alone; drops axes like SciPy"""

    def __init__(self, H):
        self.H, self.calls, self.state, self.memo = H, [], {}, {}

    def rvs(self, loc=None, shape=1, df=1, size=1, random_state=None):
        H = self.H
        if random_state is None:
            raise RuntimeError("unseeded draws")
        d = len(loc)
        tok = getattr(random_state, "tok", None)
        if tok is not None:
            random_state.n += 1
            tok = (tok.id, random_state.n)
        else:
            from engine.overrides import keyval

            v = keyval(random_state)
            tok = ("int", getattr(v, "h", v))
        size = int(size) if not isinstance(size, (tuple, list)) else int(_np.prod(size))
        key = (tok, size, d)
        if key not in self.memo:
            self.memo[key] = H.array(f"t{len(self.memo)}", (size, d), -50, 50)
        self.calls.append(dict(loc=loc, shape=shape, df=df, size=size, out=self.memo[key]))
        out = self.memo[key]
        return out[0] if size == 1 else out

    def __call__(self, loc=None, shape=1, df=1, allow_singular=False, seed=None):
        owner = self

        class Frozen:
            def rvs(self, size=1, random_state=None):
                return owner.rvs(loc, shape, df, size, seed if random_state is None else random_state)

        return Frozen()


QS = [dict(n=1, m=1, k=1), dict(n=2, m=1, k=2), dict(n=3, m=2, k=1)]


@case("C36", quick=[dict(c, how=h) for c in QS for h in HOW], thorough=[dict(n=n, m=m, k=k, how=h) for n, m, k in ((4, 2, 2), (1, 1, 3), (5, 3, 1)) for h in HOW], replays=4)
def student(H, n, m, k, how):
    """any dispersion, mean and degrees of freedom"""
    rv = StudentT(H)
    if H.symbolic:
        H.stub("scipy.stats.multivariate_t", rv)
    sm = H.mod(SAMP)
    d = m + k
    disp = H.pd("L", d)
    mean = H.vec([H.real(f"mu{i}", -30, 30) for i in range(d)])
    kind = H.pick("df", ["int", "inf"])
    df = H.int("nu", 1, 60) if kind == "int" else _np.inf
    kw = dict(mean=mean) if H.pick("give_mean", [True, False]) else {}
    mean = mean if kw else H.vec([0.0] * d)
    make = lambda: sm.SplitStudentT(dim_x=m, dim_y=k, df=df, dispersion=disp, **kw)
    s = make()
    seed = H.seed()
    x, y = s.sample(n, _rng(H, seed, how))
    _shapes(H, x, y, n, m, k)
    if H.symbolic:
        H.true(len(rv.calls) == 1, "one joint draw")
        c = rv.calls[0]
        H.eq(c["size"], n, "the requested number of points")
        H.eq(c["loc"], mean, "configured location")
        H.eq(H.np.asarray(c["shape"]), disp, "configured dispersion")
        if kind == "int":
            H.eq(c["df"], df, "configured degrees of freedom")
        else:
            H.true(isinstance(c["df"], float) and c["df"] == _np.inf, "configured degrees of freedom")
        H.eq(H.np.concatenate([x, y], axis=1), c["out"], "X is the first dim_x coordinates, Y the remaining ones")
    else:
        _t_law(H, s, seed, how, mean, disp, df)
    _same(H, make, s, n, seed, how, x, y, False)


def _t_law(H, s, seed, how, mean, disp, df):
    """many real points: squared radius over the dimension follows F(d, df), directions are uniform"""
    from scipy import stats

    L = _np.asarray(disp, dtype=float)
    if _np.linalg.cond(L) > 1e6:
        return
    a, b = s.sample(N_REAL, _rng(H, seed, how))
    z = _np.linalg.solve(_np.linalg.cholesky(L), (_np.concatenate([a, b], axis=1) - _np.asarray(mean, dtype=float)).T).T
    d = z.shape[1]
    r2 = (z ** 2).sum(1)
    law = stats.f(d, float(df)) if _np.isfinite(df) else stats.chi2(d, scale=1.0 / d)
    ks = stats.kstest(r2 / d, law.cdf).statistic
    H.true(bool(ks < 0.02), "joint Student distribution with the configured dispersion and degrees of freedom")
    u = z / _np.sqrt(r2)[:, None]
    H.true(bool(_np.all(abs(u.mean(0)) < 6 / N_REAL ** 0.5)), "configured location")
    c = u.T @ u / N_REAL
    H.true(bool(_np.all(abs(c - _np.eye(d) / d) < 6 / N_REAL ** 0.5)), "configured dispersion")


@case("C36", quick=[dict(which=w) for w in ("normal", "bivariate", "student")], replays=4)
def other_seeds(H, which):
    """different seeds draw different randomness"""
    rv = StudentT(H)
    if H.symbolic:
        H.stub("scipy.stats.multivariate_t", rv)
    sm = H.mod(SAMP)
    c = H.mat([[2.0, 0.5], [0.5, 1.0]])
    s = {"normal": lambda: sm.SplitMultinormal(dim_x=1, dim_y=1, covariance=c), "bivariate": lambda: sm.BivariateNormalSampler(0.5),
         "student": lambda: sm.SplitStudentT(dim_x=1, dim_y=1, df=3, dispersion=c)}[which]()
    how = H.pick("how", HOW)
    lo = -(2 ** 30) if which != "student" else 0
    a, b = H.int("seed_a", lo, 2 ** 30), H.int("seed_b", lo, 2 ** 30)
    H.assume(a != b)
    xa, _ = s.sample(3, _rng(H, a, how))
    xb, _ = s.sample(3, _rng(H, b, how))
    if H.symbolic:
        if which == "student":
            H.true(rv.calls[0]["out"] is not rv.calls[1]["out"], "different seeds give different randomness")
        else:
            H.independent(xa, xb, "different seeds give different randomness")
    else:
        H.true(bool(_np.any(_np.asarray(xa) != _np.asarray(xb))), "different seeds give different randomness")
