"""Base benchmark tasks: the distribution behind a task is the one its parameters describe."""
import numpy as _np

from checks.c01_c02_c03 import _mi_formula
from checks.c36 import N_REAL, StudentT, _moments, _stat_moments, _t_law
from engine.harness import case

TK = "bmi.benchmark.tasks."


def _sum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def _gauss(H, task, dx, dy, cov, name, mi=True):
    """a zero-mean Gaussian of the given covariance"""
    d = dx + dy
    n = 2
    seed = H.seed()
    x, y = task.sample(n, seed)
    H.true(tuple(x.shape) == (n, dx) and tuple(y.shape) == (n, dy), "the stated dimensions")
    H.true(task.dim_x == dx and task.dim_y == dy, "the stated dimensions")
    if H.symbolic:
        _moments(H, H.np.concatenate([x, y], axis=1), n, [0.0] * d, cov)
    else:
        c = _np.asarray([[float(v) for v in r] for r in cov])
        if _np.linalg.cond(c) < 1e6:
            a, b = task.sample(N_REAL, seed)
            _stat_moments(H, _np.concatenate([a, b], axis=1), [0.0] * d, c)
    if mi:
        H.eq(task.mutual_information, _mi_formula(H, cov, dx, dy), "the mutual information of that distribution")


def _meta(H, task, params, name, given):
    H.true(task.name == (given or name), "the task's name")
    got = task.params
    for k, v in params.items():
        H.true(k in got, f"the parameter {k} is recorded")
        if k in ("covariance", "dispersion"):
            g = got[k]
            H.true(isinstance(g, list) and len(g) == len(v) and all(len(r) == len(v) for r in g), f"the parameter {k} is recorded")
            for i, r in enumerate(v):
                for j, e in enumerate(r):
                    H.eq(g[i][j], e, f"the parameter {k} is recorded")
        else:
            H.eq(got[k], v, f"the parameter {k} is recorded")
    H.true(set(got) == set(params), "no other parameters are recorded")


def _name(H):
    n = H.pick("task_name", [None, "Own name"])
    return n, ({} if n is None else dict(task_name=n))


@case("C32", quick=[{}], replays=5)
def bivariate(H):
    m = H.mod(TK + "bivariate_normal")
    r = H.real("rho", -0.99, 0.99)
    if H.pick("default", [False, True]):
        t, r = m.task_bivariate_normal(), 0.75
    else:
        t = m.task_bivariate_normal(gaussian_correlation=r)
    _gauss(H, t, 1, 1, [[1.0, r], [r, 1.0]], None)
    _meta(H, t, dict(gaussian_correlation=r), "Bivariate normal 1 × 1", None)


@case("C32", quick=[dict(n=n) for n in (1, 3)], replays=5)
def additive(H, n):
    """X uniform on [0,1], Y = X + uniform noise on [-epsilon, epsilon]"""
    m = H.mod(TK + "additive_noise")
    s = H.mod("bmi.samplers")
    e = H.real("epsilon", 0.01, 4)
    t = m.task_additive_noise(epsilon=e)
    ref = s.AdditiveUniformSampler(epsilon=e)
    seed = H.seed()
    x, y = t.sample(n, seed)
    a, b = ref.sample(n, seed)
    H.eq(x, a, "samples of the additive uniform noise model with that epsilon")
    H.eq(y, b, "samples of the additive uniform noise model with that epsilon")
    for i in range(n):
        H.le(0, x[i, 0], "X is in [0, 1]")
        H.le(x[i, 0], 1, "X is in [0, 1]")
        d = y[i, 0] - x[i, 0]
        H.le(d, e, "the noise is at most epsilon", tol=1e-5)
        H.le(-e, d, "the noise is at most epsilon", tol=1e-5)
    big = e > 0.5
    mi = 1.0 / (4.0 * e) if H.truth(big) else e - H.np.log(2.0 * e)
    H.eq(t.mutual_information, mi, "the mutual information of that distribution")
    H.true(t.dim_x == 1 and t.dim_y == 1, "the stated dimensions")
    H.true(set(t.params) == {"epsilon"}, "the parameter epsilon is recorded")
    H.eq(t.params["epsilon"], e, "the parameter epsilon is recorded")


def _dense(d, r):
    return [[1.0 if i == j else r for j in range(d)] for i in range(d)]


def _sparse(H, dx, dy, K, s):
    c = s * s / (1.0 + s * s)
    d = dx + dy
    out = [[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)]
    for i in range(K):
        out[i][dx + i] = out[dx + i][i] = c
    return out


DIM = [(1, 1), (1, 2), (2, 1), (2, 2)]


@case("C32", quick=[dict(dx=a, dy=b) for a, b in DIM], thorough=[dict(dx=a, dy=b) for a, b in ((1, 3), (3, 1), (2, 3))], replays=5)
def dense(H, dx, dy):
    m = H.mod(TK + "multinormal")
    d = dx + dy
    r = H.real("off_diag", -0.95 / (d - 1), 0.97)
    nm, kw = _name(H)
    if H.pick("default", [False, True]):
        r = 0.5
        t = m.task_multinormal_dense(dx, dy, **kw)
    else:
        t = m.task_multinormal_dense(dim_x=dx, dim_y=dy, off_diag=r, **kw)
    cov = _dense(d, r)
    _gauss(H, t, dx, dy, cov, None)
    _meta(H, t, dict(off_diag=r, covariance=cov), f"Multinormal {dx} × {dy} (dense)", nm)


@case("C32", quick=[dict(dx=a, dy=b, K=k) for a, b, k in ((1, 1, 1), (1, 2, 0), (2, 1, 1), (2, 2, 2))], thorough=[dict(dx=a, dy=b, K=k) for a, b, k in ((1, 3, 1), (3, 2, 2), (2, 3, 1))],
      replays=5)
def sparse(H, dx, dy, K):
    m = H.mod(TK + "multinormal")
    s = H.real("strength", 0, 6)
    nm, kw = _name(H)
    if H.pick("default", [False, True]):
        s = 2.0
        if min(dx, dy) >= 2:
            t, K = m.task_multinormal_sparse(dx, dy, **kw), 2
        else:
            t = m.task_multinormal_sparse(dx, dy, n_interacting=K, **kw)
    else:
        t = m.task_multinormal_sparse(dim_x=dx, dim_y=dy, n_interacting=K, strength=s, **kw)
    _gauss(H, t, dx, dy, _sparse(H, dx, dy, K, s), None)
    _meta(H, t, dict(n_interacting=K, strength=s), f"Multinormal {dx} × {dy} (sparse)", nm)


@case("C32", quick=[dict(dx=2, dy=2), dict(dx=3, dy=3)], thorough=[dict(dx=2, dy=3), dict(dx=3, dy=2)], replays=5)
def two_pair(H, dx, dy):
    m = H.mod(TK + "multinormal")
    s = H.real("strength", 0, 6)
    nm, kw = _name(H)
    if H.pick("default", [False, True]):
        t, s = m.task_multinormal_2pair(dx, dy, **kw), 2.0
    else:
        t = m.task_multinormal_2pair(dx, dy, strength=s, **kw)
    _gauss(H, t, dx, dy, _sparse(H, dx, dy, 2, s), None)
    _meta(H, t, dict(n_interacting=2, strength=s), f"Multinormal {dx} × {dy} (2-pair)", nm)


def _lvm(H, dx, dy, K, a, l, b, e):
    """correlation of X_i = a U + b U_X + (l Z_i or e V_i) + E_i, likewise Y"""
    def var(i):
        return a * a + b * b + (l * l if i < K else e * e) + 1.0

    d = dx + dy
    side = [(0, i) for i in range(dx)] + [(1, i) for i in range(dy)]
    sd = [H.np.sqrt(var(i)) for _, i in side]
    out = []
    for p, (s, i) in enumerate(side):
        r = []
        for q, (u, j) in enumerate(side):
            c = 1.0 if p == q else (a * a + (b * b if s == u else 0.0) + (l * l if i == j and s != u and i < K else 0.0)) / (sd[p] * sd[q])
            r.append(c)
        out.append(r)
    return out


@case("C32", quick=[dict(dx=a, dy=b, K=k) for a, b, k in ((1, 1, 1), (1, 1, 0), (2, 1, 1), (1, 2, 1), (1, 2, 0))], thorough=[dict(dx=a, dy=b, K=k) for a, b, k in ((2, 2, 1), (2, 2, 2))], replays=6)
def lvm(H, dx, dy, K):
    m = H.mod(TK + "multinormal")
    a, l, b, e = H.real("alpha", 0, 3), H.real("lambd", 0, 4), H.real("beta", 0, 3), H.real("eta", 0, 4)
    nm, kw = _name(H)
    if H.pick("give", ["all", "fewer"]) == "all":
        kw.update(beta=b, eta=e)
    else:
        b, e = 0.0, l
    t = m.task_multinormal_lvm(dim_x=dx, dim_y=dy, n_interacting=K, alpha=a, lambd=l, **kw)
    cov = _lvm(H, dx, dy, K, a, l, b, e)
    H.true(t.dim_x == dx and t.dim_y == dy, "the stated dimensions")
    H.eq(t.mutual_information, _mi_formula(H, cov, dx, dy), "the mutual information of that distribution")
    _gauss(H, t, dx, dy, cov, None, mi=False)
    got = t.params
    want = dict(dim_x=dx, dim_y=dy, n_interacting=K, alpha=a, lambd=l, beta_x=b, beta_y=b, eta_x=e, eta_y=e, epsilon_x=1.0, epsilon_y=1.0)
    H.true(set(got) == set(want), "the parameters are recorded")
    for k, v in want.items():
        H.eq(got[k], v, f"the parameter {k} is recorded")
    H.true(t.name == (nm or f"Multinormal {dx} × {dy} (LVM)"), "the task's name")


# --------------------------------------------------------------------------------------------- Student
def _student(H, make, dx, dy, disp, df, correction=True):
    rv = StudentT(H)
    if H.symbolic:
        H.stub("scipy.stats.multivariate_t", rv)
    m = H.mod(TK + "student")
    t = make(m)
    n = 2
    seed = H.seed()
    x, y = t.sample(n, seed)
    H.true(tuple(x.shape) == (n, dx) and tuple(y.shape) == (n, dy), "the stated dimensions")
    H.true(t.dim_x == dx and t.dim_y == dy, "the stated dimensions")
    if H.symbolic:
        H.true(len(rv.calls) == 1, "one joint draw")
        c = rv.calls[0]
        H.eq(c["loc"], H.vec([0.0] * (dx + dy)), "zero location")
        H.eq(H.np.asarray(c["shape"]), H.mat(disp), "the stated dispersion")
        H.eq(c["df"], df, "the stated degrees of freedom")
    else:
        _t_law(H, t, seed, "int", _np.zeros(dx + dy), _np.asarray([[float(v) for v in r] for r in disp]), df)
    normal = _mi_formula(H, disp, dx, dy)
    s = H.mod("bmi.samplers")
    H.eq(t.mutual_information, normal + s.SplitStudentT.mi_correction_function(df=df, dim_x=dx, dim_y=dy), "the mutual information of that distribution")
    return t


def _df(H):
    return H.pick("df", [1, 2, 3, 7])


@case("C32", quick=[dict(dx=a, dy=b) for a, b in DIM], thorough=[dict(dx=3, dy=4)], replays=5)
def student_identity(H, dx, dy):
    df = _df(H)
    nm, kw = _name(H)
    d = dx + dy
    t = _student(H, lambda m: m.task_student_identity(dx, dy, df, **kw), dx, dy, [[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)], df)
    _meta(H, t, dict(dof=df), f"Student-t {dx} × {dy} (dof={df})", nm)


@case("C32", quick=[dict(dx=a, dy=b) for a, b in DIM], thorough=[dict(dx=1, dy=3)], replays=5)
def student_dense(H, dx, dy):
    df = _df(H)
    nm, kw = _name(H)
    d = dx + dy
    r = H.real("off_diag", -0.95 / (d - 1), 0.97)
    if H.pick("default", [False, True]):
        r = 0.5
    else:
        kw["off_diag"] = r
    disp = _dense(d, r)
    t = _student(H, lambda m: m.task_student_dense(dx, dy, df, **kw), dx, dy, disp, df)
    _meta(H, t, dict(dof=df, off_diag=r, dispersion=disp), f"Student-t {dx} × {dy} (dof={df}, dense)", nm)


@case("C32", quick=[dict(dx=a, dy=b, K=k, pair=p) for a, b, k, p in ((1, 1, 1, 0), (1, 2, 0, 0), (2, 1, 1, 0), (2, 2, 2, 0), (2, 2, 2, 1), (3, 3, 2, 1))], thorough=[dict(dx=3, dy=2, K=2, pair=p) for p in (0, 1)],
      replays=5)
def student_sparse(H, dx, dy, K, pair):
    df = _df(H)
    nm, kw = _name(H)
    s = H.real("strength", 0, 6)
    if H.pick("default", [False, True]):
        s = 2.0
    else:
        kw["strength"] = s
    if not pair:
        kw["n_interacting"] = K
    t = _student(H, lambda m: (m.task_student_2pair if pair else m.task_student_sparse)(dx, dy, df, **kw), dx, dy, _sparse(H, dx, dy, K, s), df)
    _meta(H, t, dict(dof=df, n_interacting=K, strength=s), f"Student-t {dx} × {dy} (dof={df}, {'2-pair' if pair else 'sparse'})", nm)


# --------------------------------------------------------------------------------------------- bimodal
@case("C32", quick=[{}], replays=3)
def bimodal(H):
    """each coordinate of the correlated Gaussian pair, mapped so that it follows the two-bump law with the same rank"""
    b = H.mod(TK + "bivariate_normal")
    if H.symbolic:
        _invert(H)
    m = H.mod(TK + "bimodal_gaussians")
    r = H.real("rho", -0.95, 0.95)
    if H.pick("default", [False, True]):
        t, r = m.task_bimodal_gaussians(), 0.75
    else:
        t = m.task_bimodal_gaussians(gaussian_correlation=r)
    g = b.task_bivariate_normal(gaussian_correlation=r)
    cdf = H.mod("bmi.transforms").normal_cdf
    n = 2 if H.symbolic else 60
    seed = H.seed()
    x, y = t.sample(n, seed)
    u, v = g.sample(n, seed)
    H.true(tuple(x.shape) == (n, 1) and tuple(y.shape) == (n, 1) and t.dim_x == 1 and t.dim_y == 1, "the stated dimensions")
    if not H.symbolic:
        from scipy.stats import norm

        cdf = norm.cdf
        x, y, u, v = (_np.asarray(a, dtype=float) for a in (x, y, u, v))
    for i in range(n):
        if not H.symbolic and max(abs(u[i, 0]), abs(v[i, 0])) > 3:
            continue
        H.eq(0.3 * cdf(x[i, 0]) + 0.7 * cdf(x[i, 0] - 5.0), cdf(u[i, 0]), "X has the ranks of the Gaussian X and the law 0.3 N(0,1) + 0.7 N(5,1)", tol=1e-4)
        H.eq(0.5 * cdf(y[i, 0] + 1.0) + 0.5 * cdf(y[i, 0] - 3.0), cdf(v[i, 0]), "Y has the ranks of the Gaussian Y and the law 0.5 N(-1,1) + 0.5 N(3,1)", tol=1e-4)
    H.eq(t.mutual_information, -0.5 * H.np.log(1.0 - r * r), "the mutual information of the Gaussian pair")
    _meta(H, t, dict(gaussian_correlation=r), "Bimodal 1 × 1", None)


def _invert(H):
    """numerical inversion (C12's subject) stands for an exact inverse"""
    def invert(f, *a, **k):
        memo = []

        def one(u):
            for w, z in memo:
                if not (w - u).t:
                    return z
            z = H.real(f"inverse{len(done)}", -10, 10)
            done.append(z)
            H.assume(f(z) == u)
            memo.append((u, z))
            return z

        def inv(u):
            from engine import sarr as A
            from engine import sym as S

            if getattr(u, "shape", ()) != ():
                return A.emap(inv, u)
            return one(S.lift(A.un0(A.asarr(u))))

        return inv

    done = []
    for mod in ("bmi.transforms", "bmi.transforms._invert_cdf"):
        M = H.mod(mod)
        for n in ("invert_cdf", "invert_mono"):
            if hasattr(M, n):
                setattr(M, n, invert)
