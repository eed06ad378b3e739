"""Mixtures, products, transforms and Monte-Carlo mutual information of joint models."""
import numpy as _np

from checks._common import kid
from engine.harness import case


def _diag(H, tag, n):
    """a diagonal normal with any mean and any scale"""
    d = H.tfp.distributions
    return d.MultivariateNormalDiag(loc=H.jvec([H.real(f"{tag}.m{i}", -2, 2) for i in range(n)]),
                                    scale_diag=H.jvec([H.real(f"{tag}.s{i}", 0.5, 2) for i in range(n)]))


def _joint(H, tag, dx, dy):
    """a joint model whose three densities are unrelated normals (the mixture law does not need them to be consistent)"""
    C = H.mod("bmi.samplers._tfp._core")
    return C.JointDistribution(dist_joint=_diag(H, tag + "j", dx + dy), dist_x=_diag(H, tag + "x", dx), dist_y=_diag(H, tag + "y", dy),
                               dim_x=dx, dim_y=dy, analytic_mi=H.real(tag + ".mi", 0, 3))


def _props(H, k):
    w = [H.real(f"w{i}", 0.1, 5) for i in range(k)]
    t = sum(w[1:], w[0])
    return [v / t for v in w]


@case("C14", quick=[dict(k=1, dx=1, dy=1), dict(k=2, dx=1, dy=2), dict(k=3, dx=1, dy=1)],
      thorough=[dict(k=k, dx=a, dy=b) for k in (1, 2, 3, 4) for a, b in ((1, 1), (1, 2), (2, 1))])
def mixture(H, k, dx, dy):
    """components with arbitrary (unrelated) joint and marginal densities, arbitrary proportions, arbitrary point"""
    C = H.mod("bmi.samplers._tfp._core")
    comps = [_joint(H, f"c{i}", dx, dy) for i in range(k)]
    ps = _props(H, k)
    m = C.mixture(proportions=H.jvec(ps), components=comps)
    x, y = H.jarray("x", (1, dx), -2, 2), H.jarray("y", (1, dy), -2, 2)
    xy = H.jnp.hstack([x, y])
    e = H.np.exp
    for name, pt in (("dist_joint", xy), ("dist_x", x), ("dist_y", y)):
        want = 0.0
        for p, c in zip(ps, comps):
            want = want + p * e(getattr(c, name).log_prob(pt)[0])
        H.eq(e(getattr(m, name).log_prob(pt)[0]), want, f"proportion-weighted sum of densities ({name})", tol=2e-3, atol=1e-6)
    if k > 1 or m.analytic_mi is not None and comps[0].analytic_mi is None:
        H.eq(m.analytic_mi, None, "no analytic mutual information")
    elif m.analytic_mi is not None:  # (a mixture of one component is that component)
        H.eq(m.analytic_mi, comps[0].analytic_mi, "no analytic mutual information but the component's own")
    H.eq((m.dim_x, m.dim_y), (dx, dy), "dimensions")
    g = m.pmi(x, y)
    H.eq(g[0], m.dist_joint.log_prob(xy)[0] - m.dist_x.log_prob(x)[0] - m.dist_y.log_prob(y)[0], "pointwise mutual information", tol=2e-3)


@case("C14", quick=[dict(k=3), dict(k=4)], thorough=[dict(k=6)])
def small_share(H, k):
    """one component with a small share among many"""
    C = H.mod("bmi.samplers._tfp._core")
    comps = [_joint(H, f"c{i}", 1, 1) for i in range(k)]
    w = [H.real("w0", 1e-5, 0.02)] + [H.real(f"w{i}", 1, 2) for i in range(1, k)]
    t = sum(w[1:], w[0])
    ps = [v / t for v in w]
    m = C.mixture(proportions=H.jvec(ps), components=comps)
    x, y = H.jarray("x", (1, 1), -2, 2), H.jarray("y", (1, 1), -2, 2)
    e = H.np.exp
    for name, pt in (("dist_joint", H.jnp.hstack([x, y])), ("dist_x", x), ("dist_y", y)):
        want = 0.0
        for p, c in zip(ps, comps):
            want = want + p * e(getattr(c, name).log_prob(pt)[0])
        H.eq(e(getattr(m, name).log_prob(pt)[0]), want, f"proportion-weighted sum of densities ({name})", tol=2e-4, atol=1e-6)
    H.eq(m.analytic_mi, None, "no analytic mutual information")


@case("C14", quick=[{}])
def mixture_rejects(H):
    C = H.mod("bmi.samplers._tfp._core")
    dims = [(1, 1), (1, 2), (2, 1)]
    a, b = H.pick("a", dims), H.pick("b", dims)
    n = H.pick("n", [1, 2, 3])
    comps = [_joint(H, "c0", *a), _joint(H, "c1", *b)]
    ps = H.jvec([1.0 / n] * n)
    if a == b and n == 2:
        m = C.mixture(proportions=ps, components=comps)
        H.eq((m.dim_x, m.dim_y), a, "dimensions")
    else:
        H.raises(ValueError, lambda: C.mixture(proportions=ps, components=comps), "mismatched dimensions or counts rejected")
    H.raises(ValueError, lambda: C.mixture(proportions=ps, components=[]), "no components rejected")


@case("C14", quick=[{}])
def mixture_rejects_three(H):
    C = H.mod("bmi.samplers._tfp._core")
    dims = [H.pick(f"dims{i}", [(1, 1), (1, 2), (2, 1)]) for i in range(3)]
    comps = [_joint(H, f"c{i}", *d) for i, d in enumerate(dims)]
    ps = H.jvec(_props(H, 3))
    if dims[0] == dims[1] == dims[2]:
        H.eq((C.mixture(proportions=ps, components=comps).dim_x, C.mixture(proportions=ps, components=comps).dim_y), dims[0], "dimensions")
    else:
        H.raises(ValueError, lambda: C.mixture(proportions=ps, components=comps), "mismatched dimensions or counts rejected")


@case("C14", quick=[dict(kind="generator"), dict(kind="tuple"), dict(kind="list-props")])
def mixture_inputs(H, kind):
    C = H.mod("bmi.samplers._tfp._core")
    comps = [_joint(H, f"c{i}", 1, 1) for i in range(2)]
    ps = _props(H, 2)
    keep = list(comps)
    m = C.mixture(proportions=ps if kind == "list-props" else H.jvec(ps), components=(c for c in keep) if kind == "generator" else tuple(keep))
    x = H.jarray("x", (1, 1), -2, 2)
    e = H.np.exp
    H.eq(e(m.dist_y.log_prob(x)[0]), ps[0] * e(keep[0].dist_y.log_prob(x)[0]) + ps[1] * e(keep[1].dist_y.log_prob(x)[0]), "proportion-weighted sum of densities (dist_y)", tol=2e-3, atol=1e-6)


@case("C14", quick=[dict(dx=1, dy=1), dict(dx=1, dy=2), dict(dx=2, dy=1)], thorough=[dict(dx=a, dy=b) for a in (1, 2, 3) for b in (1, 2, 3)])
def product(H, dx, dy):
    P = H.mod("bmi.samplers._tfp")
    dxx, dyy = _diag(H, "x", dx), _diag(H, "y", dy)
    p = P.ProductDistribution(dxx, dyy)
    x, y = H.jarray("px", (2, dx), -2, 2), H.jarray("py", (2, dy), -2, 2)
    lx, ly = dxx.log_prob(x), dyy.log_prob(y)
    H.eq(p.pmi(x, y), H.jvec([0.0, 0.0]), "pointwise mutual information is 0", tol=1e-3)
    j = p.dist_joint.log_prob(H.jnp.hstack([x, y]))
    for i in range(2):
        H.eq(j[i], lx[i] + ly[i], "joint density is the product", tol=2e-3)
        H.eq(p.dist_x.log_prob(x)[i], lx[i], "X marginal", tol=2e-3)
        H.eq(p.dist_y.log_prob(y)[i], ly[i], "Y marginal", tol=2e-3)
    H.eq(p.analytic_mi, 0.0, "analytic mutual information is 0")
    H.eq((p.dim_x, p.dim_y), (dx, dy), "dimensions")


BIJ = ["none", "shift", "scale", "exp", "chain", "sinh", "permute"]


def _bij(H, name, tag, n):
    b = H.tfp.bijectors
    if name == "none":
        return None
    if name == "shift":
        return b.Shift(H.jvec([H.real(f"{tag}.sh{i}", -2, 2) for i in range(n)]))
    if name == "scale":
        return b.Scale(H.jvec([H.real(f"{tag}.sc{i}", 0.5, 3) * (-1 if i % 2 else 1) for i in range(n)]))
    if name == "exp":
        return b.Exp()
    if name == "sinh":
        return b.Sinh()
    if name == "permute":
        return b.Permute(list(reversed(range(n))))
    return b.Chain([b.Shift(H.jvec([H.real(f"{tag}.sh{i}", -2, 2) for i in range(n)])), b.Scale(H.jvec([H.real(f"{tag}.sc{i}", 0.5, 3) for i in range(n)]))])


def _fwd(b, v):
    return v if b is None else b.forward(v)


def _ldj(H, b, v):
    if b is None:
        return H.jvec([0.0] * v.shape[0])
    return b.forward_log_det_jacobian(v, event_ndims=1) + H.jnp.zeros(v.shape[0])


COMBOS_Q = [("shift", "none"), ("none", "scale"), ("exp", "chain"), ("scale", "exp"), ("none", "none"), ("sinh", "permute")]


@case("C14", quick=[dict(f=f, g=g, dx=1, dy=2) for f, g in COMBOS_Q], thorough=[dict(f=f, g=g, dx=a, dy=b) for f in BIJ for g in BIJ for a, b in ((1, 2), (2, 1))])
def transform(H, f, g, dx, dy):
    C = H.mod("bmi.samplers._tfp._core")
    D = _joint(H, "d", dx, dy)
    bf, bg = _bij(H, f, "f", dx), _bij(H, g, "g", dy)
    kw = {}
    if bf is not None:
        kw["x_transform"] = bf
    if bg is not None:
        kw["y_transform"] = bg
    T = C.transform(dist=D, **kw)
    x, y = H.jarray("x", (1, dx), -1.5, 1.5), H.jarray("y", (1, dy), -1.5, 1.5)
    fx, gy = _fwd(bf, x), _fwd(bg, y)
    H.eq(T.pmi(fx, gy)[0], D.pmi(x, y)[0], "pointwise mutual information at corresponding points", tol=3e-3, scale=4)
    H.eq(T.analytic_mi, D.analytic_mi, "analytic value unchanged")
    H.eq((T.dim_x, T.dim_y), (dx, dy), "dimensions unchanged")
    lx, ly = _ldj(H, bf, x), _ldj(H, bg, y)
    H.eq(T.dist_x.log_prob(fx)[0], D.dist_x.log_prob(x)[0] - lx[0], "change of variables (X)", tol=3e-3, scale=4)
    H.eq(T.dist_y.log_prob(gy)[0], D.dist_y.log_prob(y)[0] - ly[0], "change of variables (Y)", tol=3e-3, scale=4)
    H.eq(T.dist_joint.log_prob(H.jnp.hstack([fx, gy]))[0], D.dist_joint.log_prob(H.jnp.hstack([x, y]))[0] - lx[0] - ly[0], "change of variables (joint)", tol=3e-3, scale=4)


# ------------------------------------------------------------------------------------------------ C15
class FakeDist:
    """an arbitrary distribution: its log-density is an arbitrary function of the point, its draws are arbitrary points"""

    def __init__(self, H, name, dim):
        self.H, self.name, self.dim, self.calls, self.memo = H, name, dim, [], {}

    def sample(self, sample_shape=(), seed=None, **kw):
        H = self.H
        shape = tuple(int(v) for v in (sample_shape if isinstance(sample_shape, (tuple, list)) else (sample_shape,)))
        k = (shape, kid(H, seed))
        self.calls.append(k)
        if k not in self.memo:
            self.memo[k] = H.jarray(f"{self.name}.d{len(self.memo)}", shape + (self.dim,), -2, 2)
        return self.memo[k]

    def log_prob(self, v, **kw):
        H = self.H
        assert v.ndim == 2 and v.shape[1] == self.dim, "log-density asked at points of another space"
        return H.jvec([H.uf(f"lp_{self.name}", v[i], lo=-4, hi=4) for i in range(v.shape[0])])

    def prob(self, v, **kw):
        return self.H.jnp.exp(self.log_prob(v))


def _fake(H, dx, dy, mi=None, name="d"):
    C = H.mod("bmi.samplers._tfp._core")
    return C.JointDistribution(dist_joint=FakeDist(H, name + "j", dx + dy), dist_x=FakeDist(H, name + "x", dx), dist_y=FakeDist(H, name + "y", dy), dim_x=dx, dim_y=dy,
                               analytic_mi=mi)


def _stats(H, D, x, y):
    n = x.shape[0]
    lp = D.dist_joint.log_prob(H.jnp.hstack([x, y]))
    lx, ly = D.dist_x.log_prob(x), D.dist_y.log_prob(y)
    p = [lp[i] - lx[i] - ly[i] for i in range(n)]
    m = sum(p[1:], p[0]) / n
    v = sum(((q - m) * (q - m) for q in p[1:]), (p[0] - m) * (p[0] - m)) / n
    return p, m, v


@case("C15", quick=[dict(dx=1, dy=2, n=2), dict(dx=2, dy=1, n=3)], thorough=[dict(dx=a, dy=b, n=n) for a in (1, 2, 3) for b in (1, 2) for n in (1, 2, 3, 4)])
def profile(H, dx, dy, n):
    C = H.mod("bmi.samplers._tfp._core")
    D = _fake(H, dx, dy)
    key = H.key(H.seed())
    x, y = D.sample(n, key)
    H.eq(len(D.dist_joint.calls), 1, "one joint draw")
    H.eq(D.dist_joint.calls[0], ((n,), kid(H, key)), "n points drawn with the given key")
    xy = D.dist_joint.memo[D.dist_joint.calls[0]]
    H.eq(x, xy[:, :dx], "X is the first dim_x coordinates")
    H.eq(y, xy[:, dx:], "Y is the rest")
    p, m, v = _stats(H, D, x, y)
    g = D.pmi(x, y)
    H.eq(g, H.jvec(p), "pointwise mutual information", tol=1e-3)
    r = C.pmi_profile(key=key, dist=D, n=n)
    H.eq(r, H.jvec(p), "profile is the PMI of the draw with that key", tol=1e-3)
    mi, se = C.monte_carlo_mi_estimate(key=key, dist=D, n=n)
    H.eq(mi, m, "estimate is the mean of the profile", tol=1e-3)
    H.eq(se * se * n, v, "standard error is the deviation over sqrt(n)", tol=2e-3)
    H.true(se >= 0, "standard error non-negative")


@case("C15", quick=[{}])
def rejects(H):
    C = H.mod("bmi.samplers._tfp._core")
    W = H.mod("bmi.samplers._tfp")
    D = _fake(H, 1, 1)
    n = H.int("n", -3, 2)
    if H.symbolic:
        from engine import sym as S

        n = S.concretize_int(n)
    key = H.key(3)
    if n < 1:
        H.raises(ValueError, lambda: D.sample(n, key), "fewer than one point rejected")
        H.raises(ValueError, lambda: W.BMMSampler(D).sample(n, key), "fewer than one point rejected")
        H.raises(ValueError, lambda: C.pmi_profile(key=key, dist=D, n=n), "fewer than one point rejected")
        H.raises(ValueError, lambda: W.BMMSampler(D, mi_estimate_sample=n), "sample size below one rejected")
        H.raises(ValueError, lambda: W.BMMSampler(D, mi=0.5, mi_estimate_sample=n), "sample size below one rejected")
    else:
        x, y = D.sample(n, key)
        H.true(tuple(x.shape) == (n, 1) and tuple(y.shape) == (n, 1), "shapes")
        H.true(not H.fails(lambda: W.BMMSampler(D, mi_estimate_sample=n)), "sample size of one or more accepted")


@case("C15", quick=[dict(how="int"), dict(how="key")], thorough=[dict(how="int"), dict(how="key"), dict(how="npint")])
def sampler(H, how):
    """no mutual information given: the Monte-Carlo estimate of the configured seed and size, computed once"""
    W = H.mod("bmi.samplers._tfp")
    C = H.mod("bmi.samplers._tfp._core")
    D = _fake(H, 1, 2, mi=H.real("analytic", 0, 2))
    s0 = H.seed("seed0")
    cfg = s0 if how == "int" else H.key(s0)
    n = 3
    s = W.BMMSampler(D, mi_estimate_seed=cfg, mi_estimate_sample=n)
    H.eq((s.dim_x, s.dim_y), (1, 2), "dimensions of the model")
    other = H.seed("seed1")
    early = H.pick("sample_first", [True, False])
    if early:
        s.sample(2, other)
    a = s.mutual_information()
    k = ((n,), kid(H, H.key(s0)))
    H.eq(D.dist_joint.calls[-1], k, "configured seed and sample size")
    nc = len(D.dist_joint.calls)
    _, m, _ = _stats(H, D, D.dist_joint.memo[k][:, :1], D.dist_joint.memo[k][:, 1:])
    H.eq(a, m, "Monte-Carlo estimate", tol=1e-3)
    x, y = s.sample(2, other)
    b = s.mutual_information()
    H.eq(b, a, "repeated calls return the same value")
    H.eq(s.mutual_information(), a, "repeated calls return the same value")
    H.eq(len([c for c in D.dist_joint.calls if c[0] == (n,)]), 1, "computed once")
    kk = ((2,), kid(H, H.key(other)))
    H.eq(D.dist_joint.calls[-1], kk, "samples use the given seed and size")
    H.eq(H.jnp.hstack([x, y]), D.dist_joint.memo[kk], "sample of the model")
    x2, y2 = s.sample(2, H.key(other))
    H.eq(H.jnp.hstack([x2, y2]), H.jnp.hstack([x, y]), "integer seed is its key")
    # two samplers of the same model do not influence each other
    s2 = W.BMMSampler(D, mi_estimate_seed=s0, mi_estimate_sample=2)
    c = s2.mutual_information()
    k2 = ((2,), kid(H, H.key(s0)))
    _, m2, _ = _stats(H, D, D.dist_joint.memo[k2][:, :1], D.dist_joint.memo[k2][:, 1:])
    H.eq(c, m2, "Monte-Carlo estimate", tol=1e-3)
    H.eq(s.mutual_information(), a, "repeated calls return the same value")


@case("C15", quick=[{}])
def given(H):
    W = H.mod("bmi.samplers._tfp")
    D = _fake(H, 1, 1, mi=H.real("analytic", 0, 2))
    mi = H.real("mi", 0, 5) if H.pick("kind", ["any", "zero", "int zero"]) == "any" else H.pick("z", [0.0, 0])
    s = W.BMMSampler(D, mi=mi, mi_estimate_seed=H.seed(), mi_estimate_sample=2)
    H.eq(s.mutual_information(), mi, "given mutual information")
    s.sample(2, 1)
    H.eq(s.mutual_information(), mi, "given mutual information")
    H.eq(len(D.dist_joint.calls), 1, "no Monte-Carlo run")


@case("C15", quick=[dict(model="normal"), dict(model="student"), dict(model="mixture")], replays=4)
def real_models(H, model):
    """with the models of the package"""
    P = H.mod("bmi.samplers._tfp")
    C = H.mod("bmi.samplers._tfp._core")
    r = H.real("rho", -0.9, 0.9)
    cov = H.mat([[1.0, r], [r, 1.0]])
    if model == "normal":
        D = P.MultivariateNormalDistribution(dim_x=1, dim_y=1, covariance=cov)
    elif model == "student":
        D = P.MultivariateStudentDistribution(dim_x=1, dim_y=1, df=5, dispersion=cov)
    else:
        D = C.mixture(H.jvec([0.5, 0.5]), [P.MultivariateNormalDistribution(dim_x=1, dim_y=1, covariance=c) for c in (cov, H.mat([[1.0, 0.0], [0.0, 1.0]]))])
    seed = H.seed()
    key = H.key(seed)
    n = 2
    x, y = D.sample(n, key)
    H.true(tuple(x.shape) == (n, 1) and tuple(y.shape) == (n, 1), "shapes")
    if H.symbolic:
        d = [e for e in H.draws if e[0] == "tfp_sample"]
        H.true(len(d) == 1 and d[0][1] is D.dist_joint and kid(H, d[0][2]) == kid(H, key) and d[0][3] == (n,), "one draw of the joint with the key")
    else:
        z = D.dist_joint.sample(seed=key, sample_shape=(n,))
        H.eq(H.jnp.hstack([x, y]), z, "one draw of the joint with the key")
    s = P.BMMSampler(D, mi_estimate_seed=seed, mi_estimate_sample=n)
    g = D.pmi(x, y)
    H.eq(s.mutual_information(), (g[0] + g[1]) / 2, "Monte-Carlo estimate", tol=1e-3)
    if not H.symbolic and model == "normal":
        big = P.BMMSampler(D, mi_estimate_seed=seed, mi_estimate_sample=20000)
        H.eq(big.mutual_information(), D.analytic_mi, "Monte-Carlo estimate near the analytic value", tol=0.05, atol=0.05)


class AnySize:
    """a stand-in model which notes the size it is asked for and returns a few points"""

    dim_x, dim_y, analytic_mi = 1, 1, None

    def __init__(self, H):
        self.H, self.calls = H, []
        self.p = [H.real(f"pmi{i}", -3, 3) for i in range(3)]

    def sample(self, n_points, key):
        self.calls.append(n_points)
        return self.H.jmat([[0.0], [1.0], [2.0]]), self.H.jmat([[0.0], [1.0], [2.0]])

    def pmi(self, x, y):
        return self.H.jvec(self.p)


@case("C15", quick=[{}])
def sizes(H):
    """any sample size, however large, is requested as it is"""
    C = H.mod("bmi.samplers._tfp._core")
    W = H.mod("bmi.samplers._tfp")
    n = H.int("n", 1, 10**7)
    D = AnySize(H)
    key = H.key(H.seed())
    C.pmi_profile(key=key, dist=D, n=n)
    mi, se = C.monte_carlo_mi_estimate(key=key, dist=D, n=n)
    m = (D.p[0] + D.p[1] + D.p[2]) / 3
    v = _sum3([(q - m) * (q - m) for q in D.p]) / 3
    H.eq(mi, m, "estimate is the mean of the profile", tol=1e-3)
    H.eq(se * se * n, v, "standard error is the deviation over sqrt(n)", tol=2e-3)
    W.BMMSampler(D, mi_estimate_sample=n).mutual_information()
    k = H.int("k", 1, 10**7)
    W.BMMSampler(D, mi_estimate_sample=n).sample(k, key)
    H.true(len(D.calls) == 4, "one draw per request")
    for c, want in zip(D.calls, (n, n, n, k)):
        H.eq(c, want, "the requested number of points is drawn")


def _sum3(v):
    return v[0] + v[1] + v[2]
