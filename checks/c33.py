"""Gaussian-mixture estimator: configuration reaching the sampler, model, posterior draws, averaging."""
import inspect

from checks._common import kid
from engine.harness import case

M = "bmi.estimators.external.gmm"


def _sum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


class Run:
    """stands in for NumPyro's sampler: records what it is asked to do and returns the given posterior draws"""

    def __init__(self, H, posterior=None):
        self.H, self.posterior, self.made, self.runs = H, posterior, [], []
        if not H.symbolic:
            H.mod(M)  # (imported with the real functions, which are put back afterwards)
        H.stub("numpyro.infer.NUTS", lambda model, *a, **k: ("nuts", model, a, k))
        H.stub("numpyro.infer.MCMC", self.mcmc)

    def mcmc(self, sampler, *, num_warmup, num_samples, num_chains=1, thinning=1, **k):
        owner = self

        class MCMC:
            def run(self, rng_key, *args, extra_fields=(), init_params=None, **kw):
                fn = sampler[1]
                b = inspect.signature(fn).bind(*args, **kw)
                b.apply_defaults()
                owner.runs.append(dict(key=kid(owner.H, rng_key), model=fn, **b.arguments))
                self.posterior = owner.posterior

            def get_samples(self, group_by_chain=False):
                return dict(self.posterior)

        self.made.append(dict(num_warmup=num_warmup, num_samples=num_samples, num_chains=num_chains, thinning=thinning))
        return MCMC()


@case("C33", quick=[dict(n=2, dx=1, dy=1), dict(n=3, dx=1, dy=2), dict(n=3, dx=2, dy=1)], thorough=[dict(n=5, dx=2, dy=2), dict(n=4, dx=1, dy=3)],
      max_paths=2000, replays=8)
def configuration(H, n, dx, dy):
    """any configuration, any sample"""
    run = Run(H)
    g = H.mod(M)
    kw = {}
    want = dict(n_components=10, alpha=None, mcmc_num_warmup=1000, mcmc_num_samples=1000, mi_estimate_num_samples=1000)
    names = ("n_components", "mcmc_num_warmup", "mcmc_num_samples", "mi_estimate_num_samples")
    given = H.pick("given", ["none", "all", *names])
    for k in names:
        if given in ("all", k):
            kw[k] = want[k] = H.int(k, 1, 5000)
    a = H.pick("alpha", ["default", "none", "value"])
    if a == "none":
        kw["alpha"] = None
    elif a == "value":
        kw["alpha"] = want["alpha"] = H.real("alpha_value", 0.05, 10)
    std = H.pick("standardize", ["default", True, False])
    if std != "default":
        kw["standardize"] = std
    std = std is not False
    want["n_thinned_samples"] = want["mcmc_num_samples"]
    if H.pick("give_thinned", [False, True]):
        kw["n_thinned_samples"] = want["n_thinned_samples"] = H.int("n_thinned", 1, 1000)
    est = g.GMMEstimator(**kw)
    p = est.parameters()
    for k, v in want.items():
        H.eq(getattr(p, k), v, f"parameters() reports the configured {k}")
    H.true(bool(p.standardize) == std, "parameters() reports standardize")
    x, y = H.array("x", (n, dx), -3, 3), H.array("y", (n, dy), -3, 3)
    cols = []
    for r, d in ((x, dx), (y, dy)):
        for j in range(d):
            c = [r[i, j] for i in range(n)]
            if std:
                m = _sum(c) / n
                v = _sum((e - m) * (e - m) for e in c) / n
                H.assume(v > (0 if H.symbolic else 0.01))
                s = H.np.sqrt(v)
                c = [(e - m) / s for e in c]
            cols.append(c)
    est.run_mcmc(x, y)
    H.true(len(run.made) == 1 and len(run.runs) == 1, "the posterior is sampled once")
    mk, r = run.made[0], run.runs[0]
    H.eq(mk["num_warmup"], want["mcmc_num_warmup"], "warm-up length as configured")
    H.eq(mk["num_samples"], want["mcmc_num_samples"], "number of posterior draws as configured")
    H.true(mk["num_chains"] == 1 and mk["thinning"] == 1, "one unthinned chain")
    H.true(r["model"] is g.model, "the documented model is fitted")
    H.eq(r["K"], want["n_components"], "number of components as configured")
    if want["alpha"] is None:
        if r["alpha"] is not None:
            H.eq(r["alpha"] * want["n_components"], 1, "concentration as configured")
    else:
        H.true(r["alpha"] is not None, "concentration as configured")
        H.eq(r["alpha"], want["alpha"], "concentration as configured")
    data = r["data"]
    H.true(tuple(data.shape) == (n, dx + dy), "the joined sample is fitted")
    for i in range(n):
        for j in range(dx + dy):
            H.eq(data[i, j], cols[j][i], "the (standardised) joined sample is fitted, X before Y", tol=1e-3)


# ------------------------------------------------------------------------------------------------ the model
class Recorder:
    """stands in for numpyro: hands out the given values at the sample sites and records the distributions"""

    def __init__(self, H, values):
        self.H, self.values, self.sites, self.det, self.plates = H, values, {}, {}, []
        H.stub("numpyro.sample", self.sample)
        H.stub("numpyro.plate", self.plate)
        H.stub("numpyro.deterministic", self.deterministic)
        for nm in ("Dirichlet", "MultivariateNormal", "HalfCauchy", "LKJCholesky", "MixtureSameFamily", "Categorical"):
            H.stub(f"numpyro.distributions.{nm}", self.maker(nm))

    ARGS = {"Dirichlet": ("concentration",), "MultivariateNormal": ("loc", "covariance_matrix", "precision_matrix", "scale_tril"), "HalfCauchy": ("scale",),
            "LKJCholesky": ("dim", "concentration", "sample_method"), "MixtureSameFamily": ("mixing_distribution", "component_distribution"),
            "Categorical": ("probs", "logits")}

    def maker(self, nm):
        def make(*a, **k):
            d = dict(zip(self.ARGS[nm], a))
            d.update(k)
            d["kind"] = nm
            return d

        return make

    def sample(self, name, d, obs=None, **k):
        self.sites[name] = dict(d=d, obs=obs, plates=list(self.plates))
        return obs if obs is not None else self.values[name]

    def deterministic(self, name, v):
        self.det[name] = v
        return v

    def plate(self, name, size, *a, **k):
        owner = self

        class Plate:
            def __enter__(self):
                owner.plates.append(size)

            def __exit__(self, *e):
                owner.plates.pop()

        return Plate()


@case("C33", quick=[dict(K=1, d=2), dict(K=2, d=2), dict(K=3, d=3)], thorough=[dict(K=4, d=3), dict(K=2, d=4)], replays=6)
def model(H, K, d):
    """the likelihood is the mixture whose means, covariances and proportions are recorded, with the given concentration"""
    g = H.mod(M)
    pi = H.jvec([H.real(f"pi{k}", 0.05, 1) for k in range(K)])
    mu = H.jarray("mu", (K, d), -3, 3)
    tau = H.jarray("tau", (d, K), 0.2, 3)
    L = H.jmat([[0.0] * d] * d)
    Ls = [[[H.real(f"L{k}_{i}_{j}", -1, 1) if j <= i else 0.0 for j in range(d)] for i in range(d)] for k in range(K)]
    L = H.jnp.stack([H.jmat(m) for m in Ls])
    rec = Recorder(H, dict(pi=pi, mu=mu, tau=tau, L_omega=L))
    data = H.jarray("data", (2, d), -3, 3)
    kw, alpha = {}, None
    a = H.pick("alpha", ["default", "none", "value"])
    if a == "none":
        kw["alpha"] = None
    elif a == "value":
        alpha = kw["alpha"] = H.real("alpha_value", 0.05, 10)
    g.model(data, K=K, **kw)
    s = rec.sites["pi"]
    conc = s["d"]["concentration"]
    H.true(s["d"]["kind"] == "Dirichlet" and tuple(conc.shape) == (K,), "one proportion per component")
    for k in range(K):
        H.eq(conc[k] * (1 if alpha is not None else K), 1 if alpha is None else alpha, "Dirichlet concentration as configured (1/K by default)")
    H.true(list(rec.sites["mu"]["plates"]) == [K], "one mean per component")
    H.true(tuple(rec.sites["mu"]["d"]["loc"].shape) == (d,), "means in the joint space")
    cov = rec.det["cov"]
    H.true(tuple(cov.shape) == (K, d, d), "one covariance per component")
    o = rec.sites["obs"]
    H.true(o["obs"] is not None and tuple(o["obs"].shape) == (2, d), "the data is observed")
    H.eq(o["obs"], data, "the data is observed")
    mix, comp = o["d"]["mixing_distribution"], o["d"]["component_distribution"]
    H.eq(mix["probs"], pi, "mixing proportions are those recorded")
    H.eq(comp["loc"], mu, "component means are those recorded")
    if comp.get("scale_tril") is not None:
        t = comp["scale_tril"]
        for k in range(K):
            for i in range(d):
                for j in range(d):
                    H.eq(cov[k, i, j], _sum(t[k, i, m] * t[k, j, m] for m in range(d)), "component covariances are those recorded", tol=1e-4)
    else:
        H.eq(comp["covariance_matrix"], cov, "component covariances are those recorded", tol=1e-4)


# ------------------------------------------------------------------------------------------------ posterior draws
def _posterior(H, S, K, dx, dy):
    d = dx + dy
    mu = H.jarray("mu", (S, K, d), -2, 2)
    cov, pi = [], []
    for s in range(S):
        row = []
        for k in range(K):
            # any scales, a correlation structure of its own for every draw and component
            sd = [H.real(f"sd{s}_{k}_{i}", 0.5, 3) for i in range(d)]
            L = [[0.8 if i == j else (0.1 * (s + 1) * (1 if (i + j + k) % 2 else -1) if j < i else 0.0) for j in range(d)] for i in range(d)]
            a = [[sd[i] * sd[j] * round(sum(L[i][m] * L[j][m] for m in range(d)), 6) for j in range(d)] for i in range(d)]
            row.append(H.jmat(a))
        cov.append(H.jnp.stack(row))
        w = [H.real(f"w{s}_{k}", 0.1, 2) for k in range(K)]
        t = _sum(w)
        pi.append(H.jvec([v / t for v in w]))
    return dict(mu=mu, cov=H.jnp.stack(cov), pi=H.jnp.stack(pi))


def _fitted(H, run, dx, dy, **kw):
    g = H.mod(M)
    est = g.GMMEstimator(standardize=False, **kw)
    n = 2
    est.run_mcmc(H.mat([[float(i + j) for j in range(dx)] for i in range(n)]), H.mat([[float(i * j) for j in range(dy)] for i in range(n)]))
    return est


@case("C33", quick=[dict(S=2, K=1, dx=1, dy=1), dict(S=2, K=2, dx=1, dy=1), dict(S=1, K=2, dx=1, dy=2), dict(S=2, K=1, dx=2, dy=1)],
      thorough=[dict(S=3, K=2, dx=2, dy=1), dict(S=2, K=3, dx=1, dy=1)])
def draws(H, S, K, dx, dy):
    """every posterior draw becomes the mixture with that draw's parameters"""
    post = _posterior(H, S, K, dx, dy)
    run = Run(H, post)
    est = _fitted(H, run, dx, dy, n_components=K, mcmc_num_samples=S)
    B = H.mod("bmi.samplers._tfp")
    s = H.pick("draw", list(range(S)))
    got = est.get_bmm_distribution(s)
    H.true((got.dim_x, got.dim_y) == (dx, dy), "dimensions of X and Y")
    x, y = H.jarray("px", (1, dx), -2, 2), H.jarray("py", (1, dy), -2, 2)
    e = H.np.exp
    comps = [B.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, mean=post["mu"][s, k], covariance=post["cov"][s, k]) for k in range(K)]
    for nm, pt in (("dist_joint", H.jnp.hstack([x, y])), ("dist_x", x), ("dist_y", y)):
        want = _sum(post["pi"][s, k] * e(getattr(c, nm).log_prob(pt)[0]) for k, c in enumerate(comps))
        H.eq(e(getattr(got, nm).log_prob(pt)[0]), want, f"mixture of the draw's components ({nm})", tol=2e-3, atol=1e-6)


def _patch(H, mods, name, obj):
    """replace a function of the code under test wherever it is reached from"""
    if H.symbolic:
        for m in mods:
            mm = H.mod(m)
            if hasattr(mm, name):
                setattr(mm, name, obj)
    else:
        H.mod(M)
        H.stub(f"{mods[0]}.{name}", obj)


class Watch:
    """stands in for the Monte-Carlo estimate: an arbitrary value per posterior draw"""

    def __init__(self, H, S):
        self.H, self.calls = H, []
        self.mi = [H.real(f"mi{s}", 0, 4) for s in range(S)]
        _patch(H, ["bmi.samplers._tfp", "bmi.samplers._tfp._core"], "monte_carlo_mi_estimate", self)

    def __call__(self, key, dist, n):
        # the draw is recognised by its (distinct) mean
        H = self.H
        v = [H.probe(dist.dist_x.log_prob(H.jmat([[10.0 * s]]))[0]) for s in range(len(self.mi))]
        s = max(range(len(v)), key=lambda i: v[i])
        self.calls.append((kid(H, key), s, n))
        val = self.mi[s] if H.symbolic else H.jnp.asarray(self.mi[s])
        return val, 0.0


def _separate(H, S):
    """posterior with one component per draw: draw s sits at 10 s"""
    return dict(mu=H.jnp.asarray([[[10.0 * s, 0.0]] for s in range(S)]), cov=H.jnp.asarray([[[[1.0, 0.5], [0.5, 1.0]]]] * S),
                pi=H.jnp.asarray([[1.0]] * S))


AV = [dict(S=s, T=t, call=c) for s, t in ((1, 1), (2, 1), (2, 2), (3, 2), (4, 1)) for c in ("estimate", "posterior")] + [dict(S=2, T=1, call="twice"), dict(S=3, T=3, call="estimate")]


@case("C33", quick=AV, thorough=AV + [dict(S=4, T=4, call="posterior"), dict(S=5, T=2, call="twice")], max_paths=3000, replays=8)
def average(H, S, T, call):
    """the estimate averages over distinct draws, each with a fresh key and the configured sample size"""
    run, w = Run(H, _separate(H, S)), Watch(H, S)
    g = H.mod(M)
    how = H.pick("how", ["constructor", "argument"] + (["default"] if S == T else []))
    N = H.int("mi_estimate_num_samples", 1, 3000)
    kw = dict(n_thinned_samples=T) if how == "constructor" else {}
    est = g.GMMEstimator(key=S + T, standardize=False, n_components=1, mcmc_num_samples=S, mi_estimate_num_samples=N, **kw)
    x, y = H.mat([[0.0], [1.0]]), H.mat([[2.0], [-1.0]])
    kw = dict(n_thinned_samples=T) if how == "argument" else {}
    seen = []
    for _ in range(2 if call == "twice" else 1):
        w.calls.clear()
        got = est.get_posterior_mi(x, y, **kw) if call == "posterior" else est.estimate(x, y, **kw)
        H.true(len(w.calls) == T, "one evaluation per thinned draw")
        used = [s for _, s, _ in w.calls]
        H.true(len(set(used)) == T, "the thinned draws are distinct")
        for _, _, n in w.calls:
            H.eq(n, N, "configured number of Monte-Carlo samples")
        seen += [k for k, _, _ in w.calls]
        if call == "posterior":
            H.true(tuple(got.shape) == (T,), "one value per thinned draw")
            for i, s in enumerate(used):
                H.eq(got[i], w.mi[s], "the draw's own mutual information", tol=1e-4)
        else:
            H.eq(got * T, _sum(w.mi[s] for s in used), "the estimate is the mean over the thinned draws", tol=1e-4)
    H.true(len(set(seen)) == len(seen), "a fresh key for every evaluation")
    H.true(not (set(seen) & {r["key"] for r in run.runs}), "a fresh key for every evaluation")
    H.true(len({r["key"] for r in run.runs}) == len(run.runs), "a fresh key for every fit")


@case("C33", quick=[{}], replays=6)
def single(H):
    """one draw's mutual information: its own mixture, configured or given sample size and key"""
    S = 3
    w = Watch(H, S)
    run = Run(H, _separate(H, S))
    N = H.int("mi_estimate_num_samples", 1, 3000)
    est = _fitted(H, run, 1, 1, n_components=1, mcmc_num_samples=S, mi_estimate_num_samples=N)
    s = H.pick("draw", [0, 1, 2])
    kw = {}
    if H.pick("give_n", [False, True]):
        kw["mc_samples"] = n = H.int("mc_samples", 1, 3000)
    else:
        n = N
    k = None
    if H.pick("give_key", [False, True]):
        k = kw["key"] = H.jax.random.PRNGKey(5)
    a = est.get_sample_mi(s, **kw)
    H.eq(a, w.mi[s], "the draw's own mutual information", tol=1e-4)
    H.true(w.calls[0][1] == s, "the draw's own mixture")
    H.eq(w.calls[0][2], n, "configured number of Monte-Carlo samples")
    if k is not None:
        H.true(w.calls[0][0] == kid(H, k), "the given key is used")
    else:
        est.get_sample_mi(s)
        H.true(w.calls[0][0] != w.calls[1][0], "a fresh key for every evaluation")


@case("C33", quick=[dict(S=2, d1=(1, 1), d2=(2, 1)), dict(S=1, d1=(1, 2), d2=(2, 1))], replays=6)
def refit(H, S, d1, d2):
    """after another fit (of data of other dimensions) the draws are those of the last fit"""
    K = 2
    run = Run(H, _posterior(H, S, K, *d1))
    est = _fitted(H, run, *d1, n_components=K, mcmc_num_samples=S)
    est.get_bmm_distribution(0)
    old = {k: H.jnp.asarray(v) for k, v in run.posterior.items()}
    (dx, dy), n = d2, 3
    lift = lambda a, *sh: H.jnp.asarray(a).reshape(sh)  # noqa: E731
    D = dx + dy
    mu = lift([0.5 * i - 1.0 for i in range(S * K * D)], S, K, D)
    cov = lift([(1.0 + 0.25 * (s + k)) * (i == j) for s in range(S) for k in range(K) for i in range(D) for j in range(D)], S, K, D, D)
    post = dict(mu=mu, cov=cov, pi=old["pi"])
    run.posterior = post
    est.run_mcmc(H.mat([[float(i + j) for j in range(dx)] for i in range(n)]), H.mat([[float(i * j) for j in range(dy)] for i in range(n)]))
    s = H.pick("draw", list(range(S)))
    got = est.get_bmm_distribution(s)
    H.true((got.dim_x, got.dim_y) == d2, "dimensions of the last fit")
    B = H.mod("bmi.samplers._tfp")
    x, y = H.jarray("px", (1, dx), -2, 2), H.jarray("py", (1, dy), -2, 2)
    e = H.np.exp
    comps = [B.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, mean=post["mu"][s, k], covariance=post["cov"][s, k]) for k in range(K)]
    for nm, pt in (("dist_joint", H.jnp.hstack([x, y])), ("dist_x", x), ("dist_y", y)):
        want = _sum(post["pi"][s, k] * e(getattr(c, nm).log_prob(pt)[0]) for k, c in enumerate(comps))
        H.eq(e(getattr(got, nm).log_prob(pt)[0]), want, f"mixture of the last fit's draw ({nm})", tol=2e-3, atol=1e-6)


@case("C33", quick=[dict(S=3, T=1)], replays=3)
def all_draws(H, S, T):
    """no posterior draw is left out: over many estimates each of them is used"""
    run, w = Run(H, _separate(H, S)), Watch(H, S)
    est = H.mod(M).GMMEstimator(key=7, standardize=False, n_components=1, mcmc_num_samples=S, n_thinned_samples=T)
    x, y = H.mat([[0.0], [1.0]]), H.mat([[2.0], [-1.0]])
    used = set()
    for _ in range(1 if H.symbolic else 36):
        w.calls.clear()
        est.estimate(x, y)
        used |= {s for _, s, _ in w.calls}
    if H.symbolic:  # (a choice of the solver: every draw is reached by some path; see the replays)
        H.true(used <= set(range(S)), "every posterior draw is used")
    else:
        H.true(used == set(range(S)), "every posterior draw is used")


@case("C33", quick=[{}])
def shapes(H):
    """parameters whose shapes do not fit together are rejected"""
    g = H.mod(M)
    K, dx, dy = H.pick("K", [1, 2]), H.pick("dx", [1, 2]), H.pick("dy", [1, 2])
    k1, d1, k2, d2, d3 = H.pick("means", [1, 2]), H.pick("means.dim", [2, 3]), H.pick("covs", [1, 2]), H.pick("rows", [2, 3]), H.pick("cols", [2, 3])
    jnp = H.jnp
    f = lambda: g.sample_into_bmm_distribution(means=jnp.zeros((k1, d1)), covariances=jnp.asarray([[[float(i == j) for j in range(d3)] for i in range(d2)]] * k2),  # noqa: E731
                                               proportions=jnp.ones(K) / K, dim_x=dx, dim_y=dy)
    if (k1, d1) == (K, dx + dy) and (k2, d2, d3) == (K, dx + dy, dx + dy):
        q = f()
        H.true((q.dim_x, q.dim_y) == (dx, dy), "fitting shapes are accepted")
    else:
        H.raises(Exception, f, "parameters of other shapes are rejected")


@case("C33", quick=[{}])
def unfitted(H):
    g = H.mod(M)
    Run(H, _separate(H, 2))
    est = g.GMMEstimator(n_components=1, mcmc_num_samples=2)
    i = H.pick("draw", [0, 1])
    H.raises(ValueError, lambda: est.get_bmm_distribution(i), "using the posterior before fitting raises an error")
    H.raises(ValueError, lambda: est.get_sample_mi(i), "using the posterior before fitting raises an error")
    H.raises(ValueError, lambda: est.get_sample_mi(i, mc_samples=10, key=H.jax.random.PRNGKey(0)), "using the posterior before fitting raises an error")
