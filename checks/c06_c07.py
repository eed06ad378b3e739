"""Additive-noise and discrete-continuous samplers."""
import math

import numpy as _np

from engine.harness import case


def _is_int(H, v):
    """values are whole numbers"""
    if H.symbolic:
        return H.np.floor(v) == v
    return _np.floor(_np.asarray(v, dtype=float)) == _np.asarray(v, dtype=float)


def _flat(H, a):
    return H.np.reshape(H.np.asarray(a), (-1,))


@case("C06", quick=[dict(n=1, how="int"), dict(n=3, how="int"), dict(n=3, how="key")],
      thorough=[dict(n=n, how=h) for n in (1, 2, 3, 5, 8) for h in ("int", "key", "npint")], reseed=3)
def sample(H, n, how):
    sm = H.mod("bmi.samplers")
    eps = H.real("eps", 0, 6, lo_open=True)
    s = sm.AdditiveUniformSampler(epsilon=eps)
    seed = H.seed()
    rng = seed if how == "int" else H.key(seed) if how == "key" else (_np.int64(seed) if not H.symbolic else seed)
    x, y = s.sample(n, rng)
    H.true(tuple(x.shape) == (n, 1) and tuple(y.shape) == (n, 1), "shapes")
    H.le(0.0, x, "X >= 0")
    H.le(x, 1.0, "X <= 1")
    H.le(y - x, eps, "noise <= eps", tol=1e-5)
    H.le(-eps, y - x, "noise >= -eps", tol=1e-5)
    if H.symbolic:
        H.independent(x, y - x, "noise does not reuse X's randomness")
    else:
        xs, ns = [], []
        for k in range(12):
            a, b = s.sample(n, H.key(k) if how == "key" else k)
            xs.append(_np.asarray(a).ravel())
            ns.append(_np.asarray(b - a).ravel() / eps)
        H.independent(_np.concatenate(xs), _np.concatenate(ns), "noise does not reuse X's randomness")
    x2, y2 = s.sample(n, rng)
    H.eq(x2, x, "reproducible")
    H.eq(y2, y, "reproducible")
    H.eq((s.dim_x, s.dim_y), (1, 1), "dimensions")


@case("C06", quick=[dict(n=400)], reseed=2)
def sample_distribution(H, n):
    """the noise fills the whole band and X the whole interval: affine images of standard uniforms with full range"""
    sm = H.mod("bmi.samplers")
    eps = H.real("eps", 0.05, 4)
    if H.symbolic:
        n = 2
    x, y = sm.AdditiveUniformSampler(epsilon=eps).sample(n, H.seed())
    if H.symbolic:
        us = [d for d in H.draws]
        H.true(len(us) >= 2, "two draws")
        for i in range(n):
            _affine_range(H, x[i, 0], 0.0, 1.0, "X spans [0, 1]")
            _affine_range(H, y[i, 0] - x[i, 0], -eps, eps, "noise spans [-eps, eps]")
    else:
        v = _np.asarray(y - x, dtype=float).ravel()
        H.true(v.min() < -0.9 * eps and v.max() > 0.9 * eps, "noise spans [-eps, eps]")
        x = _np.asarray(x).ravel()
        H.true(x.min() < 0.1 and x.max() > 0.9, "X spans [0, 1]")


def _affine_range(H, v, lo, hi, label):
    """v is an affine function of one uniform draw with range (lo, hi)"""
    from engine import calc
    from engine import sym as S

    at = [a for a in S.var_atoms(S.lift(v)) if (S.ATOMS[a].name or "").startswith("rng:uniform")]
    if len(at) != 1:
        H.true(False, label)
        return
    a = at[0]
    v0, v1, vh = (calc.subst(S.lift(v), {a: S.R_const(t)}) for t in (0, 1, S.Fraction(1, 2)))
    H.eq(v0 + v1, 2 * vh, label)
    if H.truth(v0 < v1):
        H.eq(v0, lo, label)
        H.eq(v1, hi, label)
    else:
        H.eq(v1, lo, label)
        H.eq(v0, hi, label)


@case("C06")
def mi_formula(H):
    sm = H.mod("bmi.samplers")
    eps = H.real("eps", 0, None, lo_open=True)
    mi = sm.AdditiveUniformSampler(epsilon=eps).mutual_information()
    if H.truth(eps <= 0.5):
        H.eq(mi, eps - H.np.log(2 * eps), "narrow band", tol=1e-4)
    else:
        H.eq(mi, 1 / (4 * eps), "wide band")
    H.lt(0.0, mi, "positive")
    H.eq(sm.AdditiveUniformSampler.mutual_information_function(eps), mi, "static function agrees")


@case("C06")
def mi_at_half(H):
    sm = H.mod("bmi.samplers")
    H.eq(sm.AdditiveUniformSampler(epsilon=0.5).mutual_information(), 0.5, "value at 1/2")


@case("C06", quick=[dict(reg="low"), dict(reg="high"), dict(reg="mixed")])
def mi_decreasing(H, reg):
    sm = H.mod("bmi.samplers")
    f = sm.AdditiveUniformSampler.mutual_information_function
    if reg == "low":
        a, b = H.real("a", 0, 0.5, lo_open=True), H.real("b", 0, 0.5, lo_open=True)
    elif reg == "high":
        a, b = H.real("a", 0.5, None, lo_open=True), H.real("b", 0.5, None, lo_open=True)
    else:
        a, b = H.real("a", 0, 0.5, lo_open=True), H.real("b", 0.5, None, lo_open=True)
    H.assume(a < b)
    H.le(f(b), f(a), "decreasing in epsilon")


@case("C06")
def rejects(H):
    sm = H.mod("bmi.samplers")
    eps = H.real("eps", None, 0)
    H.raises(ValueError, lambda: sm.AdditiveUniformSampler(epsilon=eps), "non-positive epsilon rejected")
    H.raises(ValueError, lambda: sm.AdditiveUniformSampler(epsilon=0), "zero epsilon rejected")


# ------------------------------------------------------------------------------------------------ C07
@case("C07", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=n) for n in (1, 2, 3)], reseed=3)
def uniform_mixture(H, n):
    sm = H.mod("bmi.samplers")
    m = H.int("m", 1, 50)
    disc = H.pick("discrete", [True, False])
    s = sm.DiscreteUniformMixtureSampler(n_discrete=m, use_discrete_x=disc)
    H.eq((s.dim_x, s.dim_y), (1, 1), "dimensions")
    if not H.symbolic:
        n = 60 * n
    x, y = s.sample(n, H.seed())
    H.true(tuple(x.shape) == (n, 1) and tuple(y.shape) == (n, 1), "shapes")
    H.true(_is_int(H, x), "X is whole")
    if not H.symbolic:
        H.true((_np.asarray(x).dtype.kind in "iu") == disc, "X integer iff requested")
    H.le(0, x, "X >= 0")
    H.le(x, m - 1, "X <= m-1")
    H.le(0.0, y - x, "Y >= X")
    H.lt(y - x, 2.0, "Y - X < 2")
    H.independent(x, y - x, "noise independent of X")
    if H.symbolic:
        for i in range(n):
            _affine_range(H, y[i, 0] - x[i, 0], 0.0, 2.0, "noise spans [0, 2)")
        los = [d for d in H.draws if d[0] == "draw" and d[1] == "randint"]
        H.true(len(los) == 1, "one categorical draw")
    else:
        N = 20000  # enough points to see a bound that is off by a little: the chance of a false alarm is e^-30
        xb, yb = s.sample(N, H.seed())
        v = _np.asarray(yb, dtype=float).ravel() - _np.asarray(xb, dtype=float).ravel()
        H.true(v.max() > 2 - 60 / N - 1e-5 and v.min() < 60 / N + 1e-5, "noise spans [0, 2)", detail=f"{v.min()} {v.max()}")
        cnt = _np.bincount(_np.asarray(xb).ravel().astype(int), minlength=m)
        H.true(bool((_np.abs(cnt - N / m) < 7 * _np.sqrt(N / m) + 7).all()), "X uniform", detail=str(cnt[:5]))
        if m <= 4:
            H.true(set(_np.asarray(x).ravel().astype(int)) == set(range(m)), "all categories occur")
    mi = s.mutual_information()
    H.eq(mi, H.np.log(m) - (m - 1) / m * math.log(2), "mutual information")


@case("C07")
def uniform_mixture_rejects(H):
    sm = H.mod("bmi.samplers")
    m = H.int("m", -20, 0)
    H.raises(ValueError, lambda: sm.DiscreteUniformMixtureSampler(n_discrete=m), "rejected")
    r = H.pick("others", [[], [3], [1], [0], [-2], [2, 4], [-1, -1]])
    at = H.pick("at", list(range(len(r) + 1)))
    H.raises(ValueError, lambda: sm.MultivariateDiscreteUniformMixtureSampler(ns_discrete=r[:at] + [m] + r[at:]), "rejected")


@case("C07", quick=[dict(k=1, n=1), dict(k=2, n=2), dict(k=3, n=2)], thorough=[dict(k=k, n=n) for k in (1, 2, 3, 4) for n in (1, 2, 3)], reseed=2)
def multivariate_mixture(H, k, n):
    sm = H.mod("bmi.samplers")
    ms = [H.int(f"m{i}", 1, 40) for i in range(k)]
    disc = H.pick("discrete", [True, False])
    s = sm.MultivariateDiscreteUniformMixtureSampler(ns_discrete=ms, use_discrete_x=disc)
    H.eq((s.dim_x, s.dim_y), (k, k), "dimensions")
    if not H.symbolic:
        n = 40 * n
    x, y = s.sample(n, H.seed())
    H.true(tuple(x.shape) == (n, k) and tuple(y.shape) == (n, k), "shapes")
    H.true(_is_int(H, x), "X is whole")
    for i in range(k):
        H.le(0, x[:, i], "X >= 0")
        H.le(x[:, i], ms[i] - 1, "X <= m-1")
        H.le(0.0, y[:, i] - x[:, i], "Y >= X")
        H.lt(y[:, i] - x[:, i], 2.0, "Y - X < 2")
        for j in range(i):
            H.independent(x[:, i], x[:, j], "coordinates independent")
            H.independent(y[:, i], y[:, j], "coordinates independent")
            H.independent(y[:, i] - x[:, i], x[:, j], "coordinates independent")
    if not H.symbolic:
        H.true((_np.asarray(x).dtype.kind in "iu") == disc, "X integer iff requested")
    want = 0.0
    for m in ms:
        want = want + H.np.log(m) - (m - 1) / m * math.log(2)
    H.eq(s.mutual_information(), want, "mutual information", tol=1e-3)


@case("C07", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=n) for n in (1, 2, 3, 4)], reseed=3)
def zip_sampler(H, n):
    sm = H.mod("bmi.samplers")
    p = H.real("p", 0, 1, hi_open=True)
    disc = H.pick("discrete", [True, False])
    s = sm.ZeroInflatedPoissonizationSampler(p=p, use_discrete_y=disc)
    H.eq((s.dim_x, s.dim_y), (1, 1), "dimensions")
    if not H.symbolic:
        n = 400
    x, y = s.sample(n, H.seed())
    H.true(tuple(x.shape) == (n, 1) and tuple(y.shape) == (n, 1), "shapes")
    H.le(0.0, x, "X >= 0")
    H.le(0, y, "Y >= 0")
    H.true(_is_int(H, y), "Y is whole")
    if not H.symbolic:
        H.true((_np.asarray(y).dtype.kind in "iu") == disc, "Y integer iff requested")
        z = float(_np.mean(_np.asarray(y) == 0))
        x = _np.asarray(x, dtype=float).ravel()
        want = p + (1 - p) * float(_np.mean(_np.exp(-x)))
        H.true(abs(z - want) < 5 * math.sqrt(0.25 / n) + 0.01, "zero-inflated with probability p", detail=f"{z} vs {want}")
        H.true(abs(float(_np.mean(_np.asarray(y, dtype=float))) - (1 - p) * x.mean()) < 6 * math.sqrt(3.0 / n) + 0.02, "Poisson with rate X")
        xb, yb = (_np.asarray(a, dtype=float).ravel() for a in s.sample(40000, H.seed()))
        for lo, hi in ((0, 0.5), (0.5, 2), (2, 4), (4, 40)):
            q = xb[(xb >= lo) & (xb < hi)]
            w = yb[(xb >= lo) & (xb < hi)]
            sd = math.sqrt(float(_np.sum((1 - p) * (q + q * q) - ((1 - p) * q) ** 2)))
            H.true(abs(float(_np.sum(w) - (1 - p) * _np.sum(q))) < 7 * sd + 1e-3, "rate is X", detail=f"{lo}..{hi}: {w.mean()} vs {(1 - p) * q.mean()}")
        return
    from engine import overrides as O
    from engine import sym as S

    def rng_names(v, kind):
        return [S.ATOMS[a].name for a in S.var_atoms(S.lift(v)) if (S.ATOMS[a].name or "").startswith("rng:" + kind)]

    for i in range(n):
        xs = rng_names(x[i, 0], "")
        H.true(len(xs) == 1 and xs[0].startswith("rng:exponential"), "X is one standard exponential draw")
        H.eq(x[i, 0], next(iter(H.ex.fresh[k] for k in xs)), "X is one standard exponential draw")
        pos = rng_names(y[i, 0], "poisson")
        H.true(len(pos) == 1, "one Poisson draw per point")
        if len(pos) != 1:
            continue
        H.eq(O.RATE_OF[pos[0]], x[i, 0], "rate is X")
        pv = H.ex.fresh[pos[0]]
        us = rng_names(y[i, 0], "bernoulli") + rng_names(y[i, 0], "uniform")
        H.true(len(us) == 1, "one mask draw per point")
        if len(us) != 1:
            continue
        u = H.ex.fresh[us[0]]
        H.true((y[i, 0] == 0) | (y[i, 0] == pv), "either 0 or the Poisson draw")
        # the mask is an event of probability 1 - p: {u < 1 - p}, or {u >= p} if it does not contain u = 0
        from engine import calc

        uid = next(a for a in S.var_atoms(S.lift(y[i, 0])) if S.ATOMS[a].name == us[0])
        y0 = calc.subst(S.lift(y[i, 0]), {uid: S.R_const(0)})
        event = (u < 1 - p) if H.truth(y0 == pv) else (u >= p)
        H.true(S.iff(y[i, 0] == pv, event | (pv == 0)), "kept with probability 1 - p")
    rest = {q for i in range(n) for q in rng_names(y[i, 0], "") if not q.startswith("rng:exponential")}
    H.true(len(rest) == 2 * n, "mask and counts use their own randomness")
    H.independent(x, [H.ex.fresh[k] for k in sorted(rest)], "mask and counts use their own randomness")


@case("C07")
def zip_mi(H):
    sm = H.mod("bmi.samplers")
    p = H.real("p", 0, 1, hi_open=True)
    s = sm.ZeroInflatedPoissonizationSampler(p=p)
    H.eq(s.mutual_information(), (1 - p) * 0.3012, "approximation")
    t = H.pick("t", list(range(1, 13)) + [40])
    S = sum(math.log(k) * 2.0 ** -k for k in range(1, t + 1))
    H.eq(s.mutual_information(truncation=t), (1 - p) * (2 * math.log(2) - 0.5772156649015329 - S), "truncated series", tol=1e-3)


@case("C07")
def zip_rejects(H):
    sm = H.mod("bmi.samplers")
    p = H.real("p")
    H.assume((p < 0) | (p >= 1))
    H.raises(ValueError, lambda: sm.ZeroInflatedPoissonizationSampler(p=p), "rejected")
    H.raises(ValueError, lambda: sm.ZeroInflatedPoissonizationSampler(p=1), "rejected")
    H.true(not H.fails(lambda: sm.ZeroInflatedPoissonizationSampler(p=0)), "zero accepted")
