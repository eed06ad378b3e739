"""Mixture benchmark tasks: the model behind each task."""
import inspect
import math

import numpy as _np

from checks._common import kid
from engine.harness import case

TK = "bmi.benchmark.tasks.mixtures"


class Spy:
    """records the models wrapped into samplers; symbolically their samples are arbitrary (a function of size and seed)"""

    def __init__(self, H, log=None):
        self.H, self.made = H, []
        cls = H.mod("bmi.samplers._tfp._wrapper").BMMSampler
        init, sample = cls.__init__, cls.sample
        sig = inspect.signature(init)
        me = self

        def new_init(s, *a, **k):
            b = sig.bind(s, *a, **k)
            b.apply_defaults()
            init(s, *a, **k)
            me.made.append(dict(b.arguments, sampler=s, memo={}))

        def new_sample(s, n_points, rng):
            if not H.symbolic:
                return sample(s, n_points, rng)
            rec = next(r for r in me.made if r["sampler"] is s)
            key = (int(n_points), kid(H, rng))
            if key not in rec["memo"]:
                j = len(rec["memo"])
                rec["memo"][key] = (H.jarray(f"x{j}", (int(n_points), s.dim_x), -3, 3), H.jarray(f"y{j}", (int(n_points), s.dim_y), -3, 3))
            return rec["memo"][key]

        def mi(s):
            return 0.5

        self.mixes = []
        if H.symbolic:
            cls.__init__, cls.sample, cls.mutual_information = new_init, new_sample, mi
            for mod in ("bmi.samplers._tfp", "bmi.samplers._tfp._core"):
                M = H.mod(mod)
                M.mixture = self.watch(M.mixture)
        else:
            H.patch(cls, "__init__", new_init)
            H.patch(cls, "mutual_information", mi)
        self.m = H.mod(TK)

    def watch(self, fn):
        sig = inspect.signature(fn)

        def mixture(*a, **k):
            b = sig.bind(*a, **k).arguments
            b["components"] = list(b["components"])
            out = fn(**b)
            self.mixes.append((out, b))
            return out

        return mixture

    def mixed(self, dist):
        """(proportion, component) pairs if the model is exactly one mixture of joint models (mixtures themselves are C14's subject)"""
        for out, b in self.mixes:
            if out is dist:
                p = self.H.np.asarray(b["proportions"])
                return [(p[i], c) for i, c in enumerate(b["components"])]
        return None


def _log_pdf(H, z, mean, cov, pairs=()):
    """log-density of a Gaussian whose covariance couples only the given disjoint pairs of coordinates"""
    e = 0.0
    det = 1.0
    done = set()
    for i, j in pairs:
        a, b, c = cov[i][i], cov[j][j], cov[i][j]
        d = a * b - c * c
        u, v = z[i] - mean[i], z[j] - mean[j]
        e = e + (b * u * u - 2.0 * c * u * v + a * v * v) / d
        det = det * d
        done |= {i, j}
    for i in range(len(mean)):
        if i not in done:
            u = z[i] - mean[i]
            e = e + u * u / cov[i][i]
            det = det * cov[i][i]
    return -0.5 * e - 0.5 * H.np.log(det) - 0.5 * len(mean) * H.np.log(2.0 * H.np.pi)


def _parts(comps, idx):
    idx = list(idx)
    for w, m, c, pairs in comps:
        q = [(idx.index(i), idx.index(j)) for i, j in pairs if i in idx and j in idx]
        yield w, [m[i] for i in idx], [[c[i][j] for j in idx] for i in idx], q


def _law(H, spy, dist, dx, dy, comps):
    """comps: (weight, mean, covariance, coupled pairs)"""
    H.true(dist.dim_x == dx and dist.dim_y == dy, "the stated dimensions")
    d = dx + dy
    _, m, c, _ = comps[H.pick("near", list(range(len(comps))))]
    o = [H.real(f"offset{i}", -3, 3) for i in range(d)]
    z = [m[i] + (c[i][i] if isinstance(c[i][i], float) else 1.0) ** 0.5 * o[i] for i in range(d)]
    x, y = H.jmat([z[:dx]]), H.jmat([z[dx:]])
    rec = spy.mixed(dist) if H.symbolic else None
    for name, pt, idx in (("dist_joint", H.jnp.hstack([x, y]), range(d)), ("dist_x", x, range(dx)), ("dist_y", y, range(dx, d))):
        label = f"the density of the documented mixture ({name})"
        q = [z[i] for i in idx]
        want = [(w, _log_pdf(H, q, *a)) for w, *a in _parts(comps, idx)]
        if rec is not None:
            # the wrapped model is one mixture: the same proportions and components
            got = [(w, getattr(g, name).log_prob(pt)[0]) for w, g in rec]
            H.true(len(got) == len(want), "the number of components")
            for w, l in want:
                same = [g for g in got if abs(H.probe(g[1] - l)) < 1e-6 * (1 + abs(H.probe(l))) and abs(H.probe(g[0] - w)) < 1e-9]
                g = same[0] if same else got[0]
                got.remove(g)
                H.eq(g[0], w, label)
                H.eq(g[1], l, label)
        elif H.symbolic:
            H.eq(H.np.exp(getattr(dist, name).log_prob(pt)[0]), _total([w * H.np.exp(l) for w, l in want]), label)
        else:
            from scipy.special import logsumexp

            l = float(logsumexp([float(l) for _, l in want], b=[float(w) for w, _ in want]))
            H.eq(float(getattr(dist, name).log_prob(pt)[0]), l, label, tol=1e-3, atol=5e-3)


def _total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def _one(H, spy, task, size, dx, dy):
    H.true(len(spy.made) == 1, "one model is wrapped")
    r = spy.made[0]
    H.eq(r["mi_estimate_sample"], size, "mutual information is estimated with the requested sample size")
    H.true(r["mi"] is None, "mutual information is estimated")
    H.true(task.dim_x == dx and task.dim_y == dy, "the stated dimensions")
    return r["dist"]


def _about(H, task, tid, name, params):
    from engine.harness import text_equal

    H.true(text_equal(task.id, tid) if H.symbolic else task.id == tid, "the identifier")
    H.true(text_equal(task.name, name) if H.symbolic else task.name == name, "the name")
    got = task.params
    H.true(set(got) == set(params), "the recorded parameters")
    for k, v in params.items():
        H.eq(got[k], v, f"the recorded parameter {k}")


def _size(H):
    if H.pick("give_size", [True, False]):
        n = H.int("mc_size", 1, 300000)
        return n, dict(mi_estimate_sample=n)
    return 100_000, {}


def _raw(H, task, n, seed):
    """the sample of the task is the sample of its model"""
    return task.sample(n, seed)


@case("C38", quick=[{}], replays=5)
def x(H):
    s = Spy(H)
    n, kw = _size(H)
    r = H.real("rho", -0.97, 0.97)
    if H.pick("default", [False, True]):
        r = 0.9
        t = s.m.task_x(**kw)
    else:
        t = s.m.task_x(gaussian_correlation=r, **kw)
    d = _one(H, s, t, n, 1, 1)
    _law(H, s, d, 1, 1, [(0.5, [0.0, 0.0], [[1.0, q * r], [q * r, 1.0]], [(0, 1)]) for q in (-1.0, 1.0)])
    _about(H, t, f"1v1-X-{r}", "X 1 × 1", dict(gaussian_correlation=r))


def _d(*v):
    return [[v[i] if i == j else 0.0 for j in range(len(v))] for i in range(len(v))]


@case("C38", quick=[{}], replays=5)
def ai(H):
    s = Spy(H)
    n, kw = _size(H)
    t = s.m.task_ai(**kw)
    d = _one(H, s, t, n, 1, 1)
    c = math.sqrt(0.04 * 0.2) * 0.95
    w = 1 / 6
    _law(H, s, d, 1, 1, [(w, [1.0, 0.0], _d(0.01, 0.2), []), (w, [1.0, 1.0], _d(0.05, 0.001), []), (w, [1.0, -1.0], _d(0.05, 0.001), []), (w, [-0.8, -0.2], _d(0.03, 0.001), []),
                      (w, [-1.2, 0.0], [[0.04, c], [c, 0.2]], [(0, 1)]), (w, [-0.4, 0.0], [[0.04, -c], [-c, 0.2]], [(0, 1)])])
    _about(H, t, "1v1-AI", "AI 1 × 1", {})


@case("C38", quick=[{}], thorough=[dict(n=3)], replays=5)
def galaxy(H, n=2):
    s = Spy(H)
    size, kw = _size(H)
    v, dist = H.real("speed", -2, 2), H.real("distance", 0, 5)
    which = H.pick("default", ["none", "speed", "distance"])
    if which != "speed":
        kw["speed"] = v
    else:
        v = 0.5
    if which != "distance":
        kw["distance"] = dist
    else:
        dist = 3.0
    t = s.m.task_galaxy(**kw)
    d = _one(H, s, t, size, 2, 1)
    h = dist / 2
    _law(H, s, d, 2, 1, [(0.5, [q * h] * 3, _d(1.0, 1.0, 1.0), []) for q in (-1.0, 1.0)])
    _about(H, t, f"2v1-galaxy-{v}-{dist}", "Galaxy 2 × 1", dict(speed=v, distance=dist))
    seed = H.seed()
    px, py = t.sample(n, seed)
    bx, by = s.made[0]["sampler"].sample(n, seed)
    f = H.mod("bmi.transforms").Spiral(H.jmat([[0.0, -1.0], [1.0, 0.0]]), speed=v)
    H.eq(py, by, "Y is the model's")
    for i in range(n):
        H.eq(px[i], f(bx[i]), "X is the model's, spiralled with the given speed", tol=1e-4)


@case("C38", quick=[dict(k=k) for k in (1, 3, 6)], thorough=[dict(k=12, n=3)], replays=5)
def waves(H, k, n=2):
    s = Spy(H)
    size, kw = _size(H)
    A, f = H.real("amplitude", 0, 9), H.real("frequency", 0, 6)
    which = H.pick("default", ["none", "amplitude", "frequency"])
    if which != "amplitude":
        kw["wave_amplitude"] = A
    else:
        A = 5.0
    if which != "frequency":
        kw["wave_frequency"] = f
    else:
        f = 3.0
    t = s.m.task_waves(n_components=k, **kw)
    d = _one(H, s, t, size, 2, 1)
    _law(H, s, d, 2, 1, [(1.0 / k, [1.5 * i, 0.0, 1.5 * (i % 4)], _d(0.1, 1.0, 0.1), []) for i in range(k)])
    _about(H, t, f"2v1-waves-{k}-{A}-{f}", "Waves 2 × 1", dict(n_components=k, wave_amplitude=A, wave_frequency=f))
    seed = H.seed()
    px, py = t.sample(n, seed)
    bx, by = s.made[0]["sampler"].sample(n, seed)
    H.eq(py, by, "Y is the model's")
    for i in range(n):
        H.eq(px[i, 0], 0.1 * (bx[i, 0] + A * H.np.sin(f * bx[i, 1])) - 0.8, "the row of blobs is bent by the sine wave", tol=1e-4)
        H.eq(px[i, 1], 0.5 * bx[i, 1], "the row of blobs is bent by the sine wave", tol=1e-4)


@case("C38", quick=[{}], replays=3)
def waves_default(H):
    s = Spy(H)
    t = s.m.task_waves()
    H.true(t.params["n_components"] == 12, "twelve blobs by default")
    d = _one(H, s, t, 100_000, 2, 1)
    _law(H, s, d, 2, 1, [(1.0 / 12, [1.5 * i, 0.0, 1.5 * (i % 4)], _d(0.1, 1.0, 0.1), []) for i in range(12)])


@case("C38", quick=[dict(dx=dx, k=k) for dx, k in ((1, 1), (1, 3), (2, 2), (3, 3))], thorough=[dict(dx=4, k=4), dict(dx=2, k=5)], replays=5)
def concentric(H, dx, k):
    s = Spy(H)
    size, kw = _size(H)
    if k != 3 or H.pick("give_k", [True, False]):
        kw["n_components"] = k
    t = s.m.task_concentric_multinormal(dx, **kw)
    d = _one(H, s, t, size, dx, 1)
    _law(H, s, d, dx, 1, [(1.0 / k, [0.0] * dx + [float(i)], _d(*([float(i * i)] * dx + [0.0001])), []) for i in range(1, k + 1)])
    _about(H, t, f"{dx}v1-concentric_gaussians-{k}", f"Concentric {dx} × 1", dict(n_components=k))


@case("C38", quick=[dict(dx=dx, dy=dy, K=k) for dx, dy, k in ((1, 1, 1), (1, 2, 0), (2, 1, 1), (2, 2, 2))], thorough=[dict(dx=2, dy=3, K=2), dict(dx=3, dy=3, K=1)], replays=6)
def inliers(H, dx, dy, K):
    """(1-f) : f mixture of a sparse Gaussian and the product of its marginals"""
    s = Spy(H)
    size, kw = _size(H)
    f, st = H.real("inlier_fraction", 0.001, 0.999), H.real("strength", 0, 5)
    which = H.pick("default", ["none", "fraction", "strength"])
    if which != "fraction":
        kw["inlier_fraction"] = f
    else:
        f = 0.2
    if which != "strength":
        kw["strength"] = st
    else:
        st = 2.0
    if K != 2 or H.pick("give_K", [True, False]):
        kw["n_interacting"] = K
    t = s.m.task_multinormal_sparse_w_inliers(dx, dy, **kw)
    d = _one(H, s, t, size, dx, dy)
    c = st * st / (1.0 + st * st)
    cov = _d(*[1.0] * (dx + dy))
    one = [list(r) for r in cov]
    for i in range(K):
        cov[i][dx + i] = cov[dx + i][i] = c
    z = [0.0] * (dx + dy)
    _law(H, s, d, dx, dy, [(1.0 - f, z, cov, [(i, dx + i) for i in range(K)]), (f, z, one, [])])
    _about(H, t, f"mult-sparse-w-inliers-{dx}-{dy}-{K}-{st}-{f}", f"Multinormal {dx} × {dy} (sparse, {f:.0%} inliers)",
           dict(n_interacting=K, strength=st, inlier_fraction=f))


@case("C38", quick=[{}], replays=4)
def rejects(H):
    s = Spy(H)
    f = H.real("f", -2, 3)
    H.assume((f < -0.001) | (f > 1.001) if H.symbolic else f < -0.001 or f > 1.001)
    H.raises(Exception, lambda: s.m.task_multinormal_sparse_w_inliers(2, 2, inlier_fraction=f), "fractions outside [0, 1] are rejected")
    H.raises(Exception, lambda: s.m.task_waves(n_components=0), "no components are rejected")
    H.raises(Exception, lambda: s.m.task_concentric_multinormal(2, n_components=0), "no components are rejected")
