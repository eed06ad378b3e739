"""Composite samplers: independent concatenation and transformation of the margins."""
import itertools

from checks._common import fake_sampler, kid
from engine.harness import case

LISTS_Q = [[(1, 1)], [(1, 2), (2, 1)], [(2, 2), (1, 1), (1, 3)]]
LISTS_T = [list(c) for k in (1, 2, 3) for c in itertools.product([(1, 1), (1, 2), (2, 1), (3, 2)], repeat=k)] + [[(1, 1)] * 4, [(1, 2)] * 5]


@case("C08", quick=[dict(dims=d, n=n, how=h) for d in LISTS_Q for n, h in [(1, "int"), (3, "key")]] + [dict(dims=[(1, 1)] * 6, n=1, how="key")],
      thorough=[dict(dims=d, n=n, how=h) for d in LISTS_T for n, h in [(1, "key"), (2, "int"), (4, "key")]], reseed=2)
def concat(H, dims, n, how):
    sm = H.mod("bmi.samplers")
    fs = [fake_sampler(H, f"s{i}", a, b) for i, (a, b) in enumerate(dims)]
    c = sm.IndependentConcatenationSampler(fs)
    H.eq(c.dim_x, sum(a for a, _ in dims), "X dimensions add up")
    H.eq(c.dim_y, sum(b for _, b in dims), "Y dimensions add up")
    H.eq(c.mutual_information(), sum((f.mi for f in fs[1:]), fs[0].mi), "mutual information adds up", atol=1e-4)
    seed = H.seed()
    rng = seed if how == "int" else H.key(seed)
    x, y = c.sample(n, rng)
    H.true(tuple(x.shape) == (n, c.dim_x) and tuple(y.shape) == (n, c.dim_y), "shapes")
    px = py = 0
    for f, (a, b) in zip(fs, dims):
        H.eq(len(f.calls), 1, "every component is sampled once")
        H.eq(f.calls[0][0], n, "components are asked for n points")
        fx, fy = f.memo[(n, f.calls[0][1])]
        H.eq(x[:, px:px + a], fx, "X block in order, row by row")
        H.eq(y[:, py:py + b], fy, "Y block in order, row by row")
        px, py = px + a, py + b
    keys = [f.calls[0][1] for f in fs]
    H.true(len(set(keys)) == len(keys), "components have different keys")
    # equal seeds -> equal samples; an integer seed is the key made of it
    x2, y2 = c.sample(n, rng)
    H.eq(x2, x, "reproducible")
    H.eq(y2, y, "reproducible")
    x3, y3 = c.sample(n, H.key(seed))
    H.eq(x3, x, "integer seed is its key")
    H.eq(y3, y, "integer seed is its key")


@case("C08", quick=[dict(k=2), dict(k=3)], thorough=[dict(k=k) for k in (2, 3, 4, 5)], reseed=3)
def concat_real(H, k):
    """with real samplers: blocks do not share randomness, and each block keeps its own dependence"""
    sm = H.mod("bmi.samplers")
    e = [H.real(f"eps{i}", 0.01, 40) for i in range(k)]
    s = [sm.AdditiveUniformSampler(epsilon=v) for v in e]
    c = sm.IndependentConcatenationSampler(s)
    n = 2 if H.symbolic else 50
    x, y = c.sample(n, H.seed())
    for i in range(k):
        H.le(y[:, i] - x[:, i], e[i], "block i keeps its noise band", tol=1e-4)
        H.le(-e[i], y[:, i] - x[:, i], "block i keeps its noise band", tol=1e-4)
        for j in range(i):
            H.independent(x[:, i], x[:, j], "X blocks independent")
            H.independent(y[:, i] - x[:, i], y[:, j] - x[:, j], "noise blocks independent")
            H.independent(y[:, i], x[:, j], "Y block independent of the other X blocks")
    H.eq(c.mutual_information(), sum((v.mutual_information() for v in s[1:]), s[0].mutual_information()), "mutual information adds up")


@case("C08", quick=[dict(how="generator"), dict(how="nested"), dict(how="mutated")])
def concat_lists(H, how):
    sm = H.mod("bmi.samplers")
    fs = [fake_sampler(H, f"s{i}", a, b) for i, (a, b) in enumerate([(1, 2), (2, 1), (1, 1)])]
    if how == "generator":
        c = sm.IndependentConcatenationSampler(tuple(fs))
    elif how == "nested":
        c = sm.IndependentConcatenationSampler([sm.IndependentConcatenationSampler(fs[:2]), fs[2]])
    else:
        ls = list(fs)
        c = sm.IndependentConcatenationSampler(ls)
        ls.pop()
    H.eq((c.dim_x, c.dim_y), (4, 4), "dimensions")
    H.eq(c.mutual_information(), fs[0].mi + fs[1].mi + fs[2].mi, "mutual information adds up", atol=1e-4)
    x, y = c.sample(2, H.seed())
    cat = H.np.concatenate if H.symbolic else __import__("numpy").concatenate
    H.true(len({f.calls[0][1] for f in fs}) == 3, "components have different keys")
    H.eq(x, cat([f.memo[(2, f.calls[0][1])][0] for f in fs], axis=1), "X blocks in order")
    H.eq(y, cat([f.memo[(2, f.calls[0][1])][1] for f in fs], axis=1), "Y blocks in order")


@case("C08", quick=[dict(k=2), dict(k=3)], reseed=3)
def concat_repeated(H, k):
    """the same sampler object several times: independent copies"""
    sm = H.mod("bmi.samplers")
    e = H.real("eps", 0.01, 40)
    s = sm.AdditiveUniformSampler(epsilon=e)
    c = sm.IndependentConcatenationSampler([s] * k)
    n = 2 if H.symbolic else 50
    x, y = c.sample(n, H.seed())
    H.true(tuple(x.shape) == (n, k) and tuple(y.shape) == (n, k) and (c.dim_x, c.dim_y) == (k, k), "dimensions add up")
    for i in range(k):
        for j in range(i):
            H.independent(x[:, i], x[:, j], "blocks of a repeated sampler are independent")
            H.independent(y[:, i] - x[:, i], y[:, j] - x[:, j], "blocks of a repeated sampler are independent")
    H.eq(c.mutual_information(), k * s.mutual_information(), "mutual information adds up", atol=1e-4)
    f = fake_sampler(H, "f", 2, 1)
    c = sm.IndependentConcatenationSampler([f] * k)
    x, y = c.sample(3, H.key(H.seed()))
    ks = [q for _, q in f.calls]
    H.true(len(ks) == k and len(set(ks)) == k, "every occurrence is sampled with its own key")
    H.eq(c.mutual_information(), k * f.mi, "mutual information adds up", atol=1e-4)


@case("C08")
def concat_rejects_empty(H):
    sm = H.mod("bmi.samplers")
    H.true(H.fails(lambda: sm.IndependentConcatenationSampler([])), "the empty list is rejected")


# ------------------------------------------------------------------------------------------------ C09
def _maps(H, kind, d, tag):
    """-> (point-wise map or None, additional dimensions, what the map does, for one row)"""
    if kind == "none":
        return None, 0, lambda v: list(v)
    a = [[H.real(f"{tag}.a{i}{j}", -3, 3) for j in range(d)] for i in range(d)]
    b = [H.real(f"{tag}.b{i}", -3, 3) for i in range(d)]
    q = [H.real(f"{tag}.q{i}", -3, 3) for i in range(d)]
    jnp = H.jnp

    def row(v):
        out = [sum((a[i][j] * v[j] for j in range(d)), b[i]) + q[i] * v[i] * v[0] for i in range(d)]
        if kind == "grow":
            out = out + [v[0] * v[d - 1] + b[0]]
        return out

    return (lambda v: jnp.stack([e + 0 * v[0] for e in row(v)])), (1 if kind == "grow" else 0), row


KINDS = ("none", "map", "grow")
TQ = [dict(dx=a, dy=b, n=n, fx=f, fy=g, vec=v) for i, (f, g, v) in enumerate((f, g, v) for f in KINDS for g in KINDS for v in (True, False))
      for (a, b, n) in [[(1, 2, 2), (2, 1, 3)][i % 2]]]
TT = [dict(dx=a, dy=b, n=n, fx=f, fy=g, vec=v) for a in (1, 2, 3) for b in (1, 2, 3) for n in (1, 2, 4) for f in ("none", "map", "grow") for g in
      ("none", "map", "grow") for v in (True, False)]


@case("C09", quick=TQ, thorough=TT)
def transformed(H, dx, dy, n, fx, fy, vec):
    sm = H.mod("bmi.samplers")
    base = fake_sampler(H, "s", dx, dy)
    f, ax, rf = _maps(H, fx, dx, "f")
    g, ay, rg = _maps(H, fy, dy, "g")
    kw = {}
    if ax:
        kw["add_dim_x"] = ax
    if ay:
        kw["add_dim_y"] = ay
    jnp = H.jnp
    tf, tg = f, g
    if not vec:
        kw["vectorise"] = False
        tf = None if f is None else (lambda m: jnp.stack([f(m[i]) for i in range(n)]))
        tg = None if g is None else (lambda m: jnp.stack([g(m[i]) for i in range(n)]))
    t = sm.TransformedSampler(base, transform_x=tf, transform_y=tg, **kw)
    H.eq((t.dim_x, t.dim_y), (dx + ax, dy + ay), "dimensions")
    H.eq(t.mutual_information(), base.mi, "mutual information of the base sampler")
    seed = H.seed()
    rng = H.pick("how", ["int", "key"])
    rng = seed if rng == "int" else H.key(seed)
    x, y = t.sample(n, rng)
    H.eq(base.calls[0][0], n, "the base sampler is asked for n points")
    H.true(len(base.calls) == 1 and base.calls[0][1] == kid(H, rng), "the base sampler gets the same seed")
    bx, by = base.memo[(n, base.calls[0][1])]
    H.true(tuple(x.shape) == (n, dx + ax) and tuple(y.shape) == (n, dy + ay), "shapes")
    H.eq(x, H.mat([rf([bx[i, j] for j in range(dx)]) for i in range(n)]), "f applied to every X point", tol=1e-3, scale=30)
    H.eq(y, H.mat([rg([by[i, j] for j in range(dy)]) for i in range(n)]), "g applied to every Y point", tol=1e-3, scale=30)
    tx, ty = t.transform(bx, by)
    H.eq(tx, x, "transform of given samples")
    H.eq(ty, y, "transform of given samples")


@case("C09", quick=[{}])
def increments(H):
    sm = H.mod("bmi.samplers")
    base = fake_sampler(H, "s", 2, 3)
    a, b = H.int("ax", -3, 3), H.int("ay", -3, 3)
    if H.truth((a >= 0) & (b >= 0)):
        t = sm.TransformedSampler(base, add_dim_x=a, add_dim_y=b)
        H.eq((t.dim_x, t.dim_y), (2 + a, 3 + b), "declared increments are added")
    else:
        H.raises(ValueError, lambda: sm.TransformedSampler(base, add_dim_x=a, add_dim_y=b), "negative increments are rejected")


@case("C09", quick=[dict(depth=2)], thorough=[dict(depth=2), dict(depth=3), dict(depth=4)])
def nested(H, depth):
    sm = H.mod("bmi.samplers")
    base = fake_sampler(H, "s", 1, 2)
    t = base
    c = [H.real(f"c{i}", -2, 2) for i in range(depth)]
    d = [H.real(f"d{i}", -2, 2) for i in range(depth)]
    for i in range(depth):
        t = sm.TransformedSampler(t, transform_x=(lambda v, i=i: c[i] * v + i), transform_y=(lambda v, i=i: v + d[i]))
    x, y = t.sample(2, H.seed())
    bx, by = base.memo[(2, base.calls[0][1])]
    wx, wy = bx, by
    for i in range(depth):
        wx, wy = c[i] * wx + i, wy + d[i]
    H.eq(x, wx, "composition", tol=1e-3, scale=30)
    H.eq(y, wy, "composition", tol=1e-3, scale=30)
    H.eq(t.mutual_information(), base.mi, "mutual information of the base sampler")


class AnySize:
    """a stand-in sampler which notes the size and returns two points"""

    def __init__(self, H, mi):
        self.H, self.mi, self.calls = H, mi, []
        self.dim_x, self.dim_y, self.dim_total = 1, 1, 2

    def sample(self, n_points, rng):
        self.calls.append(n_points)
        k = float(len(self.calls))
        return self.H.jmat([[k], [k + 0.5]]), self.H.jmat([[-k], [-k - 0.5]])

    def mutual_information(self):
        return self.mi


@case("C08", quick=[{}])
def concat_sizes(H):
    """any sample size, however large, is requested from every component"""
    sm = H.mod("bmi.samplers")
    n, m = H.int("n", 1, 10**7), H.int("m", 1, 10**7)
    fs = [AnySize(H, 0.5) for _ in range(3)]
    c = sm.IndependentConcatenationSampler(fs)
    for k in (n, m):
        x, y = c.sample(k, H.key(H.seed()))
        H.true(tuple(x.shape) == (2, 3) and tuple(y.shape) == (2, 3), "all points of the components are kept")
    for f in fs:
        H.true(len(f.calls) == 2, "every component is sampled once")
        H.eq(f.calls[0], n, "components are asked for n points")
        H.eq(f.calls[1], m, "components are asked for n points")


@case("C09", quick=[dict(vec=True), dict(vec=False)])
def transformed_sizes(H, vec):
    sm = H.mod("bmi.samplers")
    n, m = H.int("n", 1, 10**7), H.int("m", 1, 10**7)
    b = AnySize(H, 0.5)
    t = sm.TransformedSampler(b, transform_x=lambda v: 2 * v, vectorise=vec)
    for k in (n, m):
        x, y = t.sample(k, H.seed())
        H.true(tuple(x.shape) == (2, 1) and tuple(y.shape) == (2, 1), "all points of the base sampler are kept")
    H.eq(b.calls[0], n, "the base sampler is asked for n points")
    H.eq(b.calls[1], m, "the base sampler is asked for n points")
