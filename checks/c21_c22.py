"""Neural losses in both memory backends."""
from engine.harness import case

BACK = {"linear": "bmi.estimators.neural._backend_linear_memory", "quadratic": "bmi.estimators.neural._backend_quadratic_memory"}
LOSSES = ("infonce", "donsker_varadhan", "nwj")


def table(H, T):
    """the critic with f(x_i, y_j) = T[i][j] for points whose first coordinates are the indices i, j"""
    if H.symbolic:
        def ix(v):
            v = v.ravel()[0] if hasattr(v, "ravel") else v
            return int(round(float(v.const() if hasattr(v, "const") else v)))

        return lambda x, y: T[ix(x[0])][ix(y[0])]
    M = H.jmat(T)
    return lambda x, y: M[x[0].astype(int), y[0].astype(int)]


def points(H, idx, extra=0):
    return H.jmat([[float(i)] + [0.5] * extra for i in idx])


def scores(H, n, r, name="f"):
    return [[H.real(f"{name}{i}{j}", -r, r) for j in range(n)] for i in range(n)]


def _sum(v):
    v = list(v)
    return sum(v[1:], v[0])


def lse(H, v):
    """log of the sum of exponentials"""
    if H.symbolic:
        return H.np.log(_sum(H.np.exp(a) for a in v))
    m = max(v)
    return m + H.np.log(_sum(H.np.exp(a - m) for a in v))


def formula(H, loss, T):
    n = len(T)
    log = H.np.log
    pos = _sum(T[i][i] for i in range(n)) / n
    off = [T[i][j] for i in range(n) for j in range(n) if i != j]
    if loss == "infonce":
        return pos - _sum(lse(H, T[i]) for i in range(n)) / n + log(H.vec([n]))[0]
    if loss == "donsker_varadhan":
        return pos - lse(H, off) + log(H.vec([len(off)]))[0]
    return pos - _sum(H.np.exp(a - 1) for a in off) / len(off)


def _rng(loss):
    return 8 if loss == "nwj" else 150


@case("C21", quick=[dict(loss=l, backend=b, n=n) for l in LOSSES for b in BACK for n in (2, 3)],
      thorough=[dict(loss=l, backend=b, n=n) for l in LOSSES for b in BACK for n in (2, 3, 4, 5, 6)])
def formulas(H, loss, backend, n):
    """arbitrary scores for every pair of points of the batch"""
    T = scores(H, n, _rng(loss))
    f = table(H, T)
    v = getattr(H.mod(BACK[backend]), loss)(f, points(H, range(n)), points(H, range(n)))
    H.eq(v, formula(H, loss, T), f"{loss}: the published formula", tol=1e-3, atol=1e-3)


@case("C21", quick=[dict(loss=l, backend=b, n=70) for l in LOSSES for b in BACK], thorough=[dict(loss=l, backend=b, n=130) for l in LOSSES for b in BACK])
def large_batch(H, loss, backend, n):
    """a batch of many points whose scores take five arbitrary values"""
    r = min(_rng(loss), 20)
    a, b, c, d, e = (H.real(v, -r, r) for v in "abcde")
    T = [[d if i == j else e for j in range(n)] for i in range(n)]
    T[0][0], T[1][0], T[n - 1][n - 2] = a, b, c
    v = getattr(H.mod(BACK[backend]), loss)(table(H, T), points(H, range(n)), points(H, range(n)))
    H.eq(v, formula(H, loss, T), f"{loss}: the published formula", tol=1e-3, atol=1e-3)


@case("C21", quick=[dict(loss=l, n=3, dx=2, dy=1) for l in LOSSES], thorough=[dict(loss=l, n=n, dx=a, dy=b) for l in LOSSES for n in (2, 3, 4) for a, b in ((1, 1), (2, 1), (2, 3))])
def critics(H, loss, n, dx, dy):
    """an arbitrary bilinear critic of arbitrary real points: both backends score x_i with y_j, and agree"""
    xs, ys = H.jarray("x", (n, dx), -2, 2), H.jarray("y", (n, dy), -2, 2)
    W = H.jarray("w", (dx, dy), -2, 2)
    u, v = H.jarray("u", (dx,), -2, 2), H.jarray("v", (dy,), -2, 2)

    def f(x, y):
        return H.jnp.sum(x * u) + H.jnp.sum(y * v) + H.jnp.sum(x[:, None] * W * y[None, :])

    T = [[f(xs[i], ys[j]) for j in range(n)] for i in range(n)]
    if not H.symbolic:
        T = [[float(e) for e in r] for r in T]
    want = formula(H, loss, T)
    got = [getattr(H.mod(BACK[b]), loss)(f, xs, ys) for b in BACK]
    sc = 1.0 if H.symbolic else max(1.0, abs(float(want)))
    for g, b in zip(got, BACK):
        H.eq(g, want, f"{loss}: the published formula for a critic of points", tol=2e-3, atol=2e-3, scale=sc)
    H.eq(got[0], got[1], f"{loss}: the backends agree", tol=2e-3, atol=2e-3, scale=sc)


# ------------------------------------------------------------------------------------------------ C22
@case("C22", quick=[dict(backend=b, n=n) for b in BACK for n in (2, 3)], thorough=[dict(backend=b, n=n) for b in BACK for n in (2, 3, 4, 5)])
def infonce_bound(H, backend, n):
    T = scores(H, n, 20)
    v = H.mod(BACK[backend]).infonce(table(H, T), points(H, range(n)), points(H, range(n)))
    H.le(v, H.np.log(H.vec([n]))[0], "InfoNCE is at most log n", tol=1e-4)


@case("C22", quick=[dict(backend=b, n=n) for b in BACK for n in (2, 3)], thorough=[dict(backend=b, n=n) for b in BACK for n in (2, 3, 4)])
def shifts(H, backend, n):
    m = H.mod(BACK[backend])
    T = scores(H, n, 20)
    p = points(H, range(n))
    s = [H.real(f"s{i}", -70, 70) for i in range(n)]
    a = m.infonce(table(H, T), p, p)
    b = m.infonce(table(H, [[T[i][j] + s[i] for j in range(n)] for i in range(n)]), p, p)
    H.eq(b, a, "InfoNCE is unchanged by adding a function of x", tol=1e-3, scale=20)
    c = H.real("c", -70, 70)
    a = m.donsker_varadhan(table(H, T), p, p)
    b = m.donsker_varadhan(table(H, [[e + c for e in r] for r in T]), p, p)
    H.eq(b, a, "Donsker-Varadhan is unchanged by adding a constant", tol=1e-3, scale=20)


@case("C22", quick=[dict(backend=b, n=n) for b in BACK for n in (2, 3)], thorough=[dict(backend=b, n=n) for b in BACK for n in (2, 3, 4)])
def dominance(H, backend, n):
    m = H.mod(BACK[backend])
    T = scores(H, n, 6)
    p = points(H, range(n))
    dv, nwj = m.donsker_varadhan(table(H, T), p, p), m.nwj(table(H, T), p, p)
    # ln t <= ln c + t / c - 1 (the tangent at c): a fact about the logarithm the solver is not told in general
    t = _sum(H.np.exp(T[i][j]) for i in range(n) for j in range(n) if i != j)
    c = n * (n - 1) * H.np.exp(H.vec([1]))[0]
    H.assume(H.np.log(t) <= H.np.log(c) + t / c - 1 + (0 if H.symbolic else 1e-9))
    H.le(nwj, dv, "Donsker-Varadhan is at least NWJ", tol=1e-3)


@case("C22", quick=[dict(loss=l, backend=b, n=3) for l in LOSSES for b in BACK], thorough=[dict(loss=l, backend=b, n=n) for l in LOSSES for b in BACK for n in (2, 3, 4)])
def reordering(H, loss, backend, n):
    m = H.mod(BACK[backend])
    T = scores(H, n, _rng(loss))
    q = H.perm("order", n)
    f = table(H, T)
    a = getattr(m, loss)(f, points(H, range(n)), points(H, range(n)))
    b = getattr(m, loss)(f, points(H, q), points(H, q))
    H.eq(b, a, f"{loss} is unchanged by reordering the batch", tol=1e-3, atol=1e-3)


@case("C22", quick=[dict(backend=b, n=n) for b in BACK for n in (2, 3)], thorough=[dict(backend=b, n=n) for b in BACK for n in (2, 3, 4, 5, 6)])
def constant(H, backend, n):
    m = H.mod(BACK[backend])
    c = H.real("c", -50, 50)
    p = points(H, range(n))
    f = table(H, [[c] * n for _ in range(n)])
    H.eq(m.infonce(f, p, p), 0.0, "a constant critic scores 0 (InfoNCE)", tol=1e-4)
    H.eq(m.donsker_varadhan(f, p, p), 0.0, "a constant critic scores 0 (Donsker-Varadhan)", tol=1e-4)
