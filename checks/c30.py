"""Product space, chunker, added noise."""
from checks.c21_c22 import _sum
from engine.harness import case

U = "bmi.utils"


@case("C30", quick=[dict(hi=9), dict(hi=400, lo_c=100), dict(hi=2 ** 31, lo_c=2 ** 29)], thorough=[dict(hi=20), dict(hi=1000, lo_c=70), dict(hi=2 ** 40, lo_c=2 ** 37)], max_paths=6000)
def partition(H, hi, lo_c=-2):
    """every number of items and chunk size (in the second and third case: every number of items up to `hi` and every chunk size from `lo_c` on)"""
    n, c = H.int("n_items", -2, hi), H.int("chunk_size", lo_c, hi + 2)
    m = H.mod(U)
    if H.truth(n <= 0) or H.truth(c <= 0):
        H.raises(ValueError, lambda: list(m.chunker(n, c)), "non-positive sizes are rejected")
        H.raises(ValueError, lambda: list(m.chunker(n_items=n, chunk_size=c)), "non-positive sizes are rejected")
        return
    sl = list(m.chunker(n_items=n, chunk_size=c))
    pos = 0
    for i, s in enumerate(sl):
        H.true(s.step is None or H.truth(s.step == 1), "consecutive slices")
        H.eq(s.start, pos, "slices are adjacent, starting at 0")
        H.true(s.stop > s.start, "no empty chunk")
        H.le(s.stop - s.start, c, "no chunk is larger than chunk_size")
        if i < len(sl) - 1:
            H.eq(s.stop - s.start, c, "every chunk but the last is full")
        pos = s.stop
    H.eq(pos, n, "the chunks end at n_items")


@case("C30", quick=[dict(n=5, c=2), dict(n=4, c=2), dict(n=3, c=7), dict(n=1, c=1)])
def slicing(H, n, c):
    """slicing an array and a list with the chunks gives back the whole"""
    x = H.array("x", (n, 2), -3, 3)
    m = H.mod(U)
    parts = [x[s] for s in m.chunker(n, c)]
    H.eq(H.np.concatenate(parts), x, "the chunks of an array are the array")
    H.true([v for s in m.chunker(n, c) for v in list(range(n))[s]] == list(range(n)), "the chunks of a list are the list")


Q = [dict(n=1, dx=1, dy=1), dict(n=1, dx=2, dy=3), dict(n=3, dx=1, dy=2), dict(n=2, dx=3, dy=1), dict(n=4, dx=2, dy=2)]


@case("C30", quick=Q, thorough=Q + [dict(n=6, dx=3, dy=2), dict(n=5, dx=1, dy=4)])
def space(H, n, dx, dy):
    m = H.mod(U)
    x, y = H.array("x", (n, dx), -3, 3) / 3, H.array("y", (n, dy), -3, 3) / 3
    std = H.pick("standardize", [False, True])
    kind = H.pick("input", ["array", "list", "jax"])
    if kind == "jax" and not H.symbolic:
        import numpy as np

        x, y = np.float32(x).astype(float), np.float32(y).astype(float)
    x0, y0 = [[x[i, k] for k in range(dx)] for i in range(n)], [[y[i, k] for k in range(dy)] for i in range(n)]
    const = [H.pick(f"constant_{s}", [False, True]) if std and n > 1 else False for s in "xy"]
    for r, cst in ((x0, const[0]), (y0, const[1])):
        if cst:
            for i in range(n):
                r[i][0] = r[0][0]
    if const[0] or const[1]:
        x, y = H.mat(x0), H.mat(y0)

    def want(r, d):
        cols = []
        for k in range(d):
            mean = _sum(r[i][k] for i in range(n)) / n
            var = _sum((r[i][k] - mean) * (r[i][k] - mean) for i in range(n)) / n
            if n == 1 or (k == 0 and (const[0] if r is x0 else const[1])):
                cols.append([0.0] * n)
                continue
            H.assume(var > (0 if H.symbolic else 0.01 if kind == "jax" else 1e-9))  # rounding of the data itself
            sd = H.np.sqrt(H.vec([var]))[0]
            cols.append([(r[i][k] - mean) / sd for i in range(n)])
        return [[cols[k][i] for k in range(d)] for i in range(n)]

    wx, wy = (want(x0, dx), want(y0, dy)) if std else (x0, y0)
    mk = {"array": (x, y), "list": ([list(v) for v in x0], [list(v) for v in y0]), "jax": (H.jmat(x0), H.jmat(y0))}[kind]
    sp = m.ProductSpace(mk[0], mk[1], standardize=std) if H.pick("explicit", [True, False]) or not std else m.ProductSpace(mk[0], mk[1])
    tol = 2e-3 if kind == "jax" else 1e-8 if std else 1e-13
    lab = "standardised to mean 0 and variance 1, constant coordinates to 0" if std else "the points as given"
    H.true(tuple(sp.x.shape) == (n, dx) and tuple(sp.y.shape) == (n, dy), "shapes")
    H.true((len(sp), int(sp.dim_x), int(sp.dim_y)) == (n, dx, dy), "sizes")
    H.eq(sp.x, H.mat(wx), "X: " + lab, tol=tol, atol=tol)
    H.eq(sp.y, H.mat(wy), "Y: " + lab, tol=tol, atol=tol)
    joint = [a + b for a, b in zip(wx, wy)]
    H.true(tuple(sp.xy.shape) == (n, dx + dy), "shape of the joined points")
    H.eq(sp.xy, H.mat(joint), "X and Y side by side", tol=tol, atol=tol)
    for i in range(n):
        H.eq(sp[i], H.vec(joint[i]), "indexing: x and y of that point", tol=tol, atol=tol)
        H.eq(sp[i - n], H.vec(joint[i]), "negative indexing", tol=tol, atol=tol)
    for a, b in ((0, n), (0, 1), (1, n), (n - 1, None), (None, None)):
        w = joint[slice(a, b)]
        g = sp[a:b]
        H.true(g.shape[0] == len(w) and g.shape[1] == dx + dy, "slicing: shape")
        if w:
            H.eq(g, H.mat(w), "slicing: x and y of those points", tol=tol, atol=tol)
    idx = [n - 1, 0]
    H.eq(sp[idx], H.mat([joint[i] for i in idx]), "index lists: x and y of those points", tol=tol, atol=tol)
    if kind == "array":  # copies: neither side sees the other's changes
        H.eq(x, H.mat(x0), "the inputs are not modified", tol=0)
        H.eq(y, H.mat(y0), "the inputs are not modified", tol=0)
        x[0, 0] = 77.0
        y[0, 0] = 78.0
        H.eq(sp.x[0, 0], wx[0][0], "the product space holds copies", tol=tol, atol=tol)
        H.eq(sp.y[0, 0], wy[0][0], "the product space holds copies", tol=tol, atol=tol)


@case("C30", quick=[{}])
def different_lengths(H):
    m = H.mod(U)
    a, b = H.pick("a", [1, 2, 3]), H.pick("b", [1, 2, 3])
    std = H.pick("standardize", [False, True])
    f = lambda: m.ProductSpace(H.np.ones((a, 2)), H.np.zeros((b, 1)), standardize=std)  # noqa: E731
    if a != b:
        H.raises(ValueError, f, "different lengths are rejected")
    else:
        H.true(len(f()) == a, "equal lengths are accepted")


@case("C30", quick=[dict(shape=(3, 1)), dict(shape=(2, 3)), dict(shape=(1, 1))], reseed=3)
def noise(H, shape):
    """every sample, noise level and seed"""
    m = H.mod(U)
    x = H.array("x", shape, -3, 3) / 3
    x0 = [[x[i, k] for k in range(shape[1])] for i in range(shape[0])]
    sd = H.real("noise_std", 0.1, 2)
    s = H.seed()
    a = m.add_noise(x, noise_std=sd, rng_key=s)
    b = m.add_noise(x, noise_std=sd, rng_key=s)
    H.true(tuple(a.shape) == tuple(shape), "shape kept")
    H.eq(a, b, "reproducible from the key")
    H.eq(x, H.mat(x0), "the points are not modified", tol=0)
    z = m.add_noise(H.np.zeros(shape), noise_std=sd, rng_key=s)
    H.eq(a, x + z, "the noise does not depend on the points", tol=1e-12, atol=1e-12)
    t = m.add_noise(H.np.zeros(shape), noise_std=2 * sd, rng_key=s)
    H.eq(t, 2 * z, "the noise scales with noise_std", tol=1e-6, atol=1e-6)
    if H.symbolic:
        vals = [z[i, k] for i in range(shape[0]) for k in range(shape[1])]
        from engine import sym as S

        seen = set()
        for v in vals:
            rng = {q for q in S.var_atoms(v) if (S.ATOMS[q].name or "").startswith("rng:")}
            H.true(len(rng) == 1 and not (rng & seen), "independent noise for every coordinate of every point")
            seen |= rng
            for q in rng:
                if S.ATOMS[q].name.startswith("rng:normal"):
                    r = S._ratom(S.ATOMS[q])
                    H.eq(v * v, sd * sd * r * r, "standard normal noise times noise_std")
    else:
        import numpy as np

        big = m.add_noise(np.zeros((4000, 2)), noise_std=float(sd), rng_key=int(s))
        H.true(abs(big.std() / float(sd) - 1) < 0.06 and abs(big.mean()) < 0.1 * float(sd), "the noise has the given standard deviation")
        H.true(abs(np.corrcoef(big[:, 0], big[:, 1])[0, 1]) < 0.1, "independent noise for every coordinate of every point")
