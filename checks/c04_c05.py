"""Latent-variable and correlation-matrix builders."""
import numpy as _np

from engine.harness import case

DIMS_Q = [dict(dx=a, dy=b) for a, b in [(1, 1), (2, 1), (1, 2), (2, 3), (3, 3)]]
DIMS_T = [dict(dx=a, dy=b) for a in range(1, 5) for b in range(1, 5)]


def _lvm(H, mu, dx, dy):
    K = H.pick("K", list(range(0, min(dx, dy) + 1)))
    w = {k: H.real(k) for k in ("alpha", "lambd", "beta_x", "eta_x", "epsilon_x")}
    unset = H.pick("unset", ["none", "epsilon_y", "beta_y", "eta_y", "all"])
    wy = {}
    for k in ("epsilon_y", "beta_y", "eta_y"):
        if unset != "all" and unset != k:
            wy[k] = H.real(k)
    p = mu.GaussianLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=K, **w, **wy)
    v = dict(w)
    for k in ("epsilon", "beta", "eta"):
        v[k + "_y"] = wy.get(k + "_y", w[k + "_x"])
    return p, K, v


def _expected_mixing(dx, dy, K, v):
    labels = (["$U_\\mathrm{all}$", "$U_X$", "$U_Y$"] + [f"$Z_{i}$" for i in range(1, K + 1)] + [f"$E_{i}$" for i in range(1, dx + 1)]
              + [f"$F_{i}$" for i in range(1, dy + 1)] + [f"$V_{i}$" for i in range(K + 1, dx + 1)] + [f"$W_{i}$" for i in range(K + 1, dy + 1)])
    rows = []
    for side, d in (("X", dx), ("Y", dy)):
        s = side.lower()
        for i in range(1, d + 1):
            r = {"$U_\\mathrm{all}$": v["alpha"], f"$U_{side}$": v["beta_" + s], f"$Z_{i}$": v["lambd"]}
            r[f"${'E' if side == 'X' else 'F'}_{i}$"] = v["epsilon_" + s]
            r[f"${'V' if side == 'X' else 'W'}_{i}$"] = v["eta_" + s]
            rows.append([r.get(l, 0.0) for l in labels])
    return labels, rows


@case("C04", quick=DIMS_Q, thorough=DIMS_T)
def lvm(H, dx, dy):
    mu = H.mod("bmi.samplers._matrix_utils")
    p, K, v = _lvm(H, mu, dx, dy)
    labels, rows = _expected_mixing(dx, dy, K, v)
    H.true(list(p.latent_variable_labels) == labels, "labels of the latent variables")
    H.true(list(p.xy_labels) == [f"$X_{i + 1}$" for i in range(dx)] + [f"$Y_{i + 1}$" for i in range(dy)], "labels of the coordinates")
    H.eq(p.n_latent, len(labels), "number of latent variables")
    m = p.mixing
    H.eq(m, H.mat(rows), "mixing matrix")
    N = dx + dy
    cov = [[H.add(*[rows[i][k] * rows[j][k] for k in range(len(labels))]) for j in range(N)] for i in range(N)]
    H.eq(p.covariance, H.mat(cov), "covariance = mixing mixing^T")
    H.eq(p.mixing, H.mat(rows), "mixing matrix unchanged by reading")
    H.eq(p.covariance, H.mat(cov), "covariance unchanged by reading")


@case("C04", quick=[dict(dx=2, dy=1), dict(dx=2, dy=2)], thorough=[dict(dx=a, dy=b) for a in (1, 2, 3) for b in (1, 2, 3)])
def lvm_correlation(H, dx, dy):
    mu = H.mod("bmi.samplers._matrix_utils")
    p, K, v = _lvm(H, mu, dx, dy)
    H.assume((v["epsilon_x"] > 0.1) | (v["epsilon_x"] < -0.1))
    H.assume((v["epsilon_y"] > 0.1) | (v["epsilon_y"] < -0.1))
    labels, rows = _expected_mixing(dx, dy, K, v)
    N = dx + dy
    cov = [[H.add(*[rows[i][k] * rows[j][k] for k in range(len(labels))]) for j in range(N)] for i in range(N)]
    c = p.correlation
    H.eq([c[i, i] for i in range(N)], [1.0] * N, "unit diagonal")
    for i in range(N):
        for j in range(N):
            if i != j:
                H.eq(c[i, j], cov[i][j] / H.np.sqrt(cov[i][i] * cov[j][j]), "rescaled covariance")


@case("C04", quick=[dict(dx=1, dy=2), dict(dx=3, dy=2)], thorough=[dict(dx=a, dy=b) for a in (1, 2, 3, 4) for b in (1, 2, 3)])
def dense(H, dx, dy):
    mu = H.mod("bmi.samplers._matrix_utils")
    a, e = H.real("alpha"), H.real("epsilon")
    H.assume((e > 0.1) | (e < -0.1))
    p = mu.DenseLVMParametrization(dim_x=dx, dim_y=dy, alpha=a, epsilon=e)
    N = dx + dy
    cov = H.mat([[a * a + (e * e if i == j else 0.0) for j in range(N)] for i in range(N)])
    H.eq(p.covariance, cov, "covariance")
    s = p.correlation_strength
    H.eq(s, a * a / (a * a + e * e), "reported strength")
    H.eq(p.correlation, H.mat([[1.0 if i == j else s for j in range(N)] for i in range(N)]), "strength is every off-diagonal correlation")
    labels, rows = _expected_mixing(dx, dy, 0, dict(alpha=a, lambd=0.0, beta_x=0.0, beta_y=0.0, epsilon_x=e, epsilon_y=e, eta_x=0.0, eta_y=0.0))
    H.eq(p.mixing, H.mat(rows), "special case of the latent-variable model")


@case("C04", quick=[dict(dx=1, dy=2), dict(dx=3, dy=2)], thorough=[dict(dx=a, dy=b) for a in (1, 2, 3, 4) for b in (1, 2, 3)])
def sparse(H, dx, dy):
    mu = H.mod("bmi.samplers._matrix_utils")
    K = H.pick("K", list(range(0, min(dx, dy) + 1)))
    b, l, e = H.real("beta"), H.real("lambd"), H.real("epsilon")
    H.assume((e > 0.1) | (e < -0.1))
    if H.pick("eta_set", [False, True]):
        eta = H.real("eta")
        p = mu.SparseLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=K, beta=b, lambd=l, epsilon=e, eta=eta)
    else:
        eta = l
        p = mu.SparseLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=K, beta=b, lambd=l, epsilon=e)
    labels, rows = _expected_mixing(dx, dy, K, dict(alpha=0.0, lambd=l, beta_x=b, beta_y=b, epsilon_x=e, epsilon_y=e, eta_x=eta, eta_y=eta))
    N = dx + dy
    H.eq(p.mixing, H.mat(rows), "special case of the latent-variable model")
    cov = [[H.add(*[rows[i][k] * rows[j][k] for k in range(len(labels))]) for j in range(N)] for i in range(N)]
    H.eq(p.covariance, H.mat(cov), "covariance")
    r = p.correlation_interacting
    H.eq(r, l * l / (b * b + e * e + l * l), "reported correlation")
    c = p.correlation
    for i in range(K):
        H.eq(c[i, dx + i], r, "reported correlation is the matrix entry")
        H.eq(c[dx + i, i], r, "reported correlation is the matrix entry")
    for i in range(dx):
        for j in range(dy):
            if i != j or i >= K:
                H.eq(c[i, dx + j], 0.0, "other cross correlations are zero")


@case("C04", quick=[{}], thorough=[{}])
def sparse_defaults(H):
    mu = H.mod("bmi.samplers._matrix_utils")
    p = mu.SparseLVMParametrization(dim_x=2, dim_y=2, n_interacting=1)
    H.eq(p.covariance, [[2, 0, 1, 0], [0, 2, 0, 0], [1, 0, 2, 0], [0, 0, 0, 2]], "defaults")


@case("C04", quick=[{}])
def too_many_pairs(H):
    mu = H.mod("bmi.samplers._matrix_utils")
    dx, dy = H.int("dx", 1, 4), H.int("dy", 1, 4)
    K = H.int("K", -2, 6)
    if H.truth((K >= 0) & (K <= dx) & (K <= dy)):
        H.true(not H.fails(lambda: mu.GaussianLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=K, alpha=0.1, lambd=0.1)), "accepted")
    else:
        H.raises(ValueError, lambda: mu.GaussianLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=K, alpha=0.1, lambd=0.1), "rejected")
        H.raises(ValueError, lambda: mu.SparseLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=K), "rejected")


# ------------------------------------------------------------------------------------------------ C05
@case("C05", quick=DIMS_Q + [(dict(dx=6, dy=7)), dict(dx=7, dy=5)], thorough=DIMS_T + [dict(dx=6, dy=7), dict(dx=9, dy=8)])
def parametrised(H, dx, dy):
    mu = H.mod("bmi.samplers._matrix_utils")
    k = H.pick("k", list(range(1, min(dx, dy) + 1)))
    c, cx, cy = (H.real(n, -1, 1) for n in ("c", "cx", "cy"))
    m = mu.parametrised_correlation_matrix(dim_x=dx, dim_y=dy, k=k, correlation=c, correlation_x=cx, correlation_y=cy)
    N = dx + dy

    def want(i, j):
        if i == j:
            return 1.0
        a, b = min(i, j), max(i, j)
        if b < dx:
            return cx
        if a >= dx:
            return cy
        return c if (b - dx == a and a < k) else 0.0

    H.eq(m, H.mat([[want(i, j) for j in range(N)] for i in range(N)]), "entries")


@case("C05", quick=[{}])
def parametrised_defaults(H):
    mu = H.mod("bmi.samplers._matrix_utils")
    H.eq(mu.parametrised_correlation_matrix(dim_x=2, dim_y=2), [[1, 0, 0.5, 0], [0, 1, 0, 0], [0.5, 0, 1, 0], [0, 0, 0, 1]], "defaults")


@case("C05", quick=[{}])
def parametrised_domain(H):
    """accepted iff dimensions >= k >= 1 and correlations in [-1, 1]"""
    mu = H.mod("bmi.samplers._matrix_utils")
    dx, dy, k = H.int("dx", -1, 3), H.int("dy", -1, 3), H.int("k", -1, 4)
    call = lambda: mu.parametrised_correlation_matrix(dim_x=dx, dim_y=dy, k=k, correlation=0.5, correlation_x=0.25, correlation_y=-0.25)  # noqa
    if H.truth((dx >= 1) & (dy >= 1) & (k >= 1) & (k <= dx) & (k <= dy)):
        H.true(not H.fails(call), "accepted")
    else:
        H.raises(ValueError, call, "rejected")


@case("C05", quick=[{}])
def parametrised_range(H):
    mu = H.mod("bmi.samplers._matrix_utils")
    c, cx, cy = (H.real(n, -3, 3) for n in ("c", "cx", "cy"))
    call = lambda: mu.parametrised_correlation_matrix(dim_x=2, dim_y=2, k=1, correlation=c, correlation_x=cx, correlation_y=cy)  # noqa
    ok = (c <= 1) & (c >= -1) & (cx <= 1) & (cx >= -1) & (cy <= 1) & (cy >= -1)
    if H.truth(ok):
        H.true(not H.fails(call), "accepted")
    else:
        H.raises(ValueError, call, "rejected")


@case("C05", quick=[dict(d=d, extra=e, kind=k) for d, e in [(1, 0), (1, 2), (2, 0), (2, 1), (3, 2), (7, 0), (6, 5)] for k in ("list", "array")],
      thorough=[dict(d=d, extra=e, kind=k) for d in range(1, 6) for e in range(0, 4) for k in ("list", "array")])
def canonical(H, d, extra, kind):
    mu = H.mod("bmi.samplers._matrix_utils")
    rho = H.reals("rho", d, lo=-1, hi=1)
    m = mu.canonical_correlation(rho if kind == "list" else H.vec(rho), additional_y=extra)
    N = 2 * d + extra
    H.eq(m, H.mat([[1.0 if i == j else (rho[min(i, j)] if (abs(i - j) == d and min(i, j) < d) else 0.0) for j in range(N)] for i in range(N)]), "entries")
    if extra == 0:
        H.eq(mu.canonical_correlation(rho), m, "no additional coordinates by default")
