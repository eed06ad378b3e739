"""Kernel-density estimator."""
from engine.harness import case

KERNELS = ("tophat", "gaussian", "epanechnikov", "exponential", "linear", "cosine")


def _scaled(H, a):
    n, d = a.shape
    cols = []
    for j in range(d):
        m = sum((a[i, j] for i in range(1, n)), a[0, j]) / n
        c = [a[i, j] - m for i in range(n)]
        v = sum((e * e for e in c[1:]), c[0] * c[0]) / n
        s = H.np.sqrt(v) if H.truth(v > 0) else 1.0
        cols.append([e / s for e in c])
    return H.mat([[cols[j][i] for j in range(d)] for i in range(n)])


def _h(H, kernel, bw, pts):
    """minus the mean log-density at the points of the density fitted on them"""
    kd = H.mod("sklearn.neighbors").KernelDensity(kernel=kernel, bandwidth=bw).fit(pts)
    lp = list(kd.score_samples(pts))
    return -sum(lp[1:], lp[0]) / len(lp)


def _data(H, tag, n, dx, dy):
    x, y = H.array("x" + tag, (n, dx), -3, 3), H.array("y" + tag, (n, dy), -3, 3)
    if not H.symbolic:  # the real log-densities are numbers only if points are not hugely spread; nothing to assume otherwise
        pass
    return x, y


def _join(H, x, y):
    n = x.shape[0]
    return H.mat([[x[i, j] for j in range(x.shape[1])] + [y[i, j] for j in range(y.shape[1])] for i in range(n)])


def _check(H, est, x, y, std, kern, bw, tag):
    a, b = (_scaled(H, x), _scaled(H, y)) if std else (x, y)
    want = [_h(H, kern[0], bw[0], a), _h(H, kern[1], bw[1], b), _h(H, kern[2], bw[2], _join(H, a, b))]
    e = est.estimate_entropies(x, y)
    H.eq(e.entropy_x, want[0], f"{tag}H(X)", tol=1e-6)
    H.eq(e.entropy_y, want[1], f"{tag}H(Y)", tol=1e-6)
    H.eq(e.entropy_xy, want[2], f"{tag}H(X,Y)", tol=1e-6)
    mi = want[0] + want[1] - want[2]
    H.eq(e.mutual_information, mi, f"{tag}mutual information", tol=1e-6)
    H.eq(est.estimate(x, y), mi, f"{tag}estimate", tol=1e-6)


def _bw(H, name, none):
    k = H.pick(name, (["none"] if none else []) + ["number", "scott", "silverman"])
    return None if k == "none" else H.real(f"{name}.value", 0.05, 5) if k == "number" else k


@case("C19", quick=[dict(n=3, dx=1, dy=1, std=False), dict(n=2, dx=2, dy=1, std=False), dict(n=3, dx=1, dy=2, std=True), dict(n=2, dx=2, dy=3, std=False)],
      thorough=[dict(n=4, dx=2, dy=2, std=False), dict(n=4, dx=2, dy=2, std=True), dict(n=3, dx=3, dy=1, std=True)], max_paths=20000)
def bandwidths(H, n, dx, dy, std):
    bxy, bx, by = _bw(H, "bandwidth_xy", False), _bw(H, "bandwidth_x", True), _bw(H, "bandwidth_y", True)
    est = H.mod("bmi.estimators").KDEMutualInformationEstimator(
        kernel_xy="gaussian", kernel_x=None, kernel_y="exponential", bandwidth_xy=bxy, bandwidth_x=bx, bandwidth_y=by, standardize=std)
    ex, ey = (bxy if bx is None else bx), (bxy if by is None else by)
    x, y = _data(H, "", n, dx, dy)
    if std:  # (constant coordinates: see `defaults`, `refit`)
        for a in (x, y):
            for j in range(a.shape[1]):
                H.assume(a[1, j] > a[0, j] + 0.01)
    _check(H, est, x, y, std, ("gaussian", "exponential", "gaussian"), (ex, ey, bxy), "")
    p = est.parameters()
    for a, b, w in ((p.bandwidth_x, ex, "x"), (p.bandwidth_y, ey, "y"), (p.bandwidth_xy, bxy, "xy")):
        H.eq(a, b, f"reported bandwidth {w}")
    H.true(p.standardize == std, "reported standardisation")


@case("C19", quick=[dict(n=2)])
def kernels(H, n):
    kxy = H.pick("kernel_xy", KERNELS)
    kx, ky = H.pick("kernel_x", (None, "gaussian", "linear")), H.pick("kernel_y", (None, "gaussian", "cosine"))
    kw = {}
    if kx is not None:
        kw["kernel_x"] = kx
    if ky is not None:
        kw["kernel_y"] = ky
    h = H.real("h", 2, 5)  # wide enough for every kernel to give positive density at its own points
    est = H.mod("bmi.estimators").KDEMutualInformationEstimator(kernel_xy=kxy, bandwidth_xy=h, standardize=False, **kw)
    x, y = _data(H, "", n, 1, 1)
    ex, ey = kx or kxy, ky or kxy
    _check(H, est, x, y, False, (ex, ey, kxy), (h, h, h), "")
    p = est.parameters()
    H.true(p.kernel_x == ex and p.kernel_y == ey and p.kernel_xy == kxy, "reported kernels")


@case("C19", quick=[dict(n=2, m=3, std=False), dict(n=3, m=2, std=True)])
def refit(H, n, m, std):
    """a second call depends on the second data set only"""
    h, g = H.real("h", 0.1, 5), H.real("g", 0.1, 5)
    est = H.mod("bmi.estimators").KDEMutualInformationEstimator(kernel_xy="gaussian", bandwidth_xy=h, bandwidth_x=g, standardize=std)
    k, b = ("gaussian",) * 3, (g, h, h)
    _check(H, est, *_data(H, "", n, 1, 1), std, k, b, "first: ")
    _check(H, est, *_data(H, "'", m, 1, 1), std, k, b, "second: ")
    _check(H, est, *_data(H, "''", m, 2, 1), std, k, b, "other dimensions: ")


@case("C19", quick=[dict(n=2)])
def wide_and_narrow(H, n):
    """bandwidths and samples of any scale"""
    c = H.pick("scale", [1e-6, 1.0, 1e6])
    h, g = H.real("h", 0.5, 5) * c, H.real("g", 0.5, 5) * c
    est = H.mod("bmi.estimators").KDEMutualInformationEstimator(kernel_xy="gaussian", bandwidth_xy=h, bandwidth_x=g, standardize=False)
    x, y = _data(H, "", n, 2, 1)
    _check(H, est, x * c, y * c, False, ("gaussian",) * 3, (g, h, h), "")


@case("C19", quick=[{}])
def defaults(H):
    """unset arguments: the tophat kernel with Scott's bandwidth on standardised data"""
    est = H.mod("bmi.estimators").KDEMutualInformationEstimator()
    x, y = _data(H, "", 3, 1, 1)
    _check(H, est, x, y, True, ("tophat",) * 3, ("scott",) * 3, "")
