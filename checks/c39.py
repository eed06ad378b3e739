"""Estimators as functions of the sample: wrapped functions, reuse of one estimator object, array-likes."""
from engine.harness import case


def _same(H, a, b, label):
    for i in range(len(b)):
        for k in range(len(b[i])):
            H.eq(a[i, k], b[i][k], label, tol=0)


def _list(a):
    return [[a[i, k] for k in range(a.shape[1])] for i in range(a.shape[0])]


def _plain(H, a):
    """nested lists of plain numbers"""
    r = _list(a)
    return r if H.symbolic else [[float(v) for v in w] for w in r]


@case("C39", quick=[dict(n=3, dx=2, dy=1), dict(n=1, dx=1, dy=3), dict(n=2, dx=2, dy=2)], thorough=[dict(n=n, dx=a, dy=b) for n in (1, 2, 4) for a in (1, 2, 3) for b in (1, 2, 3)])
def wrapped(H, n, dx, dy):
    """a function of the sample wrapped as an estimator"""
    F = H.mod("bmi.estimators.function_wrapper")
    I = H.mod("bmi.interface")
    x, y = H.array("x", (n, dx), -4, 4), H.array("y", (n, dy), -4, 4)
    v = [H.real("value1", -5, 5), H.real("value2", -5, 5)]
    calls = []

    def func(a, b):
        calls.append((a, b))
        return v[len(calls) - 1]

    how = H.pick("given as", ["array", "list"])
    own = H.pick("params", [True, False])
    p = I.EstimateResult(mi_estimate=0.25) if own else None  # any model will do
    e = F.FunctionalEstimator(func, params=p) if own else F.FunctionalEstimator(func)
    gx, gy = (x, y) if how == "array" else (_plain(H, x), _plain(H, y))
    x0, y0 = _list(x), _list(y)
    r = e.estimate(gx, gy)
    H.eq(r, v[0], "the value of the function", tol=0)
    H.eq(len(calls), 1, "the function is called once per estimate")
    a, b = calls[0]
    H.true(hasattr(a, "shape") and hasattr(b, "shape") and tuple(a.shape) == (n, dx) and tuple(b.shape) == (n, dy), "the function gets arrays of the given shapes")
    _same(H, a, x0, "the function gets the given X")
    _same(H, b, y0, "the function gets the given Y")
    q = e.estimate_with_info(gx, gy)
    H.eq(q.mi_estimate, v[1], "the value of the function", tol=0)
    H.eq(len(calls), 2, "the function is called once per estimate")
    _same(H, calls[1][0], x0, "the function gets the given X")
    _same(H, calls[1][1], y0, "the function gets the given Y")
    H.true(dict(q.additional_information) == {} and q.time_in_seconds is None, "nothing else is reported")
    H.true((e.parameters() is p or e.parameters() == p) if own else dict(e.parameters()) == {}, "parameters are the given ones, none by default")


def _make(H, kind):
    E = H.mod("bmi.estimators")
    if kind == "ksg":
        return E.KSGEnsembleFirstEstimator(neighborhoods=(1,), standardize=False, metric_x="manhattan", chunk_size=2)
    if kind == "ksg_slow":
        return H.mod("bmi.estimators.ksg").KSGEnsembleFirstEstimatorSlow(neighborhoods=(1,), standardize=False, metric_x="chebyshev")
    if kind == "histogram":
        return E.HistogramEstimator(n_bins_x=2, n_bins_y=3, standardize=False)
    if kind == "kde":
        return E.KDEMutualInformationEstimator(kernel_xy="gaussian", bandwidth_xy=0.5, bandwidth_y="scott", standardize=False)
    return E.CCAMutualInformationEstimator()


def _proper(H, x, y):
    from checks.c20 import _distinct

    _distinct(H, x, y)


KINDS = ("ksg", "ksg_slow", "histogram", "kde", "cca")


@case("C39", quick=[dict(kind=k, n1=2 if k.startswith("ksg") else 3, n2=3) for k in KINDS] + [dict(kind="kde", n1=2, n2=3)], thorough=[dict(kind=k, n1=a, n2=b) for k in KINDS for a, b in ((3, 4), (4, 3))], budget=60, budget_t=400)
def reused(H, kind, n1, n2):
    """one estimator object, used for an arbitrary sample first, then for another one"""
    s = [(H.array(f"x{t}", (n, 1), -3, 3), H.array(f"y{t}", (n, 1), -3, 3)) for t, n in ((1, n1), (2, n2))]
    for x, y in s:
        if kind == "cca":
            _proper(H, x, y)
        if kind == "histogram":  # (which points are extreme: the first and the last; the choice does not matter for this property)
            n = x.shape[0]
            for a in (x, y):
                for i in range(n - 1):
                    H.assume(a[i, 0] < a[i + 1, 0])
        if kind.startswith("ksg"):  # repeated points are outside the domain of formula (8) (digamma at zero)
            for i in range(x.shape[0]):
                for j in range(i):
                    H.assume((x[i, 0] < x[j, 0]) | (x[i, 0] > x[j, 0]) | (y[i, 0] < y[j, 0]) | (y[i, 0] > y[j, 0]))
    x0, y0 = _list(s[1][0]), _list(s[1][1])
    est = _make(H, kind)
    est.estimate(*s[0])
    earlier = est.get_predictions() if kind.startswith("ksg") else {}
    kept = dict(earlier)
    x, y = s[1]
    want = _make(H, kind).estimate(x, y)
    H.eq(est.estimate(x, y), want, "the value does not depend on earlier samples", tol=1e-7)
    H.true(set(earlier) == set(kept), "predictions handed out earlier are not changed")
    for k in kept:
        H.eq(earlier[k], kept[k], "predictions handed out earlier are not changed", tol=0)
    r = est.estimate_with_info(x, y)
    H.eq(r.mi_estimate, want, "estimate_with_info reports the estimate", tol=1e-7)
    _same(H, x, x0, "the sample is not modified")
    _same(H, y, y0, "the sample is not modified")
    H.eq(est.estimate(_plain(H, x), _plain(H, y)), want, "lists are treated as arrays", tol=1e-7)
