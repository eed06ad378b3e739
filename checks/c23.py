"""MINE: value, bias-corrected gradient, smoothed denominator, pairing."""
import equinox as eqx

from checks.c21_c22 import _sum, lse, points, scores
from engine.harness import case

MOD = "bmi.estimators.neural._mine_estimator"


class Table(eqx.Module):
    """a critic whose parameters are its scores T[i, j] at the points with first coordinates i, j (every critic is one, on a given batch)"""

    T: object

    def __call__(self, x, y):
        def ix(v):
            v = v.ravel()[0] if hasattr(v, "ravel") else v
            return int(round(float(v.const()))) if hasattr(v, "const") else v.astype(int)

        return self.T[ix(x[0]), ix(y[0])]


def critic(H, T):
    return Table(H.jmat(T))


def _unpaired(H, n):
    return H.perm("unpaired", n)


def _value(H, T, n, u):
    return _sum(T[i][i] for i in range(n)) / n - (lse(H, [T[i][u[i]] for i in range(n)]) - H.np.log(H.vec([n]))[0])


@case("C23", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=n) for n in (1, 2, 3, 4)])
def value(H, n):
    T = scores(H, n, 60)
    u = _unpaired(H, n)
    p = points(H, range(n))
    v = H.mod(MOD)._mine_value(critic(H, T), p, p, points(H, u))
    H.eq(v, _value(H, T, n, u), "mean score of the pairs minus log-mean-exp of the unpaired scores", tol=1e-3, atol=1e-3)


@case("C23", quick=[dict(n=1, first=False), dict(n=2, first=False), dict(n=2, first=True), dict(n=3, first=True)],
      thorough=[dict(n=n, first=f) for n in (1, 2, 3, 4) for f in (False, True)])
def gradient(H, n, first):
    """arbitrary scores, pairing, smoothing weight and history"""
    T = scores(H, n, 6)
    u = _unpaired(H, n)
    p = points(H, range(n))
    al = H.real("alpha", 0.05, 0.95)
    prev = float("-inf") if first else H.real("log_denom", -300, 60)
    if H.symbolic or first:
        pv = prev if not first else H.np.asarray(-H.np.inf)
    else:
        pv = prev
    v, g, ld = H.mod(MOD)._mine_value_neg_grad_log_denom(critic(H, T), p, p, points(H, u), pv, al)
    H.eq(v, _value(H, T, n, u), "value", tol=1e-3, atol=1e-3)
    e = H.np.exp
    batch = _sum(e(T[i][u[i]]) for i in range(n)) / n
    den = batch if first else al * batch + (1 - al) * e(prev)
    H.eq(e(ld) / den, 1, "smoothed denominator: alpha x batch + (1 - alpha) x history, the first step has no history", tol=1e-3)
    for i in range(n):
        for j in range(n):
            d_mean = 1.0 / n if i == j else 0.0
            d_lme = e(T[i][j]) / (n * batch) if u[i] == j else 0.0
            want = batch / den * d_lme - d_mean
            H.eq(g.T[i, j], want, "negative gradient", tol=2e-3, atol=2e-4)


@case("C23", quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)])
def history(H, n):
    """two steps: the second one's denominator carries the first one's"""
    A, C = scores(H, n, 5, "f"), scores(H, n, 5, "g")
    p = points(H, range(n))
    q = points(H, list(reversed(range(n))))
    al = H.real("alpha", 0.05, 0.95)
    m = H.mod(MOD)
    _, _, l1 = m._mine_value_neg_grad_log_denom(critic(H, A), p, p, q, -H.np.inf, al)
    _, g, l2 = m._mine_value_neg_grad_log_denom(critic(H, C), p, p, q, l1, al)
    e = H.np.exp
    b1 = _sum(e(A[i][n - 1 - i]) for i in range(n)) / n
    b2 = _sum(e(C[i][n - 1 - i]) for i in range(n)) / n
    den = al * b2 + (1 - al) * b1
    H.eq(e(l2), den, "the running denominator after two steps", tol=1e-3)
    for i in range(n):
        j = n - 1 - i
        H.eq(g.T[i, j], e(C[i][j]) / (n * den) - (1.0 / n if i == j else 0.0), "negative gradient of the second step", tol=2e-3, atol=2e-4)


def _idx(H, a):
    out = []
    for r in range(a.shape[0]):
        v = a[r, 0]
        out.append(int(round(float(v.const() if hasattr(v, "const") else v))))
    return out


@case("C23", quick=[dict(n=3, b=2), dict(n=4, b=1), dict(n=3, b=3), dict(n=3, b=None)],
      thorough=[dict(n=n, b=b) for n in (2, 3, 4) for b in (1, 2, 3, None) if b is None or b <= n])
def pairing(H, n, b):
    """every draw: paired rows stay together, unpaired rows are drawn separately, without replacement"""
    m = H.mod(MOD)
    xs, ys = points(H, range(n)), H.jmat([[float(i), 10.0 + i, 20.0 + i] for i in range(n)])
    seed = H.seed()
    before = len(H.draws)
    x, yp, yu = m._sample_paired_unpaired(H.key(seed), xs=xs, ys=ys, batch_size=b)
    k = n if b is None else b
    H.true(tuple(x.shape) == (k, 1) and tuple(yp.shape) == (k, 3) and tuple(yu.shape) == (k, 3), "shapes")
    ix, ip, iu = _idx(H, x), _idx(H, yp), _idx(H, yu)
    H.true(ix == ip, "paired batches keep x_i with y_i")
    H.true(len(set(ix)) == k and len(set(iu)) == k, "drawn without replacement")
    H.true(all(0 <= i < n for i in ix + iu), "drawn from the given points")
    for a in (yp, yu):
        c = _idx(H, a)
        H.true(_idx(H, a[:, 1:2]) == [10 + i for i in c] and _idx(H, a[:, 2:]) == [20 + i for i in c], "the coordinates of a point stay together")
    if H.symbolic:
        keys = [d[2] for d in H.draws[before:] if d[0] == "draw"]
        H.true(len(keys) == (1 if b is None else 2) and len(set(keys)) == len(keys), "unpaired batch drawn independently")
        H.true(not any(d[0] == "split" and d[1] in keys for d in H.draws[before:]), "unpaired batch drawn independently")
    else:
        diff = False
        for s in range(12):
            x2, _, yu2 = m._sample_paired_unpaired(H.key(s), xs=points(H, range(9)), ys=points(H, range(9)), batch_size=None if b is None else 9 if b == n else 5)
            diff = diff or _idx(H, x2) != _idx(H, yu2)
        H.true(diff, "unpaired batch drawn independently")
