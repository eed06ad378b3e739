"""Neural estimators: standardisation, split, wiring of the configuration, batch-size guard, losses, critic network."""
import math
from itertools import permutations

from checks.c21_c22 import _sum
from checks.c25 import Vec, _close
from engine.harness import Skip, case

NEURAL = "bmi.estimators.neural"
NAMED = {"InfoNCE": "InfoNCEEstimator", "NWJ": "NWJEstimator", "DV": "DonskerVaradhanEstimator", "MINE": "MINEEstimator"}


def _standard(H, a):
    """rows of the standardised sample (population variance; constant coordinates are only centred)"""
    n, d = a.shape
    cols = []
    for k in range(d):
        mean = _sum(a[i, k] for i in range(n)) / n
        var = _sum((a[i, k] - mean) * (a[i, k] - mean) for i in range(n)) / n
        H.assume(var > (0 if H.symbolic else 1e-2))
        sd = H.np.sqrt(H.vec([var]))[0]
        cols.append([(a[i, k] - mean) / sd for i in range(n)])
    return [[cols[k][i] for k in range(d)] for i in range(n)]


def _rows(H, a):
    """a plain copy of a batch"""
    if not H.symbolic:
        import numpy as np

        try:
            return np.asarray(a, dtype=float).tolist()
        except Exception:
            raise Skip("batches not observable")
    return [[a[i, k] for k in range(a.shape[1])] for i in range(a.shape[0])]


def _match(H, row, rows):
    for i, c in enumerate(rows):
        if all(_close(H, u, v, 1e-3) for u, v in zip(row, c)):
            return i
    return None


def _spread(H, rows):
    """(replays) rows are far enough apart to be told apart"""
    if not H.symbolic:
        for i in range(len(rows)):
            for j in range(i):
                H.assume(max(abs(float(u) - float(v)) for u, v in zip(rows[i], rows[j])) > 0.02)


class Sgd:
    def __init__(self, H, lr, log):
        self.H, self.lr, self.log = H, lr, log

    def init(self, params):
        return 0

    def update(self, grads, state, params=None):
        self.log.append((grads, params))
        return self.H.jax.tree_util.tree_map(lambda g: -self.lr * g, grads), state


def _no_jit(H):
    if not H.symbolic:
        H.stub("jax.jit", lambda f=None, **k: f if f is not None else (lambda g: g))


Q = [dict(n=4, dx=1, dy=2, split=0.5, std=True, b=2, steps=2), dict(n=4, dx=2, dy=1, split=0.5, std=False, b=1, steps=2), dict(n=3, dx=1, dy=1, split=None, std=True, b=3, steps=1),
     dict(n=3, dx=1, dy=1, split=None, std=False, b=2, steps=2), dict(n=5, dx=1, dy=1, split=0.5, std=False, b=2, steps=1), dict(n=4, dx=1, dy=1, split=0.25, std=True, b=1, steps=1)]


@case("C26", quick=Q, thorough=Q + [dict(n=5, dx=2, dy=2, split=0.4, std=True, b=2, steps=2), dict(n=5, dx=1, dy=1, split=0.7, std=False, b=3, steps=1)], max_paths=20000, budget=90, budget_t=600)
def split(H, n, dx, dy, split, std, b, steps):
    """arbitrary sample; the formulas given to the estimator record what they are evaluated on"""
    N = H.mod(NEURAL)
    x, y = H.array("x", (n, dx), -3, 3), H.array("y", (n, dy), -3, 3)
    X, Y = (_standard(H, x), _standard(H, y)) if std else ([[x[i, k] for k in range(dx)] for i in range(n)], [[y[i, k] for k in range(dy)] for i in range(n)])
    _spread(H, X)
    _spread(H, Y)
    w, lr = H.real("w", -1, 1), H.real("learning_rate", 0.05, 1)
    seed = H.seed()
    log, lrs, train, test, made = [], [], [], [], []

    def adam(learning_rate=None, *a, **k):
        lrs.append(learning_rate)
        return Sgd(H, learning_rate, log)

    H.stub("optax.adam", adam)
    _no_jit(H)

    def formula(critic, xs, ys):
        train.append((_rows(H, xs), _rows(H, ys)))
        return critic.w[0] * 1.0

    def formula_test(critic, xs, ys):
        test.append((_rows(H, xs), _rows(H, ys)))
        return critic.w[0] * 2.0

    def factory(key, a, c):
        made.append((key, int(a), int(c)))
        return Vec(H.jvec([w]))

    every = H.pick("test_every", [1, 2])
    separate = H.pick("test_formula", [True, False])
    est = N.NeuralEstimatorBase(mi_formula=formula, mi_formula_name="recorder", critic_factory=factory, mi_formula_test=formula_test if separate else None, batch_size=b,
                                max_n_steps=steps, train_test_split=split, test_every_n_steps=every, learning_rate=lr, standardize=std, verbose=False, seed=seed)
    H.true(est.trained_critic is None, "no trained critic before estimating")
    x0, y0 = [[x[i, k] for k in range(dx)] for i in range(n)], [[y[i, k] for k in range(dy)] for i in range(n)]
    res = est.estimate_with_info(x, y)
    for i in range(n):
        for k in range(dx):
            H.eq(x[i, k], x0[i][k], "the given sample is not modified", tol=0)
        for k in range(dy):
            H.eq(y[i, k], y0[i][k], "the given sample is not modified", tol=0)
    if not separate:  # the training formula is used for the test data, after the step it belongs to
        seq, train2 = list(train), []
        t = 0
        while seq:
            train2.append(seq.pop(0))
            t += 1
            if t % every == 0:
                H.true(len(seq) > 0, "test data evaluated")
                test.append(seq.pop(0))
        train[:] = train2
    H.true(len(lrs) == 1 and len(made) == 1, "one critic is trained once")
    H.eq(lrs[0], lr, "learning rate passed on")
    H.true(made[0][1:] == (dx, dy), "critic made for the dimensions of X and Y")
    H.true(len(train) == steps and len(log) == steps, "max_n_steps passed on")
    H.true(len(test) == steps // every, "test_every_n_steps passed on")
    seen = set()

    def idx(rx, ry, what):
        out = []
        for u, v in zip(rx, ry):
            i = _match(H, u, X)
            H.true(i is not None and len(u) == dx and len(v) == dy, f"{what} points are points of the {'standardised' if std else 'given'} sample")
            for k in range(dx):
                H.eq(u[k], X[i][k], f"{what} x: standardised by all points iff requested", tol=2e-3, atol=2e-3)
            for k in range(dy):
                H.eq(v[k], Y[i][k], f"{what} y: standardised by all points iff requested, paired with its x", tol=2e-3, atol=2e-3)
            out.append(i)
        H.true(len(rx) == len(ry) and len(set(out)) == len(out), f"{what} points are distinct and paired")
        return out

    tr = [idx(a, c, "training") for a, c in train]
    te = [idx(a, c, "test") for a, c in test]
    ntr = n if split is None else int(split * n)
    H.true(all(len(t) == b for t in tr), "batch size passed on")
    for t in tr:
        seen |= set(t)
    if te:
        H.true(all(sorted(t) == sorted(te[0]) for t in te), "always the same test data")
        if split is None:
            H.true(sorted(te[0]) == list(range(n)), "no split: the whole sample is the test data")
        else:
            H.true(len(te[0]) == n - ntr, "size of the test part")
            H.true(not (seen & set(te[0])), "training and test data are disjoint")
            if b == ntr:
                H.true(seen | set(te[0]) == set(range(n)), "together they are the whole sample")
    best = None
    for s in range(every, steps + 1, every):
        v = (2.0 if separate else 1.0) * (w + lr * s)
        best = v if best is None or H.truth(v > best) else best
    if best is not None:
        H.eq(res.mi_estimate, best, "estimate is the final value of the training log", tol=1e-3, atol=1e-3)
    H.true(int(res.additional_information["n_training_steps"]) == steps, "additional information is the training log's")
    H.eq(est.trained_critic.w[0], w + lr * steps, "trained critic kept", tol=1e-3, atol=1e-3)
    p = est.parameters()
    H.true((p.mi_formula, p.batch_size, p.max_n_steps, p.train_test_split, p.test_every_n_steps, p.standardize) == ("recorder", b, steps, split, every, std), "parameters reported")
    H.eq(p.learning_rate, lr, "parameters reported")
    H.eq(p.seed, seed, "parameters reported")
    if H.symbolic:
        draws = [d for d in H.draws if d[0] in ("draw", "sk_split")]
        keys = [d[2] for d in draws if d[0] == "draw"]
        H.true(len(set(keys)) == len(keys) and made[0][0] not in keys, "initialisation, split and training use different keys")


def _linear(H, w, c, x, y):
    z = list(x) + list(y)
    return _sum(w[k] * z[k] for k in range(len(z))) + c


def _nearest(H, got, cands):
    """the candidate that is closest on one generic assignment: the one to be proved"""
    g = [float(H.probe(v)) for v in got]
    return min(cands, key=lambda c: max(abs(a - float(H.probe(b))) for a, b in zip(g, c)))


def _losses(H, name, f, u):
    """(value, weights of the scores in the derivative) of the estimator's loss; u: unpaired partner of every point (MINE)"""
    n = len(f)
    e, ln = H.np.exp, H.np.log
    off = [(i, j) for i in range(n) for j in range(n) if i != j]
    diag = _sum(f[i][i] for i in range(n)) / n
    g = {(i, i): 1.0 / n for i in range(n)}

    def add(ij, v):
        g[ij] = g.get(ij, 0.0) + v

    if name == "InfoNCE":
        v = diag
        for i in range(n):
            s = _sum(e(f[i][j]) for j in range(n))
            v = v - ln(s / n) / n
            for j in range(n):
                add((i, j), -e(f[i][j]) / s / n)
    elif name == "DV":
        s = _sum(e(f[i][j]) for i, j in off)
        v = diag - ln(s / len(off))
        for ij in off:
            add(ij, -e(f[ij[0]][ij[1]]) / s)
    elif name == "NWJ":
        v = diag
        for i, j in off:
            v = v - e(f[i][j] - 1.0) / len(off)
            add((i, j), -e(f[i][j] - 1.0) / len(off))
    else:
        s = _sum(e(f[i][u[i]]) for i in range(n))
        v = diag - ln(s / n)
        for i in range(n):
            add((i, u[i]), -e(f[i][u[i]]) / s)
    return v, g


L = [dict(name="InfoNCE", backend=None), dict(name="InfoNCE", backend="linear"), dict(name="NWJ", backend=None), dict(name="NWJ", backend="linear"),
     dict(name="DV", backend=None), dict(name="DV", backend="linear"), dict(name="MINE", backend=None)]


@case("C26", quick=L, thorough=L + [dict(name=k, backend=None, n=3) for k in ("InfoNCE", "NWJ", "DV", "MINE")], max_paths=6000, budget=90, budget_t=500)
def named(H, name, backend, n=2):
    """the named estimators with a critic without hidden layers: arbitrary points, initial weights and weights after the step"""
    N = H.mod(NEURAL)
    dx, dy = 1, 1
    x, y = H.array("x", (n, dx), -2, 2), H.array("y", (n, dy), -2, 2)
    X, Y = [[x[i, 0]] for i in range(n)], [[y[i, 0]] for i in range(n)]
    _spread(H, X)
    _spread(H, Y)
    lr = H.real("learning_rate", 0.05, 1)
    new = [H.real(f"w{k}", -1, 1) for k in range(dx + dy)] + [H.real("c", -1, 1)]
    if not H.symbolic:
        H.assume(abs(new[1]) > 0.2)
    log, lrs = [], []

    class Jump(Sgd):
        def update(self, grads, state, params=None):
            self.log.append((grads, params))
            tm = H.jax.tree_util.tree_map
            return tm(lambda p: (H.jmat([new[:-1]]) if tuple(p.shape) == (1, dx + dy) else H.jvec(new[-1:])) - p, params), state

    def adam(learning_rate=None, *a, **k):
        lrs.append(learning_rate)
        return Jump(H, learning_rate, log)

    H.stub("optax.adam", adam)
    _no_jit(H)
    kw = {} if backend is None else {"_train_backend": backend}
    seed = H.seed()
    make = lambda: getattr(N, NAMED[name])(batch_size=n, max_n_steps=1, train_test_split=None, test_every_n_steps=1, learning_rate=lr, hidden_layers=[], standardize=False,  # noqa: E731
                                           verbose=False, seed=seed, **kw)
    est = make()
    res = est.estimate_with_info(x, y)
    H.true(len(log) == 1 and len(lrs) == 1, "one training step")
    H.eq(lrs[0], lr, "learning rate passed on")
    leaves = lambda t: sorted(H.jax.tree_util.tree_leaves(t), key=lambda a: -a.ndim)  # noqa: E731
    (W, C), (gW, gC) = leaves(log[0][1]), leaves(log[0][0])
    H.true(tuple(W.shape) == (1, dx + dy) and tuple(C.shape) == (1,), "critic on the joined point, the configured hidden layers")
    f = [[_linear(H, W[0], C[0], X[i], Y[j]) for j in range(n)] for i in range(n)]
    us = list(permutations(range(n))) if name == "MINE" else [None]

    def grads(u):
        _, g = _losses(H, name, f, u)
        return [-_sum(c * (X[i] + Y[j] + [1.0])[k] for (i, j), c in g.items()) for k in range(dx + dy + 1)]

    got = [gW[0, k] for k in range(dx + dy)] + [gC[0]]
    cands = [grads(u) for u in us]
    for a, b in zip(got, _nearest(H, got, cands)):
        H.eq(a, b, f"training follows the gradient of the {name} loss", tol=5e-3, atol=5e-3)
    f = [[_linear(H, new[:-1], new[-1], X[i], Y[j]) for j in range(n)] for i in range(n)]
    vals = [_losses(H, name, f, u)[0] for u in us]
    H.eq(res.mi_estimate, _nearest(H, [res.mi_estimate], [[v] for v in vals])[0], f"estimate is the {name} value of the trained critic", tol=3e-3, atol=3e-3)
    H.true(est.trained_critic is not None, "trained critic kept")
    H.eq(make().estimate(x, y), res.mi_estimate, "estimate agrees with estimate_with_info", tol=1e-4)
    p = est.parameters()
    H.true((p.batch_size, p.max_n_steps, p.train_test_split, p.test_every_n_steps, p.standardize) == (n, 1, None, 1, False), "parameters reported")


@case("C26", quick=[dict(name=k, n=m, split=s) for k in NAMED for m, s in ((3, None), (4, 0.5))])
def guard(H, name, n, split):
    """every batch size larger than the training part: NaN with the flag, no training; otherwise training happens"""
    N = H.mod(NEURAL)
    x, y = H.array("x", (n, 1), -2, 2), H.array("y", (n, 1), -2, 2)
    std = H.pick("standardize", [True, False])
    if std:
        _standard(H, x), _standard(H, y)
    ntr = n if split is None else int(n * split)
    b = H.int("batch_size", 1, 6)
    log = []

    def adam(learning_rate=None, *a, **k):
        log.append("adam")
        raise _Stop()

    H.stub("optax.adam", adam)
    est = getattr(N, NAMED[name])(batch_size=b, max_n_steps=1, train_test_split=split, test_every_n_steps=1, learning_rate=0.1, hidden_layers=[1], standardize=std, verbose=False, seed=H.seed())
    try:
        res = est.estimate_with_info(x, y)
    except _Stop:
        res = None
    if H.truth(b > ntr):
        H.true(res is not None and not log, "no training when the batch is larger than the training part")
        v = res.mi_estimate
        H.true(isinstance(v, float) and math.isnan(v), "the estimate is NaN")
        H.true(bool(res.additional_information["batch_size_larger_than_train"]), "flag")
        H.true(est.trained_critic is None, "no trained critic")
        H.true(math.isnan(est.estimate(x, y)), "estimate agrees")
    else:
        H.true(res is None and bool(log), "a batch that fits is trained on")


class _Stop(Exception):
    pass


@case("C26", quick=[dict(name=k, split=s) for k in NAMED for s in (None, 0.5)], budget=60)
def guard_reused(H, name, split):
    """an estimator that was trained before is given a sample that is too small"""
    N = H.mod(NEURAL)
    H.scatter_draws()
    n1 = 2 if split is None else 4
    x1, y1 = H.mat([[0.25 * i * i] for i in range(n1)]), H.mat([[0.5 - 0.125 * i * i] for i in range(n1)])
    n2 = 1 if split is None else 3
    x, y = H.array("x", (n2, 1), -2, 2), H.array("y", (n2, 1), -2, 2)
    H.stub("optax.adam", lambda learning_rate=None, *a, **k: Sgd(H, learning_rate, []))
    _no_jit(H)
    est = getattr(N, NAMED[name])(batch_size=2, max_n_steps=1, train_test_split=split, test_every_n_steps=1, learning_rate=0.1, hidden_layers=[], standardize=False, verbose=False, seed=H.seed())
    first = est.estimate_with_info(x1, y1)
    H.true("batch_size_larger_than_train" not in first.additional_information, "a batch that fits is trained on")
    res = est.estimate_with_info(x, y)
    v = res.mi_estimate
    H.true(isinstance(v, float) and math.isnan(v), "the estimate is NaN")
    H.true(bool(res.additional_information["batch_size_larger_than_train"]), "flag")
    H.true(math.isnan(est.estimate(x, y)), "estimate agrees")


@case("C26", quick=[dict(name=k) for k in NAMED], max_paths=4000, budget=90)
def seeded(H, name):
    """equal seeds give equal results; the whole run depends on the seed only"""
    N = H.mod(NEURAL)
    n = 4
    x, y = H.array("x", (n, 1), -2, 2), H.array("y", (n, 1), -2, 2)
    seed = H.seed()

    def adam(learning_rate=None, *a, **k):
        return Sgd(H, learning_rate, [])

    H.stub("optax.adam", adam)
    out = []
    for _ in range(2):
        est = getattr(N, NAMED[name])(batch_size=2, max_n_steps=1, train_test_split=0.5, test_every_n_steps=1, learning_rate=0.25, hidden_layers=[], standardize=False, verbose=False, seed=seed)
        out.append((est.estimate(x, y), H.jax.tree_util.tree_leaves(est.trained_critic)))
    H.eq(out[0][0], out[1][0], "equal seeds give equal estimates")
    for a, b in zip(out[0][1], out[1][1]):
        H.eq(a, b, "equal seeds give equal critics")
    r1 = est.estimate(x, y)
    H.eq(r1, out[0][0], "estimating twice gives the same value")


@case("C26", quick=[dict(name=k) for k in NAMED])
def config(H, name):
    """arbitrary configuration: reported as given"""
    N = H.mod(NEURAL)
    kw = dict(batch_size=H.int("batch_size", 1, 500), max_n_steps=H.int("max_n_steps", 1, 10**5), test_every_n_steps=H.int("test_every", 1, 10**4), learning_rate=H.real("learning_rate", 1e-5, 2),
              train_test_split=H.pick("split", [None, 0.3, 0.5]), standardize=H.pick("standardize", [True, False]), hidden_layers=H.pick("hidden", [[], [3], [5, 2], [4, 3, 2, 6]]))
    if name == "MINE":
        kw["smoothing_alpha"] = H.real("alpha", 0.01, 0.99)
    seed = H.int("seed", 0, 10**6)
    est = getattr(N, NAMED[name])(seed=seed, verbose=H.pick("verbose", [True, False]), **kw)
    p = est.parameters()
    d = p.dict()
    for k, v in kw.items():
        src = d if k in d else d["critic_params"]
        if isinstance(v, (list, bool)) or v is None:
            H.true(src[k] == v, f"parameters report {k}")
        else:
            H.eq(src[k], v, f"parameters report {k}")
    H.eq(p.seed, seed, "parameters report seed")


@case("C26", quick=[dict(name=k) for k in NAMED], budget=100)
def seed_used(H, name):
    """any two different seeds: all random draws of the two runs are different"""
    N = H.mod(NEURAL)
    seed, other = H.int("seed", 0, 10**6), H.int("other_seed", 0, 10**6)
    H.assume(seed != other)
    n = 2
    x, y = H.array("x", (n, 1), -2, 2), H.array("y", (n, 1), -2, 2)
    H.stub("optax.adam", lambda learning_rate=None, *a, **k: Sgd(H, learning_rate, []))
    out, drawn = [], []
    for s in (seed, other):
        before = len(H.draws)
        e = getattr(N, NAMED[name])(batch_size=2, max_n_steps=1, train_test_split=None, test_every_n_steps=1, learning_rate=0.5, hidden_layers=[2], standardize=False, verbose=False, seed=s)
        e.estimate(x, y)
        drawn.append({d[2] for d in H.draws[before:] if d[0] == "draw"})
        out.append(H.jax.tree_util.tree_leaves(e.trained_critic))
    if H.symbolic:
        H.true(bool(drawn[0]) and not drawn[0] & drawn[1], "different seeds give different randomness")
    else:
        H.true(any(abs(float(u) - float(v)) > 1e-6 for a, c in zip(*out) for u, v in zip(H.np.ravel(a), H.np.ravel(c))), "different seeds give different randomness")


@case("C26", quick=[dict(dx=1, dy=1, hidden=()), dict(dx=2, dy=1, hidden=(2,)), dict(dx=1, dy=2, hidden=(2, 1)), dict(dx=1, dy=1, hidden=(1, 2)), dict(dx=1, dy=1, hidden=(1, 2, 1)), dict(dx=1, dy=1, hidden=(2, 2))],
      thorough=[dict(dx=a, dy=b, hidden=h) for a in (1, 2) for b in (1, 2) for h in ((), (1,), (3,), (2, 2), (2, 3), (1, 1, 1))])
def network(H, dx, dy, hidden):
    """every weight: the critic is the ReLU network with the configured layers on the joined point"""
    m = H.mod("bmi.estimators.neural._critics")
    net = m.MLP(key=H.key(H.seed()), dim_x=dx, dim_y=dy, hidden_layers=list(hidden))
    tu = H.jax.tree_util
    leaves, td = tu.tree_flatten(net, is_leaf=lambda v: hasattr(v, "shape"))
    dims = [dx + dy] + list(hidden) + [1]
    want = [s for a, b in zip(dims, dims[1:]) for s in ((b, a), (b,))]
    H.true([tuple(v.shape) for v in leaves] == want, "layers dim_x + dim_y -> hidden layers -> 1")
    if not H.symbolic:
        for i, u in enumerate(leaves):
            for v in leaves[:i]:
                if tuple(u.shape) == tuple(v.shape):
                    H.true(not all(abs(float(p) - float(q)) < 1e-6 for p, q in zip(H.np.ravel(u), H.np.ravel(v))), "every layer is initialised with its own randomness")
    new, ws = [], []
    for i, s in enumerate(want):
        a = H.array(f"p{i}", s, -1, 1)
        ws.append(a)
        new.append(H.jmat([[a[r, c] for c in range(s[1])] for r in range(s[0])]) if len(s) == 2 else H.jvec([a[r] for r in range(s[0])]))
    net = tu.tree_unflatten(td, new)
    x, y = [H.real(f"x{k}", -2, 2) for k in range(dx)], [H.real(f"y{k}", -2, 2) for k in range(dy)]
    z = x + y
    for i in range(len(dims) - 1):
        Wt, bt = ws[2 * i], ws[2 * i + 1]
        z = [_sum(Wt[r, c] * z[c] for c in range(len(z))) + bt[r] for r in range(dims[i + 1])]
        if i < len(dims) - 2:
            if not H.symbolic:
                for v in z:
                    H.assume(abs(v) > 1e-3)
            z = [v if H.truth(v > 0) else 0.0 for v in z]
    got = net(H.jvec(x), H.jvec(y))
    H.true(tuple(H.np.shape(got)) == (), "scalar output")
    H.eq(got, z[0], "ReLU network on the joined point", tol=1e-3, atol=1e-3)


@case("C26", quick=[dict(name=k) for k in NAMED])
def bad_split(H, name):
    """a share which leaves one of the two parts empty is rejected, nothing is trained on"""
    N = H.mod(NEURAL)
    share = H.pick("share", [0.0, 1.0, 1.5, -0.5])
    n = H.pick("n", [4, 5])
    x, y = H.array("x", (n, 1), -2, 2), H.array("y", (n, 1), -2, 2)

    def run():
        e = getattr(N, NAMED[name])(batch_size=1, max_n_steps=1, train_test_split=share, test_every_n_steps=1, hidden_layers=[2], verbose=False, seed=H.seed())
        return e.estimate(x, y)

    H.raises(Exception, run, "a share leaving the training or the test part empty is rejected")
