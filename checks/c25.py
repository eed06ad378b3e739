"""Training loops: schedule, batches, optimizer steps, test evaluation, early stopping."""
import equinox as eqx

from checks.c21_c22 import _sum
from checks.c23 import Table
from engine.harness import Skip, case

BASIC = "bmi.estimators.neural._basic_training"
MINE = "bmi.estimators.neural._mine_estimator"
TEST0 = 50  # test points carry indices from here on


class Vec(eqx.Module):
    """a critic with a parameter vector"""

    w: object


def _ints(H, a):
    """first coordinates of the points of a batch"""
    out = []
    for r in range(a.shape[0]):
        v = a[r, 0]
        if hasattr(v, "const"):
            out.append(int(round(float(v.const()))))
        else:
            try:
                out.append(int(round(float(v))))
            except Exception:  # traced by a compiled step: the batches cannot be observed on this run
                raise Skip("batches not observable")
    return out


class Optimizer:
    """an arbitrary gradient-based optimizer: the update is minus a positive step-dependent multiple of the gradient"""

    def __init__(self, H, lr, mult, log):
        self.H, self.lr, self.mult, self.log = H, lr, mult, log

    def init(self, params):
        self.log.append(("init", params))
        return 0

    def update(self, grads, state, params=None):
        k = int(state)
        self.log.append(("update", k, grads, params))
        s = self.lr * self.mult[k]
        return self.H.jax.tree_util.tree_map(lambda g: -s * g, grads), k + 1


def _install(H, n_steps):
    log = []
    mult = [H.real(f"step{i}", 0.1, 2) for i in range(n_steps)]

    def adam(learning_rate=None, *a, **k):
        log.append(("adam", learning_rate))
        return Optimizer(H, learning_rate, mult, log)

    H.stub("optax.adam", adam)
    if not H.symbolic:  # steps run eagerly, so that their arguments can be observed
        H.stub("jax.jit", lambda f=None, **k: f if f is not None else (lambda g: g))
    return log, mult


def _points(H, lo, n, extra=0):
    return H.jmat([[float(lo + i)] + [0.25] * extra for i in range(n)])


def _distinct(H, b, what):
    H.true(len(set(b)) == len(b), f"{what}: without replacement")


def _expected_stop(H, values, every, n, early):
    """(number of steps run, best value) by the early-stop rule"""
    best, bad = None, 0
    for i in range(1, n + 1):
        if i % every == 0:
            v = values(i)
            if best is None or H.truth(v > best):
                best, bad = v, 0
            else:
                bad += 1
        if early and bad >= 2:
            return i, best
    return n, best


B = [dict(n=2, b=1, steps=3, every=1, d=2), dict(n=3, b=2, steps=2, every=2, d=1), dict(n=2, b=None, steps=4, every=1, d=1), dict(n=2, b=2, steps=3, every=2, d=1),
     dict(n=3, b=1, steps=2, every=3, d=1)]


@case("C25", quick=B, thorough=B + [dict(n=3, b=2, steps=3, every=1, d=2), dict(n=2, b=1, steps=5, every=2, d=1), dict(n=2, b=1, steps=4, every=1, d=1), dict(n=4, b=2, steps=2, every=1, d=1)], max_paths=6000)
def basic(H, n, b, steps, every, d):
    """an arbitrary objective (linear in the parameters, with coefficients depending on the batch), arbitrary data-dependent test values"""
    m = H.mod(BASIC)
    log, mult = _install(H, steps)
    early = H.pick("early_stopping", [True, False])
    have_test = H.pick("test", [True, False])
    w0 = [H.real(f"w{k}", -20, 20) for k in range(d)]
    A = [[H.real(f"a{i}{k}", -2, 2) for k in range(d)] for i in range(n)]
    C = [H.real(f"c{i}", -20, 20) for i in range(n)]
    T = [H.real(f"t{k}", -20, 20) for k in range(d)]
    lr = H.real("learning_rate", 0.05, 1)
    train, test = [], []

    def mi(critic, xs, ys):
        ix, iy = _ints(H, xs), _ints(H, ys)
        train.append((ix, iy))
        return _sum(_sum(critic.w[k] * A[i][k] for k in range(d)) + C[i] for i in ix) / len(ix)

    def mi_test(critic, xs, ys):
        test.append((_ints(H, xs), _ints(H, ys)))
        return _sum(critic.w[k] * T[k] for k in range(d)) * len(test[-1][0])

    xs, ys = _points(H, 0, n), _points(H, 0, n, 1)
    kw = dict(xs_test=_points(H, TEST0, 2), ys_test=_points(H, TEST0, 2, 1)) if have_test else {}
    tl, critic = m.basic_training(rng=H.key(H.seed()), critic=Vec(H.jvec(w0)), mi_formula=mi, mi_formula_test=mi_test, xs=xs, ys=ys, batch_size=b,
                                  test_every_n_steps=every, max_n_steps=steps, early_stopping=early, learning_rate=lr, verbose=False, **kw)
    run = len(train)
    H.true([e[0] for e in log].count("adam") == 1, "one optimizer")
    H.eq(log[0][1], lr, "learning rate passed to the optimizer")
    # the parameters after every step, from the observed batches
    w = [list(w0)]
    size = n if b is None else b
    for t, (ix, iy) in enumerate(train):
        H.true(ix == iy, "batches keep x_i with y_i")
        H.true(len(ix) == size and all(0 <= i < n for i in ix), "batches of the configured size come from the training data only")
        _distinct(H, ix, "batch")
        g = [_sum(A[i][k] for i in ix) / size for k in range(d)]
        w.append([w[-1][k] + lr * mult[t] * g[k] for k in range(d)])
    nt = 2 if have_test else n
    tv = lambda i: _sum(w[i][k] * T[k] for k in range(d)) * nt  # noqa: E731
    if not H.symbolic:
        for i in range(1, run + 1):
            for j in range(1, i):
                H.assume(abs(tv(i) - tv(j)) > 1e-3 or tv(i) == tv(j))
    stop, best = _expected_stop(H, tv, every, min(steps, run), early)
    H.true(run == stop and (run == steps or _expected_stop(H, tv, every, run, early)[0] == run), "runs until max_n_steps or the early-stop rule")
    if run < steps:
        H.true(early and _bad(H, tv, every, run) >= 2, "stops early only when the rule fires")
    H.eq(critic.w, H.jvec(w[-1]), "returned critic is the one after the last step", tol=1e-3)
    H.true(len(test) == run // every, "test data evaluated after exactly every test_every_n_steps-th step")
    want = list(range(TEST0, TEST0 + 2)) if have_test else list(range(n))
    for ix, iy in test:
        H.true(ix == want and iy == want, "the whole test data is evaluated, nothing else")
    info = tl.additional_information
    H.eq(info["n_training_steps"], run, "number of steps reported")
    h = info["test_history"]
    H.true([int(s) for s, _ in h] == [i for i in range(1, run + 1) if i % every == 0], "test steps")
    for s, v in h:
        H.eq(v, tv(int(s)), "test value of the critic of that step", tol=1e-3)
    if best is not None:
        H.eq(tl.final_mi, best, "final estimate is the best test value", tol=1e-3)
    H.true(bool(info.get("early_stopping_not_triggered", False)) == (early and _bad(H, tv, every, run) < 2), "warning only without early stop")
    for t, (s, v) in enumerate(tl._mi_train_history if hasattr(tl, "_mi_train_history") else []):
        H.eq(v, _sum(_sum(w[t][k] * A[i][k] for k in range(d)) + C[i] for i in train[t][0]) / size, "training value logged for the step", tol=1e-3)


def _bad(H, values, every, n):
    best, bad = None, 0
    for i in range(1, n + 1):
        if i % every == 0:
            v = values(i)
            if best is None or H.truth(v > best):
                best, bad = v, 0
            else:
                bad += 1
    return bad


@case("C25", quick=[dict(n=2, steps=2)], thorough=[dict(n=2, steps=2), dict(n=3, steps=2)])
def one_formula(H, n, steps):
    """without a test formula the training one is used on the test data"""
    m = H.mod(BASIC)
    _install(H, steps)
    calls = []

    def mi(critic, xs, ys):
        calls.append((_ints(H, xs), _ints(H, ys)))
        return critic.w[0] * 1.0

    m.basic_training(rng=H.key(H.seed()), critic=Vec(H.jvec([H.real("w", -1, 1)])), mi_formula=mi, xs=_points(H, 0, n), ys=_points(H, 0, n),
                     xs_test=_points(H, TEST0, 1), ys_test=_points(H, TEST0, 1), batch_size=None, test_every_n_steps=1, max_n_steps=steps, learning_rate=0.5, verbose=False)
    idx = list(range(n))
    H.true(calls == [(idx, idx), ([TEST0], [TEST0])] * steps, "training and test evaluations alternate")


@case("C25", quick=[dict(n=40, b=20, nt=1100, steps=3, every=2), dict(n=1100, b=None, nt=300, steps=2, every=1), dict(n=70, b=70, nt=None, steps=2, every=2)],
      thorough=[dict(n=300, b=129, nt=5000, steps=4, every=3), dict(n=5000, b=None, nt=None, steps=2, every=1)])
def larger_data(H, n, b, nt, steps, every):
    """many points: the batches come from scattered draws (their exact order is not explored here)"""
    m = H.mod(BASIC)
    _, mult = _install(H, steps)
    H.scatter_draws()
    w0, lr = H.real("w", -20, 20), H.real("learning_rate", 0.05, 1)
    train, test = [], []

    def mi(critic, xs, ys):
        train.append((_ints(H, xs), _ints(H, ys)))
        return critic.w[0] * 1.0

    def mi_test(critic, xs, ys):
        test.append((_ints(H, xs), _ints(H, ys)))
        return critic.w[0] * 1.0

    kw = dict(xs_test=_points(H, 10000, nt), ys_test=_points(H, 10000, nt, 1)) if nt else {}
    tl, critic = m.basic_training(rng=H.key(H.seed()), critic=Vec(H.jvec([w0])), mi_formula=mi, mi_formula_test=mi_test, xs=_points(H, 0, n), ys=_points(H, 0, n, 1), batch_size=b,
                                  test_every_n_steps=every, max_n_steps=steps, early_stopping=False, learning_rate=lr, verbose=False, **kw)
    H.true(len(train) == steps and len(test) == steps // every, "steps and evaluations")
    for ix, iy in train:
        H.true(ix == iy, "batches keep x_i with y_i")
        H.true(len(ix) == (b or n) and all(0 <= i < n for i in ix), "batches of the configured size come from the training data only")
        _distinct(H, ix, "batch")
    want = list(range(10000, 10000 + nt)) if nt else list(range(n))
    for ix, iy in test:
        H.true(sorted(ix) == want and iy == ix, "the whole test data is evaluated, nothing else")
    H.eq(critic.w, H.jvec([w0 + lr * _sum(mult[:steps])]), "returned critic is the one after the last step", tol=1e-3)


# ------------------------------------------------------------------------------------------------ MINE
class Trainable(Optimizer):
    """an arbitrary optimizer: the k-th step moves the critic to an arbitrary next one"""

    def __init__(self, H, states, log):
        self.H, self.states, self.log = H, states, log

    def update(self, grads, state, params=None):
        k = int(state)
        self.log.append(("update", k, grads, params))
        return self.H.jax.tree_util.tree_map(lambda p: self.H.jmat(self.states[k + 1]) - self.H.jmat(self.states[k]), params), k + 1


def _close(H, a, b, tol=2e-3):
    """(only to identify what was observed; the agreement itself is proved)"""
    a, b = float(H.probe(a)), float(H.probe(b))
    return abs(a - b) < (1e-9 if H.symbolic else tol) * (1 + abs(b))


def _pairings(n, b):
    """what a step may have seen: (paired indices, unpaired pairs)"""
    from itertools import permutations

    if b is None or b == n:
        return [(list(range(n)), list(zip(range(n), u))) for u in permutations(range(n))]
    return [(list(p), list(zip(p, u))) for p in permutations(range(n), b) for u in permutations(range(n), b)]


def _mean(H, vs):
    return _sum(vs) / len(vs)


M = [dict(n=2, b=2, steps=1, every=1, nt=0), dict(n=2, b=2, steps=2, every=2), dict(n=2, b=1, steps=2, every=2), dict(n=2, b=None, steps=2, every=1, nt=2), dict(n=1, b=1, steps=4, every=1), dict(n=1, b=1, steps=2, every=1, level=-45), dict(n=1, b=1, steps=2, every=1, level=45)]


@case("C25", quick=M, thorough=M + [dict(n=2, b=1, steps=3, every=3), dict(n=2, b=2, steps=2, every=1, nt=2), dict(n=2, b=1, steps=3, every=2, nt=2), dict(n=3, b=2, steps=1, every=1), dict(n=3, b=1, steps=2, every=2)],
      max_paths=20000, budget=100, budget_t=700)
def mine(H, n, b, steps, every, nt=1, level=0):
    """arbitrary scores before and after every step, arbitrary smoothing weight and learning rate; nt=0: no test data, the training data are used"""
    m = H.mod(MINE)
    log = []
    early = H.pick("early_stopping", [True, False])
    lr, al = H.real("learning_rate", 0.05, 1), H.real("alpha", 0.05, 0.95)
    N = n + nt  # the last points are the test data
    own = nt == 0
    states = [[[level + H.real(f"f{t}_{i}{j}", -2, 2) for j in range(N)] for i in range(N)] for t in range(steps + 1)]

    def adam(learning_rate=None, *a, **k):
        log.append(("adam", learning_rate))
        return Trainable(H, states, log)

    H.stub("optax.adam", adam)
    if not H.symbolic:
        H.stub("jax.jit", lambda f=None, **k: f if f is not None else (lambda g: g))
    P = lambda r: H.jmat([[float(i)] for i in r])  # noqa: E731
    tl, critic = m.mine_training(rng=H.key(H.seed()), critic=Table(H.jmat(states[0])), xs=P(range(n)), ys=P(range(n)),
                                 **({} if own else dict(xs_test=P(range(n, N)), ys_test=P(range(n, N)))), alpha=al, batch_size=b, test_every_n_steps=every, max_n_steps=steps, early_stopping=early, learning_rate=lr, verbose=False)
    H.eq(log[0][1], lr, "learning rate passed to the optimizer")
    e, ln = H.np.exp, H.np.log
    info = tl.additional_information
    run = int(info["n_training_steps"])
    hist = tl._mi_train_history
    ups = [u for u in log if u[0] == "update"]
    H.true(len(ups) == run and [u[1] for u in ups] == list(range(run)), "one optimizer update per step, the optimizer state is carried along")
    H.true([int(s) for s, _ in hist] == list(range(1, run + 1)), "training values logged for steps 1, 2, ...")
    H.true(run == steps or early, "runs to the end unless stopped early")
    H.true([int(s) for s, _ in info["test_history"]] == [i for i in range(1, run + 1) if i % every == 0], "test data evaluated after exactly every test_every_n_steps-th step")
    tests = {int(s): v for s, v in info["test_history"]}
    hyps, tvals = [None], {}
    for t in range(run):
        F = states[t]
        g = ups[t][2].T
        H.eq(ups[t][3].T, H.jmat(F), "the step updates the current critic", tol=1e-3, atol=1e-3)
        cand = []
        for den in hyps:
            for pr, un in _pairings(n, b):
                k = len(pr)
                batch = _mean(H, [e(F[i][j]) for i, j in un])
                value = _mean(H, [F[i][i] for i in pr]) - ln(batch)
                d2 = batch if den is None else al * batch + (1 - al) * den
                grad = {}
                for i, j in un:
                    grad[i, j] = grad.get((i, j), 0) + e(F[i][j]) / (k * d2)
                for i in pr:
                    grad[i, i] = grad.get((i, i), 0) - 1.0 / k
                fits = _close(H, hist[t][1], value) and all(_close(H, g[i, j], grad.get((i, j), 0.0), 5e-3) for i in range(N) for j in range(N))
                cand.append((fits, value, grad, d2))
        fit = [c for c in cand if c[0]] or cand[:1]
        _, value, grad, _ = fit[0]
        H.eq(hist[t][1], value, "training value: mean paired score minus log-mean-exp of an unpaired batch", tol=2e-3, atol=2e-3)
        for i in range(N):
            for j in range(N):
                H.eq(g[i, j], grad.get((i, j), 0.0), "the step follows the bias-corrected gradient, with the history of all previous steps", tol=5e-3, atol=5e-3)
        hyps = []
        for c in fit:
            if not any(_close(H, c[3], h, 1e-6) for h in hyps):
                hyps.append(c[3])
        if t + 1 in tests:
            F = states[t + 1]
            v = tests[t + 1]
            o, q = (0, n) if own else (n, nt)
            opts = [_mean(H, [F[o + i][o + i] for i in range(q)]) - ln(_mean(H, [e(F[o + i][o + (i + u) % q]) for i in range(q)])) for u in range(q)]
            fit = [o for o in opts if _close(H, v, o)]
            H.eq(v, (fit or opts)[0], "test value of the critic of that step on the test data", tol=3e-3, atol=3e-3)
            tvals[t + 1] = v
    H.eq(critic.T, H.jmat(states[run]), "returned critic is the one after the last step", tol=1e-3, atol=1e-3)
    bad = _bad(H, lambda i: tvals[i], every, run)
    if run < steps:
        H.true(early and bad >= 2, "stops early only when the rule fires")
    for i in range(1, run):
        H.true(not early or _bad(H, lambda j: tvals[j], every, i) < 2, "stops as soon as the rule fires")
    if tvals:
        best = None
        for v in tvals.values():
            best = v if best is None or H.truth(v > best) else best
        H.eq(tl.final_mi, best, "final estimate is the best test value")


def _repeats(H, runs):
    """runs: per seed, what was seen at every step; a pair of steps which agree for every seed uses the same draw"""
    k = min(len(r) for r in runs)
    return [(i, j) for i in range(k) for j in range(i + 1, k) if all(r[i] == r[j] for r in runs)]


@case("C25", quick=[dict(every=1), dict(every=2), dict(every=3), dict(every=7, steps=40)], thorough=[dict(every=e, steps=6) for e in (1, 2, 3, 4)] + [dict(every=50, steps=300)])
def fresh_batches(H, every, steps=4):
    """every key: the batches of different steps are drawn from different (independent) keys"""
    m = H.mod(BASIC)
    n, b = (1, 1) if H.symbolic else (12, 5)
    runs = []
    for s in [None] if H.symbolic else range(5):
        _install(H, steps)
        seen = []

        def mi(critic, xs, ys):
            seen.append(tuple(_ints(H, xs)))
            return critic.w[0] * 1.0

        before = len(H.draws)
        m.basic_training(rng=H.key(H.seed() if s is None else s), critic=Vec(H.jvec([0.5])), mi_formula=mi, mi_formula_test=lambda c, x, y: c.w[0] * 1.0, xs=_points(H, 0, n), ys=_points(H, 0, n),
                         xs_test=_points(H, TEST0, 1), ys_test=_points(H, TEST0, 1), batch_size=b, test_every_n_steps=every, max_n_steps=steps, early_stopping=False, learning_rate=0.5, verbose=False)
        if H.symbolic:
            runs.append([d[2] for d in H.draws[before:] if d[0] == "draw"])
        else:
            runs.append(seen)
    H.true(len(runs[0]) == steps and not _repeats(H, runs), "a fresh batch for every step")


@case("C25", quick=[dict(every=1), dict(every=2)], thorough=[dict(every=e, steps=4) for e in (1, 2, 3)])
def fresh_batches_mine(H, every, steps=3):
    """every key: paired and unpaired batches of different steps are drawn from different (independent) keys"""
    m = H.mod(MINE)
    n, b = (1, 1) if H.symbolic else (9, 4)
    F = [[(((7 * i + 3 * j * j + i * j) % 23) - 11) / 10.0 for j in range(n)] for i in range(n)]
    runs = []
    for s in [None] if H.symbolic else range(5):
        H.stub("optax.adam", lambda learning_rate=None, *a, **k: Trainable(H, [F] * (steps + 1), []))
        if not H.symbolic:
            H.stub("jax.jit", lambda f=None, **k: f if f is not None else (lambda g: g))
        before = len(H.draws)
        P = H.jmat([[float(i)] for i in range(n)])
        tl, _ = m.mine_training(rng=H.key(H.seed() if s is None else s), critic=Table(H.jmat(F)), xs=P, ys=P, xs_test=P, ys_test=P, alpha=0.5, batch_size=b, test_every_n_steps=every,
                                max_n_steps=steps, early_stopping=False, learning_rate=0.5, verbose=False)
        if H.symbolic:
            drawn = [d for d in H.draws[before:] if d[0] == "draw"]
            runs.append([d[2] for d in drawn if d[1] == "choice"] or [d[2] for d in drawn])
        else:
            runs.append([round(float(v), 4) for _, v in tl._mi_train_history])
    H.true(len(runs[0]) == (2 * steps if H.symbolic else steps) and not _repeats(H, runs), "a fresh batch for every step")
