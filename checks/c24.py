"""Training log: final value, early stopping, diagnostics."""
from engine.harness import case

MOD = "bmi.estimators.neural._training_log"


def _log(H, **kw):
    return H.mod(MOD).TrainingLog(**{**dict(max_n_steps=100, early_stopping=True, verbose=False, enable_tqdm=False), **kw})


def _nan(v):
    return v != v if isinstance(v, float) else False


@case("C24", quick=[dict(n=0), dict(n=1), dict(n=3), dict(n=4)], thorough=[dict(n=n) for n in range(7)])
def test_values(H, n):
    """arbitrary test values, early stopping on or off, printing on or off"""
    es = H.pick("early_stopping", [True, False])
    vb = H.pick("verbose", [False, True])
    log = _log(H, early_stopping=es, verbose=vb, enable_tqdm=H.pick("tqdm", [False, True]) if vb else False)
    H.true(log.early_stop() is False or not log.early_stop(), "no early stop before any value")
    best, bad, seen = None, 0, []
    every = H.pick("every", [1, 7])
    for i in range(n):
        v = H.real(f"mi{i}", -50, 50)
        log.log_test_mi((i + 1) * every, v)
        seen.append(((i + 1) * every, v))
        if best is None or H.truth(v > best):
            best, bad = v, 0
        else:
            bad += 1
        H.true(bool(log.early_stop()) == (es and bad >= 2), "early stopping fires exactly after two test values in a row without improvement")
        H.eq(log.final_mi, best, "final estimate is the best test value so far")
        if n <= 3:
            H.eq(log.final_mi, H.np.max(H.vec([w for _, w in seen])), "final estimate is the maximum of the test values")
    if n == 0:
        H.true(_nan(float(log.final_mi)), "no test value gives NaN")
    before = log.early_stop()
    log.finish()
    info = log.additional_information
    H.true(bool(info.get("early_stopping_not_triggered", False)) == (es and not before), "warning: early stopping not triggered")
    H.eq(info["n_training_steps"], 0, "no training step logged")
    h = info["test_history"]
    H.true(len(h) == n, "the whole test history is reported")
    for (a, b), (s, v) in zip(h, seen):
        H.eq(a, s, "test history: steps in order")
        H.eq(b, v, "test history: values in order")
    if best is not None:
        H.eq(log.final_mi, best, "final estimate after finishing")


Q = [dict(n=0, f=0.5), dict(n=1, f=0.5), dict(n=2, f=0.5), dict(n=3, f=0.5), dict(n=4, f=0.5), dict(n=5, f=0.4), dict(n=6, f=0.2), dict(n=9, f=0.1), dict(n=10, f=0.1)]


@case("C24", quick=Q, thorough=Q + [dict(n=6, f=0.5), dict(n=8, f=0.3), dict(n=20, f=0.1), dict(n=12, f=0.25)], max_paths=20000)
def diagnostics(H, n, f):
    """arbitrary training values"""
    kw = {} if f == 0.1 else dict(train_smooth_factor=f)
    keep = H.pick("history", [False, True]) if n in (2, 3) else False
    log = _log(H, early_stopping=False, verbose=H.pick("verbose", [False, True]) if n in (1, 2) else False, train_history_in_additional_information=keep, **kw)
    v = [H.real(f"mi{i}", -50, 50) for i in range(n)]
    steps = [3 * i + 1 for i in range(n)]
    for s, m in zip(steps, v):
        log.log_train_mi(s, m)
    w = int(f * n)
    sm = [sum(v[i + 1:i + w], v[i]) / w for i in range(n - w + 1)] if w else []
    if w:
        # stay clear of ties, where rounding decides
        d = 0.001
        top = H.np.max(H.vec(sm))
        for a, b in ((top, sm[-1]), (sm[-1], sm[-w - 1])):
            g = a - 1.05 * b
            H.assume((g > d) | (g < -d) if H.symbolic else abs(g) > d)
    log.finish()
    info = log.additional_information
    H.eq(info["n_training_steps"], steps[-1] if steps else 0, "last training step")
    H.true(bool(info.get("training_too_short_for_diagnostics", False)) == (w < 1), "warning: training too short")
    H.true(not info.get("early_stopping_not_triggered", False), "no early-stopping warning when it is disabled")
    if w:
        H.true(bool(info.get("max_training_mi_decreased", False)) == H.truth(H.np.max(H.vec(sm)) > 1.05 * sm[-1]), "warning: smoothed training value below its maximum")
        H.true(bool(info.get("training_mi_still_increasing", False)) == H.truth(sm[-1] > 1.05 * sm[-w - 1]), "warning: smoothed training value above the one a window earlier")
    else:
        H.true(not info.get("max_training_mi_decreased", False) and not info.get("training_mi_still_increasing", False), "no diagnostics on short training")
    H.true(("training_history" in info) == keep, "training history reported iff requested")
    if keep:
        for (a, b), s, m in zip(info["training_history"], steps, v):
            H.eq(a, s, "training history: steps in order")
            H.eq(b, m, "training history: values in order")
    H.true(_nan(float(log.final_mi)), "training values do not set the estimate")


@case("C24", quick=[dict(a=2, b=2), dict(a=3, b=1)], thorough=[dict(a=a, b=b) for a in (1, 2, 3, 4) for b in (1, 2, 3)])
def interleaved(H, a, b):
    """training and test values of one run do not mix; two logs do not share anything"""
    L, M = _log(H), _log(H, early_stopping=False, test_history_in_additional_information=False)
    tr = [H.real(f"tr{i}", -50, 50) for i in range(a)]
    te = [H.real(f"te{i}", -50, 50) for i in range(b)]
    for i in range(max(a, b)):
        if i < a:
            L.log_train_mi(i + 1, tr[i])
        if i < b:
            L.log_test_mi(i + 1, te[i])
    M.log_test_mi(5, 4.0)
    H.eq(L.final_mi, H.np.max(H.vec(te)), "the maximum of the test values")
    H.eq(M.final_mi, 4.0, "the other log's value")
    L.finish()
    M.finish()
    H.eq(L.additional_information["n_training_steps"], a, "last training step")
    H.true("test_history" not in M.additional_information, "test history left out when not requested")
    H.true("early_stopping_not_triggered" not in M.additional_information, "warnings of another log")
    for (s, v), k in zip(L.additional_information["test_history"], range(b)):
        H.eq(s, k + 1, "test history: steps")
        H.eq(v, te[k], "test history: values")


@case("C24", quick=[dict(n=1040, last=25, f=0.1), dict(n=410, last=30, f=0.3)], thorough=[dict(n=5000, last=333, f=0.1), dict(n=3000, last=1, f=0.5)])
def long_training(H, n, last, f):
    """a long training whose value changes to an arbitrary level near its end; many test values, one of them arbitrary"""
    b, t = H.real("level", 0.1, 3), H.real("test", -3, 3)
    log = _log(H, early_stopping=False, max_n_steps=n, train_smooth_factor=f, train_history_in_additional_information=True)
    v = [1.0] * (n - last) + [b] * last
    te = [0.001 * ((7 * i) % 1009) for i in range(n)]
    te[n - 3] = t
    for i in range(n):
        log.log_train_mi(i + 1, v[i])
        log.log_test_mi(i + 1, te[i])
    w = int(f * n)
    inside = min(w, last)
    fin = (b * inside + (w - inside)) / w
    prev = (b * max(0, last - w) + (w - max(0, last - w))) / w
    top = H.np.max(H.vec([fin, 1.0]))
    for p, q in ((top, fin), (fin, prev)):
        g = p - 1.05 * q
        H.assume((g > 0.002) | (g < -0.002) if H.symbolic else abs(g) > 0.002)
    log.finish()
    info = log.additional_information
    H.eq(info["n_training_steps"], n, "last training step")
    H.true(bool(info.get("max_training_mi_decreased", False)) == H.truth(top > 1.05 * fin), "warning: smoothed training value below its maximum")
    H.true(bool(info.get("training_mi_still_increasing", False)) == H.truth(fin > 1.05 * prev), "warning: smoothed training value above the one a window earlier")
    H.true(len(info["training_history"]) == n and len(info["test_history"]) == n, "the whole histories are reported")
    for k, (s, m) in enumerate(info["training_history"]):
        if k % 97 == 0 or k > n - 3:
            H.eq(s, k + 1, "training history: steps in order")
            H.eq(m, v[k], "training history: values in order")
    H.eq(log.final_mi, H.np.max(H.vec([t, max(x for i, x in enumerate(te) if i != n - 3)])), "final estimate is the maximum of the test values")
