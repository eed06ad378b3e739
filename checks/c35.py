"""Result tables of the benchmark workflow."""
import math

from engine.harness import case

PATH = "workflows/benchmark/_utils.py"
EST, TASK = ["A", "B"], ["t1", "t2"]


class Styler:
    """stands in for pandas' Styler (which needs jinja2): keeps the table and what it is styled with"""

    def __init__(self, df):
        self.data, self.index, self.columns = df, df.index, df.columns
        self.gmap = self.fmt = self.caption = None

    def pipe(self, f, *a, **k):
        return f(self, *a, **k) or self

    def format(self, formatter=None, *a, **k):
        self.fmt = formatter
        return self

    def background_gradient(self, *a, gmap=None, **k):
        self.gmap = gmap
        return self

    def set_caption(self, c):
        self.caption = c
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: self


def _pandas(H):
    import pandas as pd

    H.patch(pd.DataFrame, "style", property(Styler))
    if H.symbolic:
        from pandas.core import nanops

        real = nanops._ensure_numeric

        def ensure(x):
            from engine import sym as S

            return x if isinstance(x, (S.R, S.B)) else real(x)

        H.patch(nanops, "_ensure_numeric", ensure)
    return pd


def _rows(H, shape):
    """shape: (estimator, task, sample size, number of seeds)"""
    true = {t: H.real(f"true_{t}", 0.05, 4) for t in TASK}
    rows = []
    for e, t, n, k in shape:
        for s in range(k):
            rows.append(dict(estimator_id=e, task_id=t, n_samples=n, seed=s, mi_estimate=H.real(f"mi_{e}_{t}_{n}_{s}", 0.01, 6), mi_true=true[t], success=True))
    order = H.pick("order", ["given", "reversed"])
    return (rows if order == "given" else rows[::-1]), true


def _frame(H, pd, rows):
    df = pd.DataFrame(rows)
    if H.symbolic:
        for c in ("mi_estimate", "mi_true"):
            df[c] = pd.Series([r[c] for r in rows], dtype=object)
    return df


def _mean(xs):
    t = 0
    for x in xs:
        t = t + x
    return t / len(xs)


def _biggest(H, xs):
    b = xs[0]
    for x in xs[1:]:
        if H.truth(x > b):
            b = x
    return b


def _groups(rows, n=None):
    g = {}
    for r in rows:
        if n is None or r["n_samples"] == n:
            g.setdefault((r["estimator_id"], r["task_id"]), []).append(r)
    return g


def _nan(v):
    return isinstance(v, float) and math.isnan(v)


def _entry(H, table, t, e, want, label, tol=None):
    got = table.loc[t, e] if (t in table.index and e in table.columns) else float("nan")
    if want is None:
        H.true(_nan(got), label)
    elif _nan(got):
        H.fail(label, f"no entry for {e}, {t}")
    else:
        H.eq(got, want, label, tol=tol)


def _benchmark(H, pretty, rows, true, n, converged_only, suffix=""):
    """entries against the definition"""
    g = _groups(rows, n)
    for e in EST:
        for t in TASK:
            rs = g.get((e, t), [])
            if converged_only and rs:
                b = _biggest(H, [r["mi_estimate"] for r in rs])
                rs = [r for r in rs if H.truth(r["mi_estimate"] > 0.1 * b)]
            _entry(H, pretty.data, t, e, _mean([r["mi_estimate"] for r in rs]) if rs else None, "entries are means over seeds" + suffix)
            _entry(H, pretty.gmap, t, e, _mean([H.np.log2(r["mi_estimate"] / r["mi_true"]) for r in rs]) if rs else None, "the log relative error is log2(estimate / true)" + suffix, tol=1e-3)
    for t in {r["task_id"] for r in rows}:
        _entry(H, pretty.data, t, "True MI", true[t], "the true value is shown next to the entries")
    H.true(set(pretty.data.columns) - {"True MI"} == {r["estimator_id"] for r in rows if n is None or r["n_samples"] == n}, "one column per estimator" + suffix)


def _near(H, rows):
    """stay off the exact 10 % boundary in floating point"""
    if not H.symbolic:
        for r in rows:
            for q in rows:
                H.assume(abs(r["mi_estimate"] - 0.1 * q["mi_estimate"]) > 1e-6)


ONE = [("A", "t1", 100, 2), ("B", "t1", 100, 1), ("A", "t2", 100, 1)]
ONE_T = [("A", "t1", 100, 3), ("B", "t1", 100, 2), ("A", "t2", 100, 1), ("B", "t2", 100, 1)]
TWO = [("A", "t1", 100, 1), ("A", "t1", 500, 2), ("B", "t1", 500, 1)]


@case("C35", quick=[dict(converged_only=c) for c in (False, True)], thorough=[dict(converged_only=c, wide=True) for c in (False, True)], replays=8)
def benchmark_table(H, converged_only, wide=False):
    """all rows have one sample size"""
    pd = _pandas(H)
    u = H.file(PATH)
    rows, true = _rows(H, ONE_T if wide else ONE)
    _near(H, rows)
    df = _frame(H, pd, rows)
    kw = {} if H.pick("give_size", [False, True]) is False else dict(n_samples=100)
    if converged_only or H.pick("give_flag", [True, False]):
        kw["converged_only"] = converged_only
    p = u.create_benchmark_table(df, **kw)
    _benchmark(H, p, rows, true, 100, converged_only)


@case("C35", quick=[{}], replays=8)
def convergence_table(H):
    pd = _pandas(H)
    u = H.file(PATH)
    rows, _ = _rows(H, ONE)
    _near(H, rows)
    df = _frame(H, pd, rows)
    p = u.create_convergence_table(df, **({} if H.pick("give_size", [False, True]) is False else dict(n_samples=100)))
    g = _groups(rows)
    for e in EST:
        for t in TASK:
            rs = g.get((e, t))
            _entry(H, p.data, t, e, None if not rs else _fraction(H, rs), "fraction of converged estimates")


def _fraction(H, rs):
    b = _biggest(H, [r["mi_estimate"] for r in rs])
    return sum(1 for r in rs if H.truth(r["mi_estimate"] > 0.1 * b)) / len(rs)


@case("C35", quick=[{}], thorough=[dict(more=True)], replays=10)
def columns(H, more=False):
    """the added columns, several sample sizes"""
    pd = _pandas(H)
    u = H.file(PATH)
    rows, _ = _rows(H, TWO + ([("B", "t2", 500, 2)] if more else []))
    _near(H, rows)
    a = u.add_col_log_relative_error(_frame(H, pd, rows))
    b = u.add_col_converged(_frame(H, pd, rows))
    H.true(len(a) == len(rows) and len(b) == len(rows), "one row per result")
    for i, r in enumerate(rows):
        H.eq(a["log_relative_error"].iloc[i], H.np.log2(r["mi_estimate"] / r["mi_true"]), "the log relative error is log2(estimate / true)", tol=1e-3)
        same = [q["mi_estimate"] for q in rows if all(q[k] == r[k] for k in ("estimator_id", "task_id", "n_samples"))]
        want = H.truth(r["mi_estimate"] > 0.1 * _biggest(H, same))
        H.true(bool(b["converged"].iloc[i]) == want, "converged iff above 10 % of the largest estimate of its estimator, task and sample size")
        H.eq(a["mi_estimate"].iloc[i], r["mi_estimate"], "results keep their rows")
        H.eq(b["mi_estimate"].iloc[i], r["mi_estimate"], "results keep their rows")


@case("C35", quick=[dict(which=w) for w in ("benchmark", "convergence")], replays=6)
def sample_size(H, which):
    """rows of two sample sizes: only the requested one (by default the largest) counts"""
    pd = _pandas(H)
    u = H.file(PATH)
    rows, true = _rows(H, TWO)
    _near(H, rows)
    df = _frame(H, pd, rows)
    n = H.pick("n_samples", [None, 100, 500])
    kw = {} if n is None else dict(n_samples=n)
    n = n or 500
    label = f"the {which} table is computed only from rows with the requested sample size"
    g = _groups(rows, n)
    if which == "benchmark":
        p = u.create_benchmark_table(df, **kw)
        for e in EST:
            rs = g.get((e, "t1"), [])
            _entry(H, p.data, "t1", e, _mean([r["mi_estimate"] for r in rs]) if rs else None, label)
    else:
        p = u.create_convergence_table(df, **kw)
        for e in EST:
            rs = g.get((e, "t1"), [])
            _entry(H, p.data, "t1", e, _fraction(H, rs) if rs else None, label)
