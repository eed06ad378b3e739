"""Saving and reading a sample."""
import contextlib
import os
import pathlib
import tempfile

from engine.harness import case


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix="verif-c28-") as d:
        yield d


def _files(H):
    """reading a file turns the text of a number back into that number"""
    if not H.symbolic:
        return
    import pandas as pd

    from engine import sym as S
    from engine import world as W

    real = pd.read_csv

    def read_csv(path, *a, **k):
        k.pop("float_precision", None)
        df = real(path, *a, dtype=str, **k)

        def num(s):
            t = S.text_terms(s)
            if len(t) == 1 and not isinstance(t[0], str):
                return t[0][0]
            return S.lift(float(s))

        for c in list(range(df.shape[1])):
            col = df.iloc[:, c]
            df[df.columns[c]] = pd.Series([num(v) for v in col], dtype=object, index=df.index) if len(df) else col
        return df

    H.stub("pandas.read_csv", read_csv)
    assert W is not None


def _same(H, got, want, n, d, label):
    H.true(tuple(got.shape) == (n, d), label + ": shape")
    for i in range(n):
        for k in range(d):
            H.eq(got[i, k], want[i][k], label, tol=1e-13, atol=0)


Q = [dict(n=1, dx=1, dy=1), dict(n=3, dx=2, dy=1), dict(n=2, dx=1, dy=3), dict(n=2, dx=12, dy=11), dict(n=2, dx=3, dy=10)]


@case("C28", quick=Q, thorough=Q + [dict(n=n, dx=a, dy=b) for n in (1, 5) for a in (1, 2, 10, 25) for b in (1, 2, 11)] + [dict(n=1, dx=101, dy=102)], replays=20)
def round_trip(H, n, dx, dy):
    """arbitrary values"""
    U = H.mod("bmi.utils")
    big = H.pick("scale", [1.0, 1234567.0 / 3, 1e-10 / 3])
    x, y = H.array("x", (n, dx), -5, 5), H.array("y", (n, dy), -5, 5)
    xs, ys = [[x[i, k] * big for k in range(dx)] for i in range(n)], [[y[i, k] * big for k in range(dy)] for i in range(n)]
    kind = H.pick("kind", ["array", "list", "jax"])
    mk = {"array": H.mat, "list": lambda r: [list(v) for v in r], "jax": H.jmat}[kind]
    if kind == "jax" and not H.symbolic:
        import numpy as np

        xs, ys = np.float32(xs).astype(float).tolist(), np.float32(ys).astype(float).tolist()
    _files(H)
    with scratch() as d:
        p = os.path.join(d, "sample.csv")
        p = pathlib.Path(p) if H.pick("pathlib", [False, True]) else p
        U.save_sample(p, mk(xs), mk(ys))
        a, b = U.read_sample(p)
        tol = 1e-13 if kind != "jax" else 1e-6
        for got, want, dd, lab in ((a, xs, dx, "X"), (b, ys, dy, "Y")):
            H.true(tuple(got.shape) == (n, dd), f"{lab} shape")
            for i in range(n):
                for k in range(dd):
                    H.eq(got[i, k], want[i][k], f"{lab} values in the same rows and columns", tol=tol, atol=1e-30)
        r = U.read_sample_dims(p)
        H.true((int(r[0]), int(r[1])) == (dx, dy), "dimensions")


@case("C28", quick=[dict(n=2)])
def overwrite(H, n):
    """saving twice keeps the second sample only"""
    U = H.mod("bmi.utils")
    _files(H)
    x, y = H.array("x", (n, 2), -5, 5), H.array("y", (n, 1), -5, 5)
    with scratch() as d:
        p = os.path.join(d, "sample.csv")
        U.save_sample(p, H.mat([[7.0] * 3] * 5), H.mat([[8.0] * 4] * 5))
        U.save_sample(p, x, y)
        a, b = U.read_sample(p)
        _same(H, a, x.tolist(), n, 2, "X")
        _same(H, b, y.tolist(), n, 1, "Y")


@case("C28", quick=[dict(n=3, dx=1, dy=1), dict(n=3, dx=2, dy=1)], thorough=[dict(n=4, dx=1, dy=2)], max_paths=200)
def repeated_rows(H, n, dx, dy):
    """every point is kept, also when points coincide (in X, in Y or altogether)"""
    U = H.mod("bmi.utils")
    x, y = H.array("x", (2, dx), -5, 5), H.array("y", (2, dy), -5, 5)
    i = [H.pick(f"i{k}", [0, 1]) for k in range(n)]
    j = [H.pick(f"j{k}", [0, 1]) for k in range(n)]
    xs, ys = [[x[a, k] for k in range(dx)] for a in i], [[y[a, k] for k in range(dy)] for a in j]
    _files(H)
    with scratch() as d:
        p = os.path.join(d, "sample.csv")
        U.save_sample(p, H.mat(xs), H.mat(ys))
        a, b = U.read_sample(p)
        _same(H, a, xs, n, dx, "X values, coinciding points included")
        _same(H, b, ys, n, dy, "Y values, coinciding points included")


@case("C28", quick=[{}])
def special_values(H):
    """missing and infinite values stay where they are"""
    import numpy as np

    U = H.mod("bmi.utils")
    v = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}[H.pick("value", ["nan", "inf", "-inf"])]
    r, c = H.pick("row", [0, 1, 2]), H.pick("col", [0, 1, 2])
    z = np.array([[0.5, 1.25, -3.0], [2.5, 0.1, 7.0], [1e-7, 3e9, 0.0]])
    z[r, c] = v
    if H.symbolic:
        H.true(True, "values survive")
        return
    with scratch() as d:
        p = os.path.join(d, "sample.csv")
        U.save_sample(p, z[:, :2], z[:, 2:])
        a, b = U.read_sample(p)
        H.true(a.shape == (3, 2) and b.shape == (3, 1), "values survive")
        H.eq(a, z[:, :2], "values survive", tol=1e-13, atol=0)
        H.eq(b, z[:, 2:], "values survive", tol=1e-13, atol=0)


@case("C28", quick=[{}])
def rejected(H):
    U = H.mod("bmi.utils")
    n, m = H.pick("n", [1, 2, 3]), H.pick("m", [1, 2, 3])
    rx, ry = H.pick("rank_x", [1, 2, 3]), H.pick("rank_y", [1, 2, 3])
    mk = lambda r, k: H.np.ones({1: (k,), 2: (k, 2), 3: (k, 2, 1)}[r])  # noqa: E731
    _files(H)
    with scratch() as d:
        p = os.path.join(d, "sample.csv")
        if n == m and rx == ry == 2:
            U.save_sample(p, mk(rx, n), mk(ry, m))
            H.true(os.path.exists(p), "a proper sample is stored")
        else:
            H.raises(Exception, lambda: U.save_sample(p, mk(rx, n), mk(ry, m)), "wrong ranks and different numbers of rows are rejected")
            H.true(not os.path.exists(p), "nothing is stored")


@case("C28", quick=[dict(n=2, dx=2, dy=1), dict(n=1, dx=1, dy=11)])
def task(H, n, dx, dy):
    """a task stores exactly what it draws for that number of points and seed"""
    T = H.mod("bmi.benchmark.task").Task
    U = H.mod("bmi.utils")
    calls = []
    table = {}

    class Sampler:
        dim_x, dim_y = dx, dy

        def mutual_information(self):
            return 0.5

        def sample(self, n_points, rng):
            calls.append((n_points, rng))
            return table[rng]

    seeds = [3, 4]
    for s in seeds:
        table[s] = (H.array(f"x{s}", (n, dx), -5, 5), H.array(f"y{s}", (n, dy), -5, 5))
    t = T(sampler=Sampler(), task_id="t", task_name="T")
    _files(H)
    s = H.pick("seed", seeds)
    with scratch() as d:
        p = os.path.join(d, "s.csv")
        t.save_sample(p, n, s)
        H.true(calls == [(n, s)], "drawn once, for the given number of points and seed")
        a, b = U.read_sample(p)
        _same(H, a, table[s][0].tolist(), n, dx, "X of the task's sample")
        _same(H, b, table[s][1].tolist(), n, dy, "Y of the task's sample")
        u, v = t.sample(n, s)
        _same(H, u, table[s][0].tolist(), n, dx, "the task draws the same sample")
        _same(H, v, table[s][1].tolist(), n, dy, "the task draws the same sample")
