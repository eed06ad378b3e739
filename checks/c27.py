"""Running one estimator in the benchmark: the record, failures, isolation between runs."""
import os
import subprocess

from checks.c28 import _files, scratch
from engine.harness import case

M = "bmi.benchmark.result"


class Clock:
    """stands in for the clocks: time passes by arbitrary non-negative amounts"""

    def __init__(self, H):
        self.H, self.now, self.n = H, H.real("t0", 0, 1000), 0
        for f in ("perf_counter", "time", "monotonic", "process_time"):
            H.stub(f"time.{f}", self.read)

    def read(self):
        self.n += 1
        self.now = self.now + self.H.real(f"tick{self.n}", 0, 5)
        return self.now


class Fault(Exception):
    pass


FAULTS = ["value", "custom", "runtime", "process", "process_quiet", "assert"]


def _fault(kind, text):
    if kind in ("process", "process_quiet"):
        return subprocess.CalledProcessError(3, ["tool", text], output=f"printed {text}" if kind == "process" else None)
    return {"value": ValueError, "custom": Fault, "runtime": RuntimeError, "assert": AssertionError}[kind](text)


def _estimator(H, kind, script):
    """kind: which entry point the estimator implements.  script: one outcome per call"""
    I = H.mod("bmi.interface")
    X = H.mod("bmi.estimators.external.external_estimator")
    calls = []

    def go(*args):
        o = script[len(calls)]
        calls.append(args)
        if "clock" in o:
            o["clock"].now = o["clock"].now + o["took"]
        if o["fault"]:
            raise o["fault"]
        return o

    class Plain(I.IMutualInformationPointEstimator):
        def estimate(self, x, y):
            return go(x, y)["mi"]

        def parameters(self):
            return I.BaseModel()

    class Info(Plain):
        def estimate_with_info(self, x, y):
            return go(x, y)["result"]

    class External(X.ExternalEstimator):
        def estimate_with_info_from_path(self, path):
            return go(path)["result"]

        def parameters(self):
            return I.BaseModel()

    e = {"plain": Plain, "info": Info, "external": External}[kind]()
    return e, calls


def _sample(H, d, n, dx, dy):
    _files(H)
    x, y = H.array("x", (n, dx), -5, 5), H.array("y", (n, dy), -5, 5)
    p = os.path.join(d, "sample.csv")
    H.mod("bmi.utils").save_sample(p, x, y)
    return p, x, y


def _outcome(H, tag, kind, clock=None):
    I = H.mod("bmi.interface")
    what = H.pick(f"{tag}.outcome", ["success"] + FAULTS)
    o = dict(fault=None if what == "success" else _fault(what, f"text of {tag}"), kind=what)
    if clock is not None:
        o["clock"], o["took"] = clock, H.real(f"{tag}.took", 0, 100)
    if what == "success":
        o["mi"] = H.real(f"{tag}.mi", -5, 20)
        o["info"], o["time"] = {}, None
        if kind != "plain":
            if H.pick(f"{tag}.gives_time", [False, True]):
                o["time"] = H.real(f"{tag}.time", 0, 100)
            if H.pick(f"{tag}.gives_info", [False, True]):
                o["info"] = {f"{tag} note": H.real(f"{tag}.note"), "list": [1, 2]}
            kw = {}
            if o["time"] is not None:
                kw["time_in_seconds"] = o["time"]
            if o["info"]:
                kw["additional_information"] = dict(o["info"])
            o["result"] = I.EstimateResult(mi_estimate=o["mi"], **kw)
    return o


def _nan(v):
    return isinstance(v, float) and v != v


def _expect(H, r, o, given, ids, n, seed, time_range):
    H.true(r.estimator_id == ids[0] and r.task_id == ids[1], "the given identifiers")
    H.eq(r.seed, seed, "the given seed")
    H.eq(r.n_samples, n, "the sample size")
    info = dict(r.additional_information)
    want = dict(given or {})
    if o["kind"] == "success":
        H.true(r.success is True or r.success == True, "a run that returns is a success")  # noqa: E712
        H.eq(r.mi_estimate, o["mi"], "the estimator's estimate")
        if o["time"] is not None:
            H.eq(r.time_in_seconds, o["time"], "the time the estimator reports")
        else:
            lo, hi = time_range
            H.le(lo, r.time_in_seconds, "the measured time covers the estimation", tol=1e-6)
            H.le(r.time_in_seconds, hi, "the measured time covers no more than the run", tol=1e-6)
        want.update(o["info"])
    else:
        H.true(r.success is False or r.success == False, "a run that raises is a failure")  # noqa: E712
        H.true(_nan(r.mi_estimate), "no estimate after an exception")
        H.true(_nan(r.time_in_seconds), "no time after an exception")
        want["error"] = str(o["fault"])
        if o["kind"].startswith("process"):
            want["subprocess_output"] = str(o["fault"].output)
    H.true(set(info) == set(want), "additional information is the given one, the estimator's and the error")
    for k in want:
        if isinstance(want[k], (str, list)):
            H.true(info[k] == want[k], "additional information is the given one, the estimator's and the error")
        else:
            H.eq(info[k], want[k], "additional information is the given one, the estimator's and the error")


KINDS = ["plain", "info", "external"]


@case("C27", quick=[dict(kind=k, n=n, dx=dx, dy=dy) for k, n, dx, dy in (("plain", 1, 1, 1), ("info", 2, 1, 2), ("external", 3, 2, 1))],
      thorough=[dict(kind=k, n=4, dx=2, dy=3) for k in KINDS], replays=12)
def record(H, kind, n, dx, dy):
    """one run: every outcome"""
    R = H.mod(M)
    clock = Clock(H)
    o = _outcome(H, "run", kind, clock)
    est, calls = _estimator(H, kind, [o])
    seed = H.int("seed", 0, 10 ** 6) if H.pick("give_seed", [True, False]) else None
    given = {"node": "abc", "number": H.real("number")} if H.pick("give_info", [True, False]) else None
    with scratch() as d:
        p, x, y = _sample(H, d, n, dx, dy)
        kw = {}
        if given is not None:
            kw["additional_information"] = dict(given)
        if seed is not None:
            kw["seed"] = seed
        before = clock.now
        r = R.run_estimator(estimator=est, estimator_id="E-1", sample_path=p, task_id="T-1", **kw)
        total = clock.now - before
        H.true(len(calls) == 1, "the estimator runs once")
        if kind == "external":
            H.true(str(calls[0][0]) == str(p), "external estimators get the path")
        else:
            H.eq(calls[0][0], x, "the estimator gets the stored sample", tol=1e-9)
            H.eq(calls[0][1], y, "the estimator gets the stored sample", tol=1e-9)
    _expect(H, r, o, given, ("E-1", "T-1"), n, seed, (o["took"], total))
    if o.get("result") is not None:
        H.true(set(o["result"].additional_information) == set(o["info"]), "the estimator's own result is left as it was")


@case("C27", quick=[dict(runs=2, kind="info"), dict(runs=2, kind="external"), dict(runs=2, kind="plain")], thorough=[dict(runs=3, kind="plain"), dict(runs=2, kind="info")],
      max_paths=9000, replays=12)
def sequence(H, runs, kind):
    """a sequence of runs, each with a dictionary of its own"""
    R = H.mod(M)
    outs = []
    for i in range(runs):
        o = _outcome(H, f"r{i}", kind)
        outs.append(o)
    est, calls = _estimator(H, kind, outs)
    info = H.pick("info", ["none", "empty", "own"])
    with scratch() as d:
        p, x, y = _sample(H, d, 2, 1, 1)
        got = []
        for i in range(runs):
            g = {"none": None, "empty": {}, "own": {"i": i}}[info]
            r = R.run_estimator(estimator=est, estimator_id=f"E{i}", sample_path=p, task_id=f"T{i}", seed=i, additional_information=g)
            got.append((r, None if g is None else {"own": {"i": i}}.get(info, {})))
    for i, (r, g) in enumerate(got):
        o = outs[i]
        H.eq(r.mi_estimate, o["mi"], "the estimator's estimate") if o["kind"] == "success" else H.true(_nan(r.mi_estimate), "no estimate after an exception")
        if o["kind"] == "success" and o["time"] is None:
            H.le(0, r.time_in_seconds, "measured time is non-negative")
            o = dict(o, time=r.time_in_seconds)
        _expect(H, r, o, g, (f"E{i}", f"T{i}"), 2, i, None)


@case("C27", quick=[dict(outcome=o) for o in ("success", "failure")], replays=4)
def caller_dictionary(H, outcome):
    """the dictionary given by the caller stays as it was"""
    R = H.mod(M)
    I = H.mod("bmi.interface")
    o = dict(fault=None, result=I.EstimateResult(mi_estimate=H.real("mi", 0, 3), additional_information={"note": 1})) if outcome == "success" else dict(fault=ValueError("bad"))
    est, _ = _estimator(H, "info", [o])
    given = {"node": H.pick("node", ["a", "b"])}
    keep = dict(given)
    with scratch() as d:
        p, _, _ = _sample(H, d, 2, 1, 1)
        R.run_estimator(estimator=est, estimator_id="E", sample_path=p, task_id="T", additional_information=given)
    H.true(set(given) == set(keep), f"the caller dictionary is unmodified after a {outcome}")


@case("C27", quick=[{}], replays=6)
def dump(H):
    """the record written to disk reads back"""
    import yaml

    R = H.mod(M)
    ok = H.pick("success", [True, False])
    r = R.RunResult(mi_estimate=0.25 if ok else float("nan"), time_in_seconds=1.5 if ok else float("nan"), success=ok, estimator_id="E", task_id="T", n_samples=7,
                    seed=H.pick("seed", [None, 3]), additional_information=H.pick("info", [{}, {"a": {"b": [1, 2]}, "error": "x: y"}]))
    with scratch() as d:
        p = os.path.join(d, "r.yaml")
        r.dump(p)
        with open(p) as f:
            back = yaml.safe_load(f)
    want = r.dict()
    H.true(set(back) == set(want), "every field is stored")
    for k in want:
        H.true(back[k] == want[k] or (_nan(back[k]) and _nan(want[k])), "every field is stored with its value")


@case("C27", quick=[{}])
def timer(H):
    """the stopwatch under the measured time: any history of resets and readings, any passing of time"""
    T = H.mod("bmi.benchmark.utils.timer").Timer
    c = Clock(H)
    c.read = lambda: c.now
    for f in ("perf_counter", "time", "monotonic", "process_time"):
        H.stub(f"time.{f}", lambda: c.now)
    t = T()
    start = c.now
    for k in range(3):
        c.now = c.now + H.real(f"step{k}", 0, 9)
        op = H.pick(f"op{k}", ["check", "reset", "check_and_reset"])
        if op == "reset":
            t.reset()
            start = c.now
        else:
            H.eq(getattr(t, op)(), c.now - start, "the time since the last reset", tol=1e-9, atol=1e-9)
            if op == "check_and_reset":
                start = c.now
    H.eq(t.check(), c.now - start, "the time since the last reset", tol=1e-9, atol=1e-9)
