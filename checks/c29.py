"""External estimators: command line, temporary files, output parsing, parameter validation."""
import os
import pathlib
import subprocess

from checks.c28 import scratch
from engine.harness import case

R_, J_ = "bmi.estimators.external.r_estimators", "bmi.estimators.external.julia_estimators"
# class -> (module, interpreter, script, method flag, keyword -> (flag, kind))
SPEC = {
    "RKSGEstimator": (R_, "Rscript", "rmi.R", ("--method", "KSG{variant}"), {"variant": (None, "variant"), "neighbors": ("--neighbors", "pos")}, dict(variant=1, neighbors=10)),
    "RLNNEstimator": (R_, "Rscript", "rmi.R", ("--method", "LNN"), {"k": ("--neighbors", "pos"), "truncation": ("--truncation", "pos")}, dict(k=5, truncation=30)),
    "RBNSLEstimator": (R_, "Rscript", "rmi.R", ("--method", "BNSL"), {"proc": ("--proc", "proc")}, dict(proc=10)),
    "JuliaKSGEstimator": (J_, "julia", "mi_estimator.jl", ("--estimator", "KSG{variant}"), {"variant": (None, "variant"), "neighbors": ("--neighbors", "pos")}, dict(variant=1, neighbors=10)),
    "JuliaHistogramEstimator": (J_, "julia", "mi_estimator.jl", ("--estimator", "Histogram"), {"bins": ("--bins", "bins")}, dict(bins=10)),
    "JuliaTransferEstimator": (J_, "julia", "mi_estimator.jl", ("--estimator", "Transfer"), {"bins": ("--bins", "bins")}, dict(bins=10)),
    "JuliaKernelEstimator": (J_, "julia", "mi_estimator.jl", ("--estimator", "Kernel"), {"bandwidth": ("--bandwidth", "real")}, dict(bandwidth=1.0)),
}
ALL = [dict(cls=c) for c in SPEC]


def _script(name):
    return str(pathlib.Path(os.environ.get("VERIF_REPO", "/repo")) / "external" / name)


class Command:
    """stands in for the operating system: records the command, prints the given text or fails"""

    def __init__(self, H, out=b"", fail=None, look=None):
        self.H, self.out, self.fail, self.look, self.calls = H, out, fail, look, []
        for f in ("check_output", "run", "Popen", "call", "check_call"):
            H.stub(f"subprocess.{f}", getattr(self, f))

    def _go(self, args):
        args = list(args)
        self.calls.append(args)
        if self.look:
            self.look(args)
        if self.fail == "status":
            raise subprocess.CalledProcessError(1, args, output=self.out)
        if self.fail == "missing":
            raise FileNotFoundError(args[0])

    def _text(self, k):
        return self.out.decode() if k.get("text") or k.get("universal_newlines") or k.get("encoding") else self.out

    def check_output(self, args, **k):
        self._go(args)
        return self._text(k)

    def run(self, args, check=False, **k):
        try:
            self._go(args)
        except subprocess.CalledProcessError:
            if check:
                raise
            return subprocess.CompletedProcess(args, 1, stdout=self._text(k), stderr=self._text(k))
        return subprocess.CompletedProcess(args, 0, stdout=self._text(k), stderr=self._text(k)[:0])

    def _no(self, *a, **k):
        raise RuntimeError("the command must be run through check_output or run")

    Popen = call = check_call = _no


def _text_is(H, s, v, label):
    """the text s is the number v, fully written out"""
    if H.symbolic:
        from engine import sym as S

        t = S.text_terms(str(s))
        if len(t) == 1 and not isinstance(t[0], str):
            H.true(t[0][1] in ("", "s"), label)
            H.eq(t[0][0], v, label)
            return
        try:
            s = float(str(s))
        except ValueError:
            return H.fail(label, f"{s!r} is not a number")
        return H.eq(s, v, label)
    try:
        f = float(s)
    except ValueError:
        return H.fail(label, f"{s!r} is not a number")
    H.eq(f, float(v), label, tol=1e-12, atol=0)


def _params(H, cls, good=True):
    kw = {}
    for k, (_, kind) in SPEC[cls][4].items():
        if kind == "variant":
            kw[k] = H.pick(k, [1, 2])
        elif kind == "proc":
            kw[k] = H.pick(k, [0, 1, 2, 10])
        elif kind == "real":
            kw[k] = H.real(k, 0.01, 9) * H.pick(k + ".scale", [1.0, 1 / 3, 1e-7 / 3])
        else:
            kw[k] = H.int(k, 2 if kind == "bins" else 1, 1000)
    return kw


def _make(H, cls, kw):
    return getattr(H.mod(SPEC[cls][0]), cls)(**kw)


def _check_command(H, cls, kw, args, path, dx, dy):
    _, interp, script, (mflag, method), spec, _ = SPEC[cls]
    H.true(args[0] == interp, "interpreter")
    H.true(os.path.realpath(args[1]) == os.path.realpath(_script(script)) and os.path.isabs(args[1]), "script")
    H.true(os.path.isabs(str(args[2])) and os.path.realpath(str(args[2])) == os.path.realpath(str(path)), "absolute path of the sample")
    H.true([str(a) for a in args[3:5]] == [str(dx), str(dy)], "dimensions of X and of Y")
    rest = args[5:]
    H.true(len(rest) == 2 * (1 + sum(1 for f, _ in spec.values() if f)), "method and its parameters, nothing else")
    opts = dict(zip(rest[::2], rest[1::2]))
    H.true(mflag in opts and str(opts[mflag]) == method.format(**{k: v for k, v in kw.items() if k == "variant"}), "method")
    for k, (flag, _) in spec.items():
        if flag:
            H.true(flag in opts, f"{flag} is given")
            _text_is(H, opts[flag], kw[k], f"{flag} is the configured {k}")
    H.true(all(isinstance(a, str) for a in args), "arguments are strings")


@case("C29", quick=ALL)
def command(H, cls):
    """estimating from a file: every parameter, several dimensions, relative and absolute paths"""
    kw = _params(H, cls)
    dx, dy = H.pick("dims", [(1, 1), (2, 1), (1, 3), (11, 10)])
    est = _make(H, cls, kw)
    val = H.real("printed", -5, 5)
    with scratch() as d:
        p = os.path.join(d, "sub dir", "sample.csv")
        os.mkdir(os.path.dirname(p))
        with open(p, "w") as f:
            f.write(",".join([f"X{i}" for i in range(dx)] + [f"Y{i}" for i in range(dy)]) + "\n" + ",".join(["0.5"] * (dx + dy)) + "\n")
        cmd = Command(H, out=f"{H.pick('lead', ['', '  '])}{val if H.symbolic else repr(float(val))}\n".encode())
        kind = H.pick("path", ["absolute", "Path", "relative"])
        given = {"absolute": p, "Path": pathlib.Path(p), "relative": os.path.join("sub dir", "sample.csv")}[kind]
        cwd = os.getcwd()
        try:
            os.chdir(d)
            r = est.estimate_with_info_from_path(given)
        finally:
            os.chdir(cwd)
        H.true(len(cmd.calls) == 1, "the command is run once")
        _check_command(H, cls, kw, cmd.calls[0], p, dx, dy)
        H.eq(r.mi_estimate, val, "the number printed is returned", tol=1e-9)
        H.true(os.path.exists(p), "a given sample file is kept")
    ps = est.parameters()
    for k, v in kw.items():
        H.eq(getattr(ps, k), v, "parameters reported")


@case("C29", quick=ALL)
def defaults(H, cls):
    p = _make(H, cls, {}).parameters()
    for k, v in SPEC[cls][5].items():
        H.eq(getattr(p, k), v, "documented default")


def _read(H, path):
    """header and numbers of a csv file"""
    with open(path) as f:
        rows = [ln.rstrip("\n").split(",") for ln in f if ln.strip()]
    return rows[0], rows[1:]


@case("C29", quick=[dict(cls="RKSGEstimator", n=2, dx=2, dy=1), dict(cls="JuliaKernelEstimator", n=3, dx=1, dy=1), dict(cls="JuliaHistogramEstimator", n=1, dx=1, dy=11)],
      thorough=[dict(cls=c, n=n, dx=a, dy=b) for c in SPEC for n, a, b in ((2, 1, 2), (3, 12, 1))])
def arrays(H, cls, n, dx, dy):
    """estimating from arrays: success, a failing command and an unreadable answer"""
    kw = SPEC[cls][5]
    est = _make(H, cls, {})
    x, y = H.array("x", (n, dx), -5, 5), H.array("y", (n, dy), -5, 5)
    val = H.real("printed", -5, 5)
    mode = H.pick("outcome", ["ok", "status", "missing", "garbage"])
    api = H.pick("api", ["estimate", "estimate_with_info"])
    seen = []

    def look(args):
        p = args[2]
        seen.append(p)
        H.true(os.path.exists(p), "the sample file exists while the command runs")
        head, rows = _read(H, p)
        H.true(head == [f"X{i}" for i in range(dx)] + [f"Y{i}" for i in range(dy)], "columns X0, X1, ..., Y0, Y1, ...")
        H.true(len(rows) == n and all(len(r) == dx + dy for r in rows), "one row per point")
        for i in range(n):
            for k in range(dx):
                _text_is(H, rows[i][k], x[i, k], "the file holds exactly the given X")
            for k in range(dy):
                _text_is(H, rows[i][dx + k], y[i, k], "the file holds exactly the given Y")

    text = "Error in library(rmi)" if mode == "garbage" else (f"{val}\n" if H.symbolic else f"{float(val)!r}\n")
    cmd = Command(H, out=text.encode(), fail=mode if mode in ("status", "missing") else None, look=look)
    if mode == "ok":
        r = getattr(est, api)(x, y)
        H.eq(r if api == "estimate" else r.mi_estimate, val, "the number printed is returned", tol=1e-9)
    else:
        H.raises(Exception, lambda: getattr(est, api)(x, y), "a failing command raises an error")
    H.true(len(cmd.calls) == 1, "the command is run once")
    _check_command(H, cls, kw, cmd.calls[0], seen[0], dx, dy)
    H.true(not os.path.exists(seen[0]), "the temporary file is removed afterwards")
    if H.pick("again", [False, True]) and mode == "ok":
        getattr(est, api)(x, y)
        H.true(len(cmd.calls) == 2 and not os.path.exists(seen[1]), "the temporary file is removed afterwards")


@case("C29", quick=[dict(cls="RKSGEstimator"), dict(cls="JuliaKSGEstimator")])
def output(H, cls):
    """what the command prints"""
    est = _make(H, cls, {})
    text = H.pick("output", ["0.25\n", "  -1.5e-3 \n\n", "3", "inf", "", "\n", "0.5 0.6\n", "1,5\n", "Warning: x\n0.5\n", "[1] 0.3\n", "NULL\n", "ERROR: LoadError"])
    with scratch() as d:
        p = os.path.join(d, "s.csv")
        with open(p, "w") as f:
            f.write("X0,Y0\n1,2\n")
        Command(H, out=text.encode())
        try:
            want = float(text)
        except ValueError:
            want = None
        if want is None:
            try:
                est.estimate_with_info_from_path(p)
            except Exception as e:
                H.true(text.strip() in str(e), "the error mentions the output")
            else:
                H.fail("unparsable output raises an error")
        else:
            H.eq(est.estimate_with_info_from_path(p).mi_estimate, want, "the number printed is returned")


@case("C29", quick=ALL)
def invalid(H, cls):
    """all integers / reals around the limits"""
    spec = SPEC[cls][4]
    which = H.pick("parameter", list(spec))
    kind = spec[which][1]
    if kind == "variant":
        v = H.pick(which, [-1, 0, 1, 2, 3, 4])
        ok = H.truth(v == 1) or H.truth(v == 2)
    elif kind == "proc":
        v = H.pick(which, list(range(-2, 13)) + [20, 100])
        ok = any(H.truth(v == c) for c in (0, 1, 2, 10))
    elif kind == "real":
        v = H.real(which, -3, 3)
        ok = H.truth(v > 0)
    else:
        v = H.int(which, -3, 4)
        ok = H.truth(v >= (2 if kind == "bins" else 1))
    if ok:
        H.eq(getattr(_make(H, cls, {which: v}).parameters(), which), v, "valid parameters are accepted")
    else:
        H.raises(ValueError, lambda: _make(H, cls, {which: v}), "invalid parameters are rejected at construction")
