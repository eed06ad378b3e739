"""Benchmark tasks: metadata mirrors the sampler, ids identify tasks, the registry is complete."""
import os

from checks._common import fake_sampler, kid
from checks.c28 import _files, scratch
from engine.harness import case, text_equal

T = "bmi.benchmark.task"
TK = "bmi.benchmark.tasks."


def _params(H, how):
    return {"none": None, "empty": {}, "own": {"a": H.real("pa"), "b": [1, 2], "name": "q"}}[how]


@case("C31", quick=[dict(dx=dx, dy=dy, n=n) for dx, dy, n in ((1, 1, 1), (1, 3, 2), (4, 2, 3))], thorough=[dict(dx=dx, dy=dy, n=n) for dx, dy, n in ((5, 7, 4), (2, 2, 6))], replays=6)
def metadata(H, dx, dy, n):
    """any sampler, any identifiers and parameters"""
    t = H.mod(T)
    fs = fake_sampler(H, "s", dx, dy, mi=H.real("mi", 0, 50))
    how = H.pick("params", ["none", "empty", "own"])
    p = _params(H, how)
    keep = None if p is None else dict(p)
    tid, name = H.pick("id", ["1v1-x", "Same"]), H.pick("name", ["Some Name", "Same"])
    task = t.Task(fs, task_id=tid, task_name=name, **({} if how == "none" else dict(task_params=p)))
    for _ in range(2):
        m = task.metadata
        H.true(m.task_id == tid and task.id == tid, "its own id")
        H.true(m.task_name == name and task.name == name, "its own name")
        H.true(m.dim_x == dx and m.dim_y == dy and task.dim_x == dx and task.dim_y == dy, "its sampler's dimensions")
        H.eq(m.mi_true, fs.mi, "its sampler's mutual information")
        H.eq(task.mutual_information, fs.mi, "its sampler's mutual information")
        for q in (m.task_params, task.params):
            H.true(list(q) == list(keep or {}), "its own parameters")
            for k in q:
                H.true(q[k] == keep[k], "its own parameters") if isinstance(keep[k], (str, list)) else H.eq(q[k], keep[k], "its own parameters")
    # a later change of the sampler's value shows
    fs.mi = H.real("mi2", 0, 50)
    H.eq(task.mutual_information, fs.mi, "the mutual information is the sampler's")
    seed = H.seed()
    x, y = task.sample(n, seed)
    H.true(len(fs.calls) == 1 and int(fs.calls[0][0]) == n and fs.calls[0][1] == kid(H, seed), "samples are drawn once with the size and seed given")
    ex, ey = fs.sample(n, seed)
    H.eq(x, ex, "samples are the sampler's")
    H.eq(y, ey, "samples are the sampler's")
    x, y = task.sample(seed=seed, n_samples=n)
    H.eq(x, ex, "samples are the sampler's")
    H.eq(y, ey, "samples are the sampler's")


@case("C31", quick=[{}], replays=8)
def negative_mi(H):
    """no task reports a negative mutual information"""
    t = H.mod(T)
    fs = fake_sampler(H, "s", 1, 2, mi=H.real("mi", -5, 5))
    task = t.Task(fs, task_id="i", task_name="n")
    try:
        v = task.mutual_information
    except Exception as e:
        if H.truth(fs.mi >= 0):
            H.fail("a sampler with non-negative mutual information gives a task", str(e))
        return
    H.le(0, v, "the reported mutual information is non-negative")


@case("C31", quick=[dict(dx=dx, dy=dy, n=n) for dx, dy, n in ((1, 1, 2), (2, 1, 3))], replays=4)
def stored(H, dx, dy, n):
    """a stored sample and stored metadata read back"""
    import yaml

    t = H.mod(T)
    u = H.mod("bmi.utils")
    fs = fake_sampler(H, "s", dx, dy, mi=0.25)
    task = t.Task(fs, task_id="the-id", task_name="Name 1 × 1", task_params={"a": 1, "v": [0.5, 2.0]})
    seed = H.seed()
    _files(H)
    with scratch() as d:
        p = os.path.join(d, "s.csv")
        task.save_sample(p, n, seed)
        x, y = fs.sample(n, seed)
        back = u.read_sample(p)
        H.eq(back[0], x, "the stored sample is the task's sample", tol=1e-6)
        H.eq(back[1], y, "the stored sample is the task's sample", tol=1e-6)
        q = os.path.join(d, "m.yaml")
        task.save_metadata(q)
        with open(q) as f:
            m = yaml.safe_load(f)
    H.true(m == dict(task_id="the-id", task_name="Name 1 × 1", dim_x=dx, dim_y=dy, mi_true=0.25, task_params={"a": 1, "v": [0.5, 2.0]}), "the stored metadata is the task's")


@case("C31", quick=[{}], replays=12)
def stored_values(H):
    """parameters of other types are stored as plain values"""
    import enum
    import pathlib

    import numpy as np
    import yaml

    class Kind(enum.Enum):
        FIRST = "the first"
        SECOND = 2

    t = H.mod(T)
    v, want = {
        "int": (np.int64(3), 3), "float": (np.float64(0.1), 0.1), "float32": (np.float32(0.5), 0.5), "bool": (np.bool_(True), True),
        "array": (np.array([[1.5, 2.0], [-3.0, 0.25]]), [[1.5, 2.0], [-3.0, 0.25]]), "ints": (np.arange(3), [0, 1, 2]), "scalar array": (np.array(2.5), 2.5),
        "path": (pathlib.Path("/a/b"), "/a/b"), "enum": (Kind.FIRST, "the first"), "enum of a number": (Kind.SECOND, 2), "nested": ({"p": {"q": [np.float64(2.5), None]}}, {"p": {"q": [2.5, None]}}),
        "text": ("1.0", "1.0"), "none": (None, None), "list": ([1, "x", True], [1, "x", True]),
    }[H.pick("value", ["int", "float", "float32", "bool", "array", "ints", "scalar array", "path", "enum", "enum of a number", "nested", "text", "none", "list"])]
    fs = fake_sampler(H, "s", 1, 2, mi=0.5)
    task = t.Task(fs, task_id="i", task_name="n", task_params={"a": v, "b": 1})
    with scratch() as d:
        q = os.path.join(d, "m.yaml")
        task.save_metadata(q)
        with open(q) as f:
            m = yaml.safe_load(f)
    got = m["task_params"]
    H.true(list(got) == ["a", "b"] and got["a"] == want and type(got["a"]) is type(want) and got["b"] == 1, "values are stored as plain values")
    H.true(m["mi_true"] == 0.5 and m["dim_y"] == 2, "the stored metadata is the task's")


# --------------------------------------------------------------------------------------- identifiers
def _num(name, lo, hi):
    return ("real", name, lo, hi)


def _cnt(name, *vals):
    return ("pick", name, list(vals))


DIMS = [_cnt("dim_x", 2, 3), _cnt("dim_y", 2, 4)]
FAM = {
    "normal": ("bivariate_normal", "task_bivariate_normal", [_num("gaussian_correlation", -0.95, 0.95)]),
    "additive": ("additive_noise", "task_additive_noise", [_num("epsilon", 0.01, 3)]),
    "bimodal": ("bimodal_gaussians", "task_bimodal_gaussians", [_num("gaussian_correlation", -0.95, 0.95)]),
    "dense": ("multinormal", "task_multinormal_dense", DIMS + [_num("off_diag", 0.01, 0.9)]),
    "lvm": ("multinormal", "task_multinormal_lvm", DIMS + [_cnt("n_interacting", 1, 2), _num("alpha", 0, 2), _num("lambd", 0.1, 3), _num("beta", 0, 2), _num("eta", 0.1, 3)]),
    "sparse": ("multinormal", "task_multinormal_sparse", DIMS + [_cnt("n_interacting", 1, 2), _num("strength", 0.1, 5)]),
    "2pair": ("multinormal", "task_multinormal_2pair", DIMS + [_num("strength", 0.1, 5)]),
    "st-identity": ("student", "task_student_identity", DIMS + [_cnt("df", 1, 2, 12)]),
    "st-dense": ("student", "task_student_dense", DIMS + [_cnt("df", 1, 3), _num("off_diag", 0.01, 0.9)]),
    "st-sparse": ("student", "task_student_sparse", DIMS + [_cnt("df", 1, 3), _cnt("n_interacting", 1, 2), _num("strength", 0.1, 5)]),
    "st-2pair": ("student", "task_student_2pair", DIMS + [_cnt("df", 1, 3), _num("strength", 0.1, 5)]),
    "x": ("mixtures", "task_x", [_num("gaussian_correlation", 0.01, 0.95)]),
    "galaxy": ("mixtures", "task_galaxy", [_num("speed", 0.01, 2), _num("distance", 0.1, 5)]),
    "waves": ("mixtures", "task_waves", [_cnt("n_components", 2, 3), _num("wave_amplitude", 0.1, 9), _num("wave_frequency", 0.1, 9)]),
    "concentric": ("mixtures", "task_concentric_multinormal", [_cnt("dim_x", 1, 2, 3), _cnt("n_components", 2, 3)]),
    "inliers": ("mixtures", "task_multinormal_sparse_w_inliers", DIMS + [_cnt("n_interacting", 1, 2), _num("strength", 0.1, 5), _num("inlier_fraction", 0.01, 0.9)]),
}


class FakeBMM:
    def __init__(self, dist, mi_estimate_sample=None):
        self.dist, self.mi_estimate_sample = dist, mi_estimate_sample
        self.dim_x, self.dim_y = dist.dim_x, dist.dim_y

    def mutual_information(self):
        return 0.5


class Plain:
    """stands in for the samplers: identifiers do not depend on them (what they are is C32 and C38)"""

    def __init__(self, dim_x=1, dim_y=1, **k):
        self.dim_x, self.dim_y = dim_x, dim_y

    def mutual_information(self):
        return 0.5


def _fakes(H, fam):
    s = H.mod("bmi.samplers")
    if H.symbolic:
        for n in ("SplitMultinormal", "SplitStudentT", "BivariateNormalSampler", "AdditiveUniformSampler"):
            setattr(s, n, Plain)
        H.mod("bmi.samplers._tfp").BMMSampler = FakeBMM
        s.TransformedSampler = lambda base_sampler, *a, **k: base_sampler
    return H.mod(TK + FAM[fam][0])


@case("C31", quick=[dict(fam=f, diff=q[1]) for f in FAM for q in FAM[f][2]], replays=5, reseed=False)
def ids(H, fam, diff):
    """two tasks of one family which differ in one parameter (others equal or not)"""
    m = _fakes(H, fam)
    make = getattr(m, FAM[fam][1])
    a, b = {}, {}
    others = H.pick("others", ["equal", "different"])
    for kind, n, *r in FAM[fam][2]:
        if kind == "real":
            a[n] = H.real(n + "_a", *r)
            b[n] = a[n] if n != diff and others == "equal" else H.real(n + "_b", *r)
            if n == diff:
                d = a[n] - b[n]
                H.assume((d > 2e-4) | (d < -2e-4) if H.symbolic else abs(d) > 2e-4)
        else:
            a[n] = H.pick(n + "_a", r[0])
            b[n] = a[n] if n != diff and others == "equal" else H.pick(n + "_b", r[0])
            if n == diff:
                H.assume(a[n] != b[n])
    ia, ib = make(**a).id, make(**b).id
    same = text_equal(ia, ib) if H.symbolic else ia == ib
    H.true(~same if H.symbolic and not isinstance(same, bool) else not same, f"tasks with different {diff} have different ids")
    ia2 = make(**a).id
    H.true(text_equal(ia, ia2) if H.symbolic else ia == ia2, "equal parameters give equal ids")


@case("C31", quick=[dict(fam=f) for f in FAM if len([q for q in FAM[f][2] if q[0] != "real"]) > 1], replays=8, reseed=False)
def ids_digits(H, fam):
    """counts of one and two digits which read the same without what separates them"""
    m = _fakes(H, fam)
    make = getattr(m, FAM[fam][1])
    a, b = {}, {}
    for kind, n, *r in FAM[fam][2]:
        if kind == "real":
            a[n] = b[n] = 0.5
        elif n == "n_interacting":
            a[n] = b[n] = 1
        else:
            a[n] = H.pick(n + "_a", [2, 22])
            b[n] = H.pick(n + "_b", [2, 22])
    H.assume(a != b)
    H.true(make(**a).id != make(**b).id, "tasks with different dimensions have different ids")


TRANS = {"normal_cdf": ("normal_cdf", "transform_normal_cdf_task"), "half_cube": ("half_cube", "transform_half_cube_task"), "asinh": ("asinh", "transform_asinh_task"),
         "wiggly": ("wiggly", "transform_wiggly_task"), "power": ("power", "transform_power_task"), "spiral": ("spiral", "transform_spiral_task"),
         "rotate": ("rotate", "transform_rotate_task"), "rescale": ("scaling", "transform_rescale"), "uniformise": ("scaling", "transform_uniformise"),
         "gaussianise": ("scaling", "transform_gaussianise"), "swissroll": ("embeddings", "transform_swissroll_task")}


@case("C31", quick=[{}], replays=10)
def transform_ids(H):
    """any two (transform, base task) pairs"""
    t = H.mod(T)
    out = []
    for s in "ab":
        k = H.pick("transform_" + s, list(TRANS))
        base = t.Task(fake_sampler(H, "f" + s, 1 if k == "swissroll" else 3, 3, mi=0.5), task_id=H.pick("base_" + s, ["p", "q-1"]), task_name="B")
        kw = {}
        if k == "swissroll":
            kw["task_name"] = "N"
        if k == "power":
            kw["alpha"] = H.real("alpha_" + s, 0.1, 4)
        task = getattr(H.mod(TK + TRANS[k][0]), TRANS[k][1])(base, **kw)
        out.append((k, base.id, kw.get("alpha"), task.id))
    (ka, ba, aa, ia), (kb, bb, ab, ib) = out
    same = text_equal(ia, ib) if H.symbolic else ia == ib
    if ka == kb and ba == bb:
        if ka == "power":
            d = aa - ab
            if H.truth((d > 2e-4) | (d < -2e-4) if H.symbolic else abs(d) > 2e-4):
                H.true(~same if H.symbolic and not isinstance(same, bool) else not same, "different powers have different ids")
        else:
            H.true(same, "equal transforms of equal tasks have equal ids")
    else:
        H.true(~same if H.symbolic and not isinstance(same, bool) else not same, "different transforms or base tasks have different ids")


@case("C31", quick=[{}], replays=1)
def registry(H):
    """every entry of the benchmark registry"""
    import importlib

    b = importlib.import_module("bmi.benchmark")
    lst = importlib.import_module("bmi.benchmark.task_list").BENCHMARK_TASKS_LIST
    reg = b.BENCHMARK_TASKS
    H.true(len(reg) == len(lst), "every task of the list is in the registry")
    got = {t.id: t for t in lst}
    H.true(len(got) == len(lst), "ids are unique")
    for k, t in reg.items():
        H.true(t.id == k, "the key is the id of its task")
        H.true(any(t is u for u in lst), "registry entries are the listed tasks")
        m = t.metadata
        H.true(m.mi_true >= 0, "mutual information is non-negative")
        x, y = t.sample(5, 1)
        H.true(tuple(x.shape) == (5, m.dim_x) and tuple(y.shape) == (5, m.dim_y), "dimensions are those of the samples")


ZERO = {"waves": ("task_waves", dict(n_components=1)), "inliers strength 0": ("task_multinormal_sparse_w_inliers", dict(dim_x=2, dim_y=2, strength=0.0)),
        "all inliers": ("task_multinormal_sparse_w_inliers", dict(dim_x=2, dim_y=2, inlier_fraction=1.0)), "concentric": ("task_concentric_multinormal", dict(dim_x=2, n_components=1)),
        "x": ("task_x", dict(gaussian_correlation=0.0)), "galaxy": ("task_galaxy", dict(distance=0.0))}


@case("C31", quick=[dict(which=w) for w in ZERO], replays=1)
def zero_information(H, which):
    """mixture tasks at parameters which make X and Y independent"""
    import importlib

    m = importlib.import_module("bmi.benchmark.tasks.mixtures")
    t = getattr(m, ZERO[which][0])(**ZERO[which][1])
    try:
        md = t.metadata
    except ValueError:
        H.fail(f"a task with independent X and Y can be described: {which}")
        return
    H.le(0, md.mi_true, "mutual information is non-negative")
    H.le(md.mi_true, 1e-3, "mutual information of an independent pair is 0")
