#!/usr/bin/env python3
"""Development aid: mutation campaign on copies of the repository.

    tools/mutate.py OUT.jsonl [--lanes 2] [--jobs 4] [--limit N] [--files substr,...] [--seed S] [--skip OLD.jsonl]
Every mutant changes one place; the checks of the properties anchored in its file run (fail-fast) on a copy.
Survivors are written with their diff, to be judged by hand (equivalent? outside every property? a gap?).
"""
import argparse, ast, copy, difflib, json, os, random, shutil, subprocess, sys, threading, queue

MAP = {
    "samplers/_splitmultinormal.py": "C01 C02 C36", "samplers/_split_student_t.py": "C03 C02 C36", "samplers/base.py": "C36 C08 C02",
    "samplers/_matrix_utils.py": "C04 C05", "samplers/_additive_uniform.py": "C06", "samplers/_discrete_continuous.py": "C07",
    "samplers/_independent_coordinates.py": "C08", "samplers/_transformed.py": "C09", "transforms/simple.py": "C10", "transforms/_rotate.py": "C11",
    "transforms/_invert_cdf.py": "C12", "samplers/_tfp/_core.py": "C14 C15 C13", "samplers/_tfp/_normal.py": "C13", "samplers/_tfp/_student.py": "C13",
    "samplers/_tfp/_product.py": "C13 C14", "samplers/_tfp/_wrapper.py": "C15 C14", "estimators/ksg.py": "C16 C17", "estimators/base.py": "C16 C17",
    "estimators/_histogram.py": "C18", "estimators/_kde.py": "C19", "estimators/correlation.py": "C20", "estimators/function_wrapper.py": "C20",
    "neural/_backend_linear_memory.py": "C21 C22", "neural/_backend_quadratic_memory.py": "C21 C22", "neural/_critics.py": "C26",
    "neural/_mine_estimator.py": "C23 C25 C26", "neural/_training_log.py": "C24 C25", "neural/_basic_training.py": "C25 C26", "neural/_estimators.py": "C26",
    "external/external_estimator.py": "C29", "external/r_estimators.py": "C29", "external/julia_estimators.py": "C29", "external/gmm.py": "C33",
    "plot_utils/subplots_from_axsize.py": "C34", "bmi/utils.py": "C28 C30",
}
SWAP = {"x": "y", "y": "x", "xs": "ys", "ys": "xs", "dim_x": "dim_y", "dim_y": "dim_x", "std_x": "std_y", "std_y": "std_x", "_dim_x": "_dim_y",
        "_k_x": "_k_y", "xs_test": "xs", "ys_test": "ys", "n_bins_x": "n_bins_y", "n_bins_y": "n_bins_x", "mean_x": "mean_y", "mean_y": "mean_x",
        "epsilon_x": "epsilon_y", "epsilon_y": "epsilon_x", "eta_x": "eta_y", "eta_y": "eta_x", "beta_x": "beta_y", "beta_y": "beta_x",
        "i": "j", "j": "i", "xs_train": "xs_test", "ys_train": "ys_test", "max": "min", "min": "max", "mean": "sum", "sum": "mean", "all": "any", "any": "all",
        "log": "log2", "log2": "log", "zeros": "ones", "ones": "zeros", "key": "subkey", "hstack": "vstack", "floor": "ceil", "isneginf": "isposinf"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult, ast.Mod: ast.FloorDiv, ast.MatMult: ast.Mult}


def mutants(tree):
    """yields (description, function applying it to a fresh copy of the tree)"""
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:  # docstrings, annotations and messages are not behaviour
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value)); skip.add(id(n))
        if isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation is not None:
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("print", "confloat") or isinstance(n, ast.If) and "__name__" in ast.dump(n.test):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Assign) and any(getattr(t, "id", "") in ("__all__", "__slots__") for t in n.targets):
            skip |= {id(x) for x in ast.walk(n)}
    for k, n in enumerate(nodes):
        if id(n) in skip:
            continue
        L = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            for q, op in enumerate(n.ops):
                if type(op) in CMP:
                    yield f"{L}: compare {type(op).__name__}", k, lambda m, q=q: m.ops.__setitem__(q, CMP[type(m.ops[q])]())
                if type(op) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                    inv = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}
                    yield f"{L}: negate {type(op).__name__}", k, lambda m, q=q, inv=inv: m.ops.__setitem__(q, inv[type(m.ops[q])]())
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN and not (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield f"{L}: operator {type(n.op).__name__}", k, lambda m: setattr(m, "op", BIN[type(m.op)]())
            if isinstance(n, ast.BinOp):
                yield f"{L}: drop right operand of {type(n.op).__name__}", k, "left"
                yield f"{L}: drop left operand of {type(n.op).__name__}", k, "right"
        if isinstance(n, ast.BoolOp):
            yield f"{L}: and/or", k, lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
        if isinstance(n, ast.UnaryOp):
            yield f"{L}: drop {type(n.op).__name__}", k, "operand"
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                yield f"{L}: {v} -> {not v}", k, lambda m: setattr(m, "value", not m.value)
            elif isinstance(v, int):
                yield f"{L}: {v} -> {v + 1}", k, lambda m: setattr(m, "value", m.value + 1)
                if v:
                    yield f"{L}: {v} -> {v - 1}", k, lambda m: setattr(m, "value", m.value - 1)
            elif isinstance(v, float):
                yield f"{L}: {v} -> {v * 1.1 + (0.1 if v == 0 else 0)}", k, lambda m: setattr(m, "value", m.value * 1.1 + (0.1 if m.value == 0 else 0))
            elif isinstance(v, str) and v:
                yield f"{L}: string {v[:20]!r}", k, lambda m: setattr(m, "value", m.value + "_")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP:
            yield f"{L}: {n.id} -> {SWAP[n.id]}", k, lambda m: setattr(m, "id", SWAP[m.id])
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in SWAP:
            yield f"{L}: .{n.attr} -> .{SWAP[n.attr]}", k, lambda m: setattr(m, "attr", SWAP[m.attr])
        if isinstance(n, ast.Call):
            for q, kw in enumerate(n.keywords):
                if kw.arg:
                    yield f"{L}: drop keyword {kw.arg}", k, lambda m, q=q: m.keywords.pop(q)
            if len(n.args) == 2:
                yield f"{L}: swap arguments", k, lambda m: m.args.reverse()
        if isinstance(n, ast.Slice) and (n.lower is None) != (n.upper is None):
            yield f"{L}: flip slice", k, lambda m: (lambda a, b: (setattr(m, "lower", b), setattr(m, "upper", a)))(m.lower, m.upper)
        if isinstance(n, ast.IfExp):
            yield f"{L}: always body", k, "body"
            yield f"{L}: always orelse", k, "orelse"
        if isinstance(n, ast.If):
            yield f"{L}: condition false", k, lambda m: setattr(m, "test", ast.Constant(False))
            yield f"{L}: condition true", k, lambda m: setattr(m, "test", ast.Constant(True))
        if isinstance(n, (ast.AugAssign, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, ast.Assert):
            yield f"{L}: delete statement", k, "pass"


class Put(ast.NodeTransformer):
    def __init__(self, target, new):
        self.t, self.new = target, new

    def visit(self, node):
        if node is self.t:
            return self.new
        return self.generic_visit(node)


def apply(src, k, how):
    tree = ast.parse(src)
    n = list(ast.walk(tree))[k]
    if isinstance(how, str):
        new = ast.Pass() if how == "pass" else getattr(n, how)
        tree = Put(n, new).visit(tree)
    else:
        how(n)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + "\n"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--lanes", type=int, default=2); ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--limit", type=int, default=10 ** 9); ap.add_argument("--files", default=""); ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--count", action="store_true"); ap.add_argument("--per-file", type=int, default=10 ** 9)
    a = ap.parse_args()
    allm = []
    rng = random.Random(a.seed)
    for f, props in MAP.items():
        if a.files and not any(s in f for s in a.files.split(",")):
            continue
        p = subprocess.run(f"ls /repo/src/bmi/{f} /repo/src/bmi/*/{f} /repo/src/{f} 2>/dev/null", shell=True, capture_output=True, text=True).stdout.split()[0]
        src = open(p).read()
        base = ast.unparse(ast.parse(src)) + "\n"
        ms = []
        for d, k, how in mutants(ast.parse(src)):
            try:
                new = apply(src, k, how)
                compile(new, p, "exec")
            except Exception:
                continue
            if new != base:
                ms.append((os.path.relpath(p, "/repo"), d, base, new, props.split()))
        rng.shuffle(ms)
        allm += ms[:a.per_file]
    rng.shuffle(allm)
    done = set()
    if os.path.exists(a.out):
        for ln in open(a.out):
            d = json.loads(ln); done.add((d["file"], d["diff"]))
    allm = allm[:a.limit]
    print(len(allm), "mutants", flush=True)
    if a.count:
        return
    q = queue.Queue()
    for m in allm:
        q.put(m)
    lock = threading.Lock()

    def lane(i):
        wc, vo = f"/tmp/mut{i}", f"/tmp/mutvo{i}"
        if not os.path.isdir(wc):
            subprocess.run(f"cp -a /repo {wc}", shell=True)
        os.makedirs(vo, exist_ok=True)
        while True:
            try:
                f, d, base, new, props = q.get_nowait()
            except queue.Empty:
                return
            diff = "\n".join(x for x in difflib.unified_diff(base.split("\n"), new.split("\n"), n=1, lineterm="") if not x.startswith(("---", "+++")))
            if (f, diff) in done:
                continue
            open(f"{wc}/{f}", "w").write(new)
            env = dict(os.environ, VERIF_REPO=wc, VERIF_OUT=vo, VERIF_FAILFAST="1")
            r = dict(file=f, what=d, diff=diff, killed=None, incomplete={})
            # does it import at all?
            c = subprocess.run(["/opt/venv/bin/python", "-c", "import bmi, bmi.benchmark, bmi.plot_utils.subplots_from_axsize"], env=dict(os.environ, PYTHONPATH=wc + "/src", JAX_PLATFORMS="cpu"), capture_output=True)
            if c.returncode:
                r["killed"] = "import"
            else:
                for p in props:
                    try:
                        c = subprocess.run(["/verif/run_check.py", p, "-j", str(a.jobs)], env=env, capture_output=True, text=True, timeout=900)
                        out, rc = c.stdout, c.returncode
                    except subprocess.TimeoutExpired:
                        out, rc = "INCOMPLETE timeout", 124
                    if rc == 1:
                        r["killed"] = p; r["by"] = next((x.strip()[:200] for x in out.split("\n") if x.startswith("  ")), "")
                        break
                    inc = [x[:250] for x in out.split("\n") if x.startswith("INCOMPLETE")]
                    if inc or rc != 0:
                        r["incomplete"][p] = [rc, len(inc), inc[:2]]
            subprocess.run(f"git -C {wc} checkout -q -- .", shell=True)
            with lock:
                open(a.out, "a").write(json.dumps(r) + "\n")

    ts = [threading.Thread(target=lane, args=(i,)) for i in range(a.lanes)]
    [t.start() for t in ts]; [t.join() for t in ts]


main()
