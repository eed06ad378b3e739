#!/usr/bin/env python3
"""run_check.py C01 [--tier quick|thorough] [--replay file] [--case name] [-j N] -- decide one property on /repo's current tree."""
import argparse
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
OUT = os.environ.get("VERIF_OUT", HERE)  # development aid, with VERIF_REPO


def reexec():
    want = {"PYTHONHASHSEED": "0", "JAX_PLATFORMS": "cpu", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
            "PYTHONDONTWRITEBYTECODE": "1", "TF_CPP_MIN_LOG_LEVEL": "3", "MPLBACKEND": "Agg",
            "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"}
    if os.environ.get("BMI_VERIF_CHILD") != "1":
        env = dict(os.environ, **want)
        env["BMI_VERIF_CHILD"] = "1"
        env["PYTHONPATH"] = HERE
        if "VERIF_REPO" in env:  # development aid: decide a copy of the repository
            env["PYTHONPATH"] += ":" + os.path.join(env["VERIF_REPO"], "src")
        py = PY if os.path.exists(PY) else sys.executable
        os.chdir(HERE)
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


def job(args):
    prop, name, params, tier, seed = args
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    import faulthandler

    faulthandler.enable()
    from engine import harness

    load(prop)
    c = next(c for c in harness.CASES[prop] if c.name == name)
    try:
        return harness.run_case(c, params, tier, seed)
    except BaseException as e:  # a failure of the machinery, never of the property
        import traceback

        return {"case": name, "params": params, "machinery_error": traceback.format_exc()[-1500:], "error": f"{type(e).__name__}: {e}"[:300]}


def load(prop):
    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if f.endswith(".py") and not f.startswith("_") and prop.lower() in f[:-3].split("_"):
            importlib.import_module("checks." + f[:-3])


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding:"):
                d = {}
                head, _, what = ln[len("finding:"):].partition("|")
                for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', head):
                    d[k] = v.strip('"')
                d["what"] = what.strip()
                out.append(d)
    return out


def main():
    reexec()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "6")))
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    if a.selftest:
        import engine, numpy, jax, z3, tensorflow_probability.substrates.jax  # noqa: F401,E401
        import bmi

        print("ok", z3.get_version_string(), bmi.__file__)
        return 0
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    from engine import harness

    load(a.prop)
    cases = harness.CASES.get(a.prop, [])
    if not cases:
        print(f"no case for {a.prop}")
        return 2

    if a.replay:
        d = json.load(open(a.replay))
        c = next(c for c in cases if c.name == d["case"])
        bad = 0
        for s in range(4):
            st, lab, msg, _ = harness.run_conc(c, d["params"], harness.decode_env(d["env"]), tier, 1.0, seed=s)
            print(f"replay {s}: {st} {lab or ''} {msg or ''}")
            bad = bad or st in ("mismatch", "error")
        return 1 if bad else 0

    jobs = []
    for c in cases:
        if a.case and c.name != a.case:
            continue
        for p in (c.quick if tier == "quick" else c.thorough):
            jobs.append((a.prop, c.name, p, tier, seed))
    limit = 780 if tier == "quick" else 6 * 3600
    if a.j <= 1 or len(jobs) == 1:
        results = [job(j) for j in jobs]
    else:
        results = pool_run(jobs, max(1, min(a.j, len(jobs))), t0 + limit)
    return report(a, tier, seed, jobs, results, t0)


MEMORY = 6 << 30


def _limit():
    """a case that grows without bound fails on its own instead of taking the others with it"""
    import ctypes
    import resource
    import signal

    try:  # a worker never outlives the check
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass
    try:
        resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, resource.getrlimit(resource.RLIMIT_DATA)[1]))
    except (ValueError, OSError):
        pass


def pool_run(jobs, n, deadline):
    results = [None] * len(jobs)
    again = _pool(jobs, range(len(jobs)), n, deadline, results)
    if again:  # a worker died and took the pool with it: the unfinished cases get a process each
        from concurrent.futures import ThreadPoolExecutor

        with ThreadPoolExecutor(max(1, n // 2)) as tp:
            list(tp.map(lambda i: _pool(jobs, [i], 1, deadline, results), again))
    for i, j in enumerate(jobs):
        if results[i] is None:
            results[i] = {"case": j[1], "params": j[2], "error": "worker died"}
    return results


def _pool(jobs, idx, n, deadline, results):
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool

    ex = ProcessPoolExecutor(n, mp_context=mp.get_context("spawn"), initializer=_limit)
    futs = {i: ex.submit(job, jobs[i]) for i in idx}
    died, late = [], False
    if os.environ.get("VERIF_FAILFAST"):  # development aid: stop at the first violation
        from concurrent.futures import as_completed

        for f in as_completed(futs.values()):
            if f.exception() is None and f.result().get("violations") and not any(k.get("case") == f.result()["case"] for k in known_findings()):
                for i, g in futs.items():
                    if not g.done() and i != len(futs) - 1 or g.cancelled():
                        results[i] = {"case": jobs[i][1], "params": jobs[i][2], "error": "not run: stopped at the first violation"}
                for p in list(getattr(ex, "_processes", {}).values()):
                    p.kill()
                for i, g in futs.items():
                    if g.done() and not g.cancelled() and g.exception() is None:
                        results[i] = g.result()
                    elif results[i] is None:
                        results[i] = {"case": jobs[i][1], "params": jobs[i][2], "error": "not run: stopped at the first violation"}
                ex.shutdown(wait=False, cancel_futures=True)
                return []
    for i, f in futs.items():
        try:
            results[i] = f.result(timeout=max(1.0, deadline - time.time()))
        except BrokenProcessPool:
            died.append(i)
        except Exception as e:
            late = True
            results[i] = {"case": jobs[i][1], "params": jobs[i][2], "error": f"{type(e).__name__}: time limit of the check"}
    if time.time() > deadline or late:
        for p in list(getattr(ex, "_processes", {}).values()):
            p.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    else:
        ex.shutdown(wait=True)
    return died


def report(a, tier, seed, jobs, results, t0):
    prop = a.prop
    good = [r for r in results if "error" not in r]
    finds = known_findings()
    nviol, lines, known = 0, [], []
    rdir = os.path.join(OUT, "replays")
    for r in good:
        for v in r["violations"]:
            k = next((f for f in finds if f.get("property") == prop and f.get("case") == r["case"] and f.get("label") in (v["label"], "*")), None)
            if k:
                ln = f"KNOWN-FINDING: property={prop} {k['what']}"
                if ln not in known:
                    known.append(ln)
                continue
            os.makedirs(rdir, exist_ok=True)
            nviol += 1
            path = os.path.join(rdir, f"{prop}-{r['case']}-{nviol}.json")
            json.dump({"property": prop, "case": r["case"], "params": r["params"], **v}, open(path, "w"), indent=1, default=str)
            lines.append((v, r, path))
    for ln in known:
        print(ln)
    for v, r, path in lines:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {r['case']} {r['params']} {v['label']}: {v['message']} ({v['found_by']})")
        print("  inputs: " + ", ".join(f"{k}={x}" for k, x in list(v["env"].items())[:16]))
        print(f"  reproduce: cd {HERE} && ./run_check.py {prop} --replay {path}")
    incomplete = []
    for r in results:
        if "error" in r:
            incomplete.append(f"{r['case']} {r['params']}: {r['error']}")
            if a.verbose and "machinery_error" in r:
                print(r["machinery_error"])
            continue
        if r["n_unsupported"]:
            incomplete.append(f"{r['case']} {r['params']}: {r['n_unsupported']} path(s) outside the encoding: {r['unsupported'][0]}")
        if r["n_unresolved"]:
            incomplete.append(f"{r['case']} {r['params']}: {r['n_unresolved']} obligation(s) undecided: {r['unresolved'][0]}")
        if not r["exhausted"]:
            incomplete.append(f"{r['case']} {r['params']}: exploration stopped at its budget after {r['paths']} paths")
        for u in r["unreproduced"]:
            incomplete.append(f"{r['case']} {r['params']}: counterexample of {u[0]} not reproduced on the real code {u[3] or ''} {str(u[2])[:300]}")
    for ln in incomplete:
        print("INCOMPLETE " + ln[:900])
    tot = lambda k: sum(r.get(k, 0) for r in good)  # noqa: E731
    q = {}
    for r in good:
        for k, x in r["queries"].items():
            q[k] = round(q.get(k, 0) + x, 3)
    funcs = sorted({f for r in good for f in r["functions"]})
    cov = {
        "states": tot("paths"), "transitions": tot("branches"), "traces_validated_against_impl": tot("validated"),
        "samples": [s for r in good for s in r["samples"]][:4],
        "obligations": tot("obligations"), "discharged_by_normal_form": tot("by_normal_form"), "discharged_by_solver": tot("by_solver"),
        "infeasible_paths": tot("aborted"), "solver": q,
        "functions_encoded": funcs, "n_functions_encoded": len(funcs),
        "bounds": [{"case": r["case"], "params": r["params"], "paths": r["paths"], "obligations": r["obligations"], "seconds": r["wall_s"],
                    "exhausted": r["exhausted"]} for r in good],
        "assertions": sorted({l for r in good for l in r["labels"]}),
        "incomplete": incomplete, "known_findings": known,
        "undecided_replays": tot("undecided_replays"),
        "exhaustive": not incomplete,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": nviol, "assumptions": ASSUME + getattr(sys.modules.get("engine.harness"), "NOTES", {}).get(prop, [])}
    if not a.case:
        json.dump(ev, open(os.path.join(OUT, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    if a.verbose:
        for r in good:
            print(f"  {r['case']} {r['params']}: paths {r['paths']} (+{r['aborted']} infeasible) branches {r['branches']} obligations {r['obligations']} "
                  f"({r['by_normal_form']} nf, {r['by_solver']} smt) validated {r['validated']} skipped {r['skipped_replays']} q {r['queries']} {r['sym_s']}/{r['wall_s']}s")
    print(f"{prop} {tier}: {len(good)}/{len(results)} cases, {cov['states']} paths, {cov['obligations']} obligations "
          f"({cov['discharged_by_normal_form']} normal form, {cov['discharged_by_solver']} solver), {cov['traces_validated_against_impl']} traces replayed, "
          f"{len(incomplete)} incomplete, {nviol} violations, {ev['wall_s']} s")
    sys.stdout.flush()
    if nviol:
        return 1
    if cov["states"] == 0 and not known:
        return 2
    return 0


ASSUME = [
    "real arithmetic with exact functions; floating-point rounding is outside the encoding, replays on the real code use a tolerance",
    "numpy, jax, scipy, sklearn, tfp library routines follow their documentation (modelled by engine/sarr.py, jx.py, overrides.py, lazytf.py)",
    "bounds: the sizes listed per case under coverage.bounds; larger sizes are outside the claim",
]

if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
