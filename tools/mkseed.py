#!/usr/bin/env python3
"""Makes and confirms planted bugs (development tool; no check uses it).

    tools/mkseed.py SPECFILE [ID ...] [--notests]

SPECFILE defines SEEDS = [dict(id, property, file, old, new, demo, needs, breaks), ...];
`file`/`old`/`new` may be lists for multi-site changes.  Each one is applied to a scratch copy
of /repo under /tmp, its demonstration is run on both trees, the repository's tests are run
on the patched tree, and only then is /verif/seeded/<id>/ written.
"""
import json, os, shutil, subprocess, sys

SCR = "/tmp/seedscr"
DEMO_SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change; run with cwd = repository root
PYTHONPATH=src JAX_PLATFORMS=cpu exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ns = {}
    exec(open(args[0]).read(), ns)
    want = set(args[1:])
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable_pass") or base.get("passing") or base.get("tests") or [])
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        out = f"/verif/seeded/{s['id']}"
        if os.path.exists(out + "/patch.diff") and "--force" not in sys.argv:
            continue
        if not os.path.isdir(SCR):
            sh(f"cp -a /repo {SCR}")
        sh("git checkout -q -- .", cwd=SCR)
        files = s["file"] if isinstance(s["file"], list) else [s["file"]]
        olds = s["old"] if isinstance(s["old"], list) else [s["old"]]
        news = s["new"] if isinstance(s["new"], list) else [s["new"]]
        if len(files) == 1:
            files = files * len(olds)
        ok = True
        tmpd = f"/tmp/seeddemo_{s['id']}"
        os.makedirs(tmpd, exist_ok=True)
        open(tmpd + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(tmpd + "/demo.sh", "w").write(DEMO_SH)
        r = sh(f"bash {tmpd}/demo.sh", cwd=SCR, timeout=300)
        if r.returncode != 0:
            print(s["id"], "DEMO FAILS UNPATCHED", r.stdout[-1500:]); ok = False
        for f, o, n in zip(files, olds, news):
            p = f"{SCR}/{f}"
            t = open(p).read()
            if t.count(o) != 1:
                print(s["id"], "pattern count", t.count(o), f, repr(o[:60])); ok = False
                continue
            open(p, "w").write(t.replace(o, n))
        if ok:
            r = sh(f"bash {tmpd}/demo.sh", cwd=SCR, timeout=300)
            if r.returncode == 0:
                print(s["id"], "DEMO PASSES PATCHED"); ok = False
            else:
                last = r.stdout.strip().splitlines()[-1:]
        if ok and "--notests" not in sys.argv:
            env = dict(os.environ, PYTHONPATH=f"{SCR}/src", JAX_PLATFORMS="cpu", MPLBACKEND="Agg",
                       PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                       PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
            r = sh(f"/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --no-cov -n 8 --timeout=300 "
                   f"--basetemp={tmpd}/tmp tests 2>&1 | tail -15", cwd=SCR, env=env)
            tail = r.stdout.strip().splitlines()
            summ = tail[-1] if tail else ""
            if " failed" in summ or " error" in summ or "passed" not in summ:
                print(s["id"], "TESTS FAIL", "\n".join(tail[-8:])); ok = False
        if ok:
            os.makedirs(out, exist_ok=True)
            d = sh("git diff", cwd=SCR).stdout
            open(out + "/patch.diff", "w").write(d)
            shutil.copy(tmpd + "/demo.py", out + "/demo.py")
            shutil.copy(tmpd + "/demo.sh", out + "/demo.sh")
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"],
                       "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            print(s["id"], "KEPT", last, flush=True)
        sys.stdout.flush()
        shutil.rmtree(tmpd)
    shutil.rmtree(SCR, ignore_errors=True)


main()
