"""Writes the per-property part of DESIGN.md from the registered cases, and the list of planted bugs. Run: PYTHONPATH=. /opt/venv/bin/python tools/gen_design.py"""
import ast
import importlib
import inspect
import textwrap
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def short(ps):
    if ps == [{}]:
        return "-"
    out = []
    for p in ps:
        out.append(", ".join(f"{k}={v}" for k, v in p.items()) or "-")
    s = "; ".join(out[:4])
    return s + (f"; ... ({len(out)})" if len(out) > 4 else "")


def _src(n):
    return ast.unparse(n).replace("|", chr(92) + "|").replace("'", "")


def _name(n):
    t = _src(n)
    return t[1:] if isinstance(n, ast.JoinedStr) else t


def inputs(tree, env, depth=2):
    """the symbolic inputs a harness declares, with their bounds"""
    out = []
    for n in ast.walk(tree):
        if depth and isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and inspect.isfunction(env.get(n.func.id)):
            f = env[n.func.id]
            out += inputs(ast.parse(textwrap.dedent(inspect.getsource(f))), f.__globals__, depth - 1)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "H":
            k, a = n.func.attr, n.args
            if k not in ("real", "int", "array", "jarray", "intarray", "pick", "seed", "perm", "bool") or (not a and k != "seed"):
                continue
            nm = _name(a[0]) if a else "seed"
            lim = [_src(x) for x in a[(2 if "array" in k else 1):]]
            if k in ("real", "int", "array", "jarray", "intarray"):
                lo, hi = (lim + ["None", "None"])[:2]
                kw = {x.arg: _src(x.value) for x in n.keywords}
                lo, hi = kw.get("lo", lo), kw.get("hi", hi)
                rng = "" if lo == hi == "None" else f" {'(' if 'lo_open' in kw else '['}{'-inf' if lo == 'None' else lo}, {'inf' if hi == 'None' else hi}{')' if 'hi_open' in kw else ']'}"
                out.append(nm + ("" if k == "real" else " array" if "array" in k else " int") + rng)
            elif k == "pick":
                opt = lim[0] if lim else ""
                out.append(f"{nm} of {opt if len(opt) < 60 else '...'}")
            elif k == "seed":
                out.append("seed int [0, 2^31)")
            else:
                out.append(f"{nm} {k}")
    return list(dict.fromkeys(out))


def labels(tree):
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("eq", "true", "lt", "le", "independent", "raises"):
            for a in n.args[1:]:
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    out.append(a.value)
                elif isinstance(a, ast.JoinedStr):
                    out.append(_name(a))
    return list(dict.fromkeys(out))


def main():
    from engine import harness

    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("checks." + f[:-3])
    notes = json.load(open(os.path.join(HERE, "tools", "design_notes.json")))
    out = []
    for ln in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(ln)
        i = p["id"]
        out.append(f"### {i} {p['title']}\n")
        if i in notes:
            out.append(notes[i] + "\n")
        e = os.path.join(HERE, "evidence", i + ".json")
        if os.path.exists(e):
            c = json.load(open(e))
            v = c["coverage"]
            s = v["solver"]
            out.append(f"Last {c['tier']} run: {v['states']} paths, {v['obligations']} obligations ({v['discharged_by_normal_form']} by normal form, {v['discharged_by_solver']} by solver), "
                       f"{s['queries']} queries, {v['traces_validated_against_impl']} traces replayed, {len(v['functions_encoded'])} functions encoded.\n")
        out.append("| case | decided | symbolic inputs | quick sizes | thorough sizes |\n|---|---|---|---|---|")
        for c in harness.CASES.get(i, []):
            tree = ast.parse(textwrap.dedent(inspect.getsource(c.fn)))
            d = " ".join((c.fn.__doc__ or "").split()) or "; ".join(labels(tree)[:4])
            ins = "; ".join(inputs(tree, c.fn.__globals__)) or "configurations only"
            th = short(c.thorough)
            out.append(f"| {c.name} | {d.replace('|', chr(92) + '|')} | {ins} | {short(c.quick)} | {'same' if c.thorough == c.quick else th} |")
        out.append("")
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    s = re.sub(r"<!-- TABLE -->.*<!-- /TABLE -->", lambda m: "<!-- TABLE -->\n" + "\n".join(out) + "\n<!-- /TABLE -->", s, flags=re.S)
    rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        rows.append(f"| {d} | {m['property']} | {' '.join(str(m['needs']).split()).replace('|', '/')} | {caught.get(d, '(not tried)')} |")
    s = re.sub(r"<!-- SEEDS -->.*<!-- /SEEDS -->", lambda m: "<!-- SEEDS -->\n" + "\n".join(rows) + "\n<!-- /SEEDS -->", s, flags=re.S)
    open(p, "w").write(s)


main()
