"""Writes MANIFEST.json from properties.jsonl and the case files (a property is claimed iff it has cases)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = {}


def notes():
    p = os.path.join(HERE, "tools", "level_notes.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def main():
    ids = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    have = set()
    for f in os.listdir(os.path.join(HERE, "checks")):
        if f.endswith(".py") and not f.startswith("_"):
            src = open(os.path.join(HERE, "checks", f)).read()
            have |= set(re.findall(r'@case\("(C\d+)"', src))
    nt = notes()
    m = {"version": 1, "setup_cmd": "./run_check.py --selftest", "checks": [], "not_applicable": []}
    for p in ids:
        i = p["id"]
        if i in have:
            m["checks"].append({
                "property": i,
                "quick_cmd": f"./run_check.py {i} --tier quick",
                "thorough_cmd": f"./run_check.py {i} --tier thorough",
                "technique": "symbolic execution of the real Python source (and of its jaxprs) with an SMT solver (z3) deciding every assertion on every path; counterexamples replayed on the real code",
                "level": "model_checking",
                "level_note": nt.get(i, "every value of the symbolic inputs within the stated sizes; real arithmetic for floats; bounds and exclusions are in the evidence file and DESIGN.md"),
            })
        else:
            m["not_applicable"].append({"property": i, "reason": PENDING.get(i, "no check built yet")})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]], "not claimed")


if __name__ == "__main__":
    main()
