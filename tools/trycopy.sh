#!/bin/bash
# apply each planted bug to a copy of /repo (WC, default /tmp/wc) and run its property's check there; what caught it goes to tools/caught.json
cd /verif; WC=${WC:-/tmp/wc}; export WC
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C $WC checkout -q -- .; s=$(date +%s)
  timeout 900 tools/oncopy.sh --patch /verif/seeded/$d/patch.diff $p > $WC.out 2>&1; rc=$?
  git -C $WC checkout -q -- .
  python3 - "$d" "$p" $rc $WC.out <<'P'
import json, sys, re
d, p, rc, out = sys.argv[1:]
f = "/verif/tools/caught.json"
try: c = json.load(open(f))
except Exception: c = {}
names = []
L = open(out).read().split("\n")
for a, b in zip(L, L[1:]):
    if a.startswith("VIOLATION"):
        names.append(b.split()[0])
c[d] = (p + ": " + ", ".join(dict.fromkeys(names))) if rc == "1" else "MISSED"
json.dump(dict(sorted(c.items())), open(f, "w"), indent=0)
P
  echo "$d: rc=$rc $(grep -m1 -A1 VIOLATION $WC.out | tail -1 | cut -c1-200) [$(( $(date +%s)-s )) s] $(tail -1 $WC.out | cut -c1-160)"
done
