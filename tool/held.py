#!/usr/bin/env python3
"""held.py [--save] [IDs]: run the checks and compare held/undecided counts per rule with tool/held.json,
so that an engine change that silently stops deciding a rule is noticed."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a[0] == "P"] or [c["property_id"] if "property_id" in c else c.get("property", c.get("id")) for c in json.load(open(root + "/MANIFEST.json"))["checks"]]
db = root + "/tool/held.json"
old = json.load(open(db)) if os.path.exists(db) else {}
def run(i):
    r = subprocess.run([sys.executable, root + "/check.py", i], capture_output=True, text=True, cwd=root)
    return i, r.returncode, {m[1]: [int(m[2]), int(m[3])] for m in re.finditer(r"^  (\S+)\s+checked=\d+ held=(\d+) undecided=(\d+)", r.stdout, re.M)}, r.stdout + r.stderr
with ThreadPoolExecutor(7) as ex:
    for i, rc, res, out in ex.map(run, ids):
        bad = [] if rc == 0 else ["exit %d %s" % (rc, [l for l in out.splitlines() if "VIOLATION" in l or "Error" in l][:2])]
        for k in sorted(set(res) | set(old.get(i, {}))):
            a, b = old.get(i, {}).get(k, [0, 0]), res.get(k, [0, 0])
            if a != b:
                bad.append("%s %s->%s" % (k, a, b))
        print(i, "ok" if not bad else bad)
        if "--save" in sys.argv:
            old[i] = res
if "--save" in sys.argv:
    json.dump(old, open(db, "w"), indent=0, sort_keys=True)
