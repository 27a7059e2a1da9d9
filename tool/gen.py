#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/spec.py (single source)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = set()
with open(V + "/properties.jsonl", "w") as f:
    for p in spec.PROPS:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na = [], []
for p in spec.PROPS:
    if "technique" in p and os.path.exists(V + "/sa/props/%s.py" % p["id"]):
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 sa/facts.py", "checks": checks, "not_applicable": na,
           "notes": "All checks are static analysis of /repo's current sources (nothing of /repo is executed). The thorough tier repeats each analysis on a second template instantiation (float)."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(spec.PROPS), "properties,", len(checks), "claimed,", len(na), "not applicable")
