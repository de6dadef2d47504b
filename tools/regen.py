"""Rewrite properties.jsonl and MANIFEST.json from tools/props.py and the check registry."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from props import P
import registry

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    c = registry.CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "check under construction")})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"],
                   "thorough_cmd": "./check %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; recorded behaviour of /repo is judged against them (see DESIGN.md). No hooks in /repo."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
