#!/usr/bin/env python3
"""Writes HARNESSES.md: every harness with its bounds (run with /opt/venv/bin/python)."""
import sys, os, json, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE + "/lib", HERE + "/checks", HERE + "/tools"]
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(HERE + "/properties.jsonl")}
out = ["# Harnesses and their bounds (generated by tools/gen_harnesses.py)", "", "q = quick tier, t = thorough tier.", ""]
for c in sorted(titles):
    if not os.path.exists(HERE + "/checks/%s.py" % c): continue
    m = importlib.import_module(c)
    out += ["## %s %s" % (c, titles[c]), ""]
    for h in m.HARNESSES:
        out.append("- `%s` (%s): %s" % (h.name, "qt" if h.quick and h.thorough else "q" if h.quick else "t", h.bounds))
    if getattr(m, "ASSUMPTIONS", None):
        out += ["", "Assumptions:"] + ["- " + a for a in m.ASSUMPTIONS]
    out.append("")
open(HERE + "/HARNESSES.md", "w").write("\n".join(out))
