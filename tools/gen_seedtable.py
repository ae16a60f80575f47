"""SEEDED.md: the planted bugs (seeded/*/meta.json)"""
import json, glob, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out = ["# Planted bugs", "", "Every bug is caught by the quick check of its property (`tools/trybugs.py`); generated by `tools/gen_seedtable.py`.", "",
       "| bug | caught by | what it breaks | what it needs |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    out.append("| %s | `bin/check %s quick` | %s | %s |" % (f.split("/")[1], m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
open("SEEDED.md", "w").write("\n".join(out) + "\n")
print(len(out) - 6, "bugs")
