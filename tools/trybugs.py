"""tools/trybugs.py [ids]: which seeded changes are caught by the check of their property"""
import sys, os, json, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import *
ids = sorted(i for i in os.listdir(os.path.join(HERE, "seeded")) if not sys.argv[1:] or any(i.startswith(a) for a in sys.argv[1:]))
for i in ids:
    p = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))["property"]
    d = copy_repo()
    try:
        r, o = run_in(d, "cd /repo && git apply %s" % os.path.join(HERE, "seeded", i, "patch.diff"))
        if r: print(i, "patch does not apply", o); continue
        t = time.time()
        r, o = run_in(d, "cd /verif && bin/check %s quick" % p, verif=True)
        caught = r == 1 and ("VIOLATION property=%s" % p) in o
        print("%-28s %s %-7s exit %d %.0fs  %s" % (i, p, "CAUGHT" if caught else "MISSED", r, time.time() - t, next((l for l in o.splitlines() if l.startswith(("violation", "ERROR"))), "")[:200]), flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
