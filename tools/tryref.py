"""tools/tryref.py [ids]: applies behaviour-preserving rewrites (tools/refactors/*.py) to a scratch
copy, confirms the stable tests, and runs the listed checks, which must stay quiet."""
import sys, os, json, shutil, time, glob, runpy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import *
REF = []
for f in sorted(glob.glob(os.path.join(HERE, "tools/refactors/*.py"))): REF += runpy.run_path(f)["REF"]
for s in REF:
    if sys.argv[1:] and not any(s["id"].startswith(a) for a in sys.argv[1:]): continue
    d = copy_repo()
    try:
        bad = None
        for f, old, new in s["edits"]:
            p = os.path.join(d, "repo", f); t = open(p).read()
            if t.count(old) != 1: bad = (f, t.count(old), old[:60]); break
            open(p, "w").write(t.replace(old, new))
        if bad: print(s["id"], "edit does not apply", bad, flush=True); continue
        rb, ob = run_in(d, "cd /repo && bash /opt/vp/build.sh")
        if rb: print(s["id"], "does not build", ob[-1500:], flush=True); continue
        run_in(d, "bash /opt/vp/test.sh %s/t.json" % d)
        passed = set(json.load(open(d + "/t.json"))["passed"])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if stable - passed: print(s["id"], "breaks stable tests", stable - passed, flush=True); continue
        for c in s["checks"]:
            t = time.time()
            r, o = run_in(d, "cd /verif && bin/check %s quick" % c, verif=True)
            print("%-24s %s %s exit %d %.0fs %s" % (s["id"], c, "quiet" if r == 0 else "NOISY", r, time.time() - t, "" if r == 0 else "\n".join(l for l in o.splitlines() if l.startswith(("violation", "ERROR", "inconclusive")) or "Error" in l or "not modelled" in l)[:900]), flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
