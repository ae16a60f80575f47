"""tools/mkseed.py [ids]: turns the entries of tools/seeds/*.py into /verif/seeded/<id>/ after
confirming that each builds, passes the stable tests, and is told apart by its demo."""
import sys, os, json, shutil, subprocess, glob, runpy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import *
SEEDS = []
for f in sorted(glob.glob(os.path.join(HERE, "tools/seeds/*.py"))): SEEDS += runpy.run_path(f)["SEEDS"]
def make(s):
    d = copy_repo()
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, "repo", f); t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        out = os.path.join(d, "seed"); os.makedirs(out)
        diff = subprocess.run(["git", "-C", d + "/repo", "diff"], stdout=subprocess.PIPE).stdout
        open(out + "/patch.diff", "wb").write(diff)
        open(out + "/demo.py", "w").write(s["demo"])
        open(out + "/demo.sh", "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        # unchanged tree
        r0, o0 = run_in(d, "cd /repo && git stash -q && bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh; r=$?; git stash pop -q; exit $r" % out)
        if r0: return "demo fails on the unchanged tree: " + o0[-600:]
        rb, ob = run_in(d, "cd /repo && bash /opt/vp/build.sh")
        if rb: return "does not build: " + ob[-800:]
        run_in(d, "bash /opt/vp/test.sh %s/t.json" % d)
        passed = set(json.load(open(d + "/t.json"))["passed"])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if stable - passed: return "breaks stable tests: %s" % (stable - passed)
        r1, o1 = run_in(d, "cd /repo && timeout 300 bash %s/demo.sh" % out)
        if r1 == 0: return "demo passes with the patch"
        dst = os.path.join(HERE, "seeded", s["id"])
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
        return "ok (demo: %s)" % (o1.strip().splitlines() or ["exit %d" % r1])[-1][:150]
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    want = sys.argv[1:]
    todo = [s for s in SEEDS if (s["id"] in want or any(s["id"].startswith(w) for w in want) if want else not os.path.exists(os.path.join(HERE, "seeded", s["id"])))]
    with ThreadPoolExecutor(4) as ex:
        for s, r in zip(todo, ex.map(make, todo)): print(s["id"], r, flush=True)
