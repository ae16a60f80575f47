"""tools/blameseed.py: how many of the lines that each seed removes were written by the original repository"""
import subprocess, sys, glob, re, os
root = subprocess.check_output(["git","-C","/repo","rev-list","--max-parents=0","HEAD"],text=True).split()[-1]
cache = {}
def blame(f):
    if f not in cache:
        out = subprocess.check_output(["git","-C","/repo","blame","-l","--root","HEAD","--",f],text=True,errors="replace").splitlines()
        cache[f] = [l.split()[0].lstrip("^")==root for l in out]
    return cache[f]
for d in sorted(glob.glob("/verif/seeded/*")):
    orig = mine = 0; f=None
    for l in open(d+"/patch.diff", errors="replace"):
        if l.startswith("--- a/"): f=l[6:].strip()
        elif l.startswith("@@"): n=int(re.match(r"@@ -(\d+)",l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if blame(f)[n-1]: orig+=1
            else: mine+=1
            n+=1
        elif l.startswith(" "): n+=1
    if orig==0 or len(sys.argv)>1: print(os.path.basename(d), "original", orig, "own", mine)
