"""scratch copies of /repo, seen at /repo inside a private mount namespace"""
import os, shutil, subprocess, tempfile, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def copy_repo():
    d = tempfile.mkdtemp(prefix="seed_")
    subprocess.run(["cp", "-a", "/repo/.", d + "/repo/"], check=True) if os.makedirs(d + "/repo") is None else None
    return d
def run_in(d, cmd, timeout=1200, verif=False):
    """shell command with d/repo mounted on /repo (and a scratch copy of /verif when verif)"""
    pre = "mount --bind %s/repo /repo && " % d
    if verif:
        if not os.path.exists(d + "/verif"):
            os.makedirs(d + "/verif")
            subprocess.run("cp -a /verif/bin /verif/lib /verif/checks /verif/tools /verif/properties.jsonl %s/verif/; cp /verif/known_findings.json %s/verif/ 2>/dev/null; mkdir -p %s/verif/evidence" % (d, d, d), shell=True)
        pre += "mount --bind %s/verif /verif && " % d
    try:
        p = subprocess.run(["unshare", "-m", "sh", "-c", pre + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd="/")
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
