"""The compiled kernel of the current tree.  The in-place build is used when the build stamp
says it belongs to the current sources, otherwise the extensions are built in a scratch copy."""
import hashlib, os, shutil, subprocess, sys, tempfile, types, glob, importlib, atexit
REPO = os.environ.get("SYMX_REPO", "/repo")

def _stamp(repo):
    fs = []
    for d, _, names in os.walk(os.path.join(repo, "switss")):
        for n in names:
            if n.endswith((".pyx", ".pxd")): fs.append(os.path.relpath(os.path.join(d, n), repo))
    fs.sort(key=lambda s: s.encode())
    out = []
    for f in fs + ["setup.py"]:
        out.append("%s  %s" % (hashlib.sha256(open(os.path.join(repo, f), "rb").read()).hexdigest(), f))
    return "\n".join(out)

def fresh(repo=REPO):
    try: cur = open(os.path.join(repo, "build", "ext.sha256")).read().strip()
    except OSError: return False
    if cur != _stamp(repo).strip(): return False
    return all(glob.glob(os.path.join(repo, "switss/utils/%s.cpython-*.so" % m)) for m in ("graph", "stack", "treaps"))

class BuildError(Exception): pass
def prepare():
    """returns a directory that can stand on PYTHONPATH and holds the switss package of the
    current tree with its compiled kernel (set as SYMX_ROOT for child processes)"""
    if os.environ.get("SYMX_ROOT"): return os.environ["SYMX_ROOT"]
    if fresh():
        os.environ["SYMX_ROOT"] = REPO
        return REPO
    d = tempfile.mkdtemp(prefix="symx_build_")
    pid = os.getpid()
    def clean():
        if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
    atexit.register(clean)
    shutil.copytree(os.path.join(REPO, "switss"), os.path.join(d, "switss"), ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.c"))
    shutil.copytree(os.path.join(REPO, "bin"), os.path.join(d, "bin"))
    shutil.copy(os.path.join(REPO, "setup.py"), d)
    r = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace", "--force"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, CYTHON_FORCE_REGEN="1"))
    if r.returncode: raise BuildError(r.stdout.decode(errors="replace")[-3000:])
    os.environ["SYMX_ROOT"] = d
    return d

def _imp(name):
    root = prepare()
    sys.dont_write_bytecode = True
    for pk in ("switss", "switss.utils"):
        if pk not in sys.modules:
            m = types.ModuleType(pk)
            m.__path__ = [os.path.join(root, *pk.split("."))]
            sys.modules[pk] = m
    return importlib.import_module(name)
def graph_module(): return _imp("switss.utils.graph")
def treaps_module(): return _imp("switss.utils.treaps")
def stack_module(): return _imp("switss.utils.stack")
