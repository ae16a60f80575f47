"""Runs queries on the compiled kernel (under valgrind)."""
import sys, json, types, os, ctypes
spec = json.load(open(sys.argv[1]))
root = os.environ["PYTHONPATH"].split(os.pathsep)[0]
def stubs(on):
    for n, a in (("scipy", ()), ("scipy.sparse", ("dok_matrix",)), ("bidict", ("bidict",))):
        if on:
            m = types.ModuleType(n); m.__path__ = []
            for x in a: setattr(m, x, None)
            sys.modules[n] = m
        else: sys.modules.pop(n, None)
for pk in ("switss", "switss.utils"):
    m = types.ModuleType(pk); m.__path__ = [os.path.join(root, *pk.split("."))]; sys.modules[pk] = m
def load():
    from switss.utils import treaps, graph
    return treaps, graph
stubs(True)
try: treaps, graph = load()
except (ImportError, AttributeError):
    stubs(False)
    treaps, graph = load()
try:
    v = (ctypes.c_int * len(spec["rand"]))(*spec["rand"])
    ctypes.CDLL(None).gsx_rand(v, len(spec["rand"]))
except AttributeError: pass
class P:
    def __init__(self): self.shape = (len(spec["pairs"]), spec["N"])
    nnz = property(lambda self: len(spec["ents"]))
    def items(self): return [((r, d), p) for r, d, p in spec["ents"]]
    def keys(self): return [(r, d) for r, d, p in spec["ents"]]
    def values(self): return [p for r, d, p in spec["ents"]]
    def __getitem__(self, k): return next((p for r, d, p in spec["ents"] if (r, d) == tuple(k)), 0.0)
def tryq(f):
    try: r = f()
    except Exception: return
    for x in (r if isinstance(r, tuple) else (r,)):
        for y in (x if hasattr(x, "__iter__") else (x,)):
            for z in (y if hasattr(y, "__iter__") else (y,)):
                if float(z) == 12345.5: print("x")
def graphs():
    class Idx: inv = {i: tuple(sa) for i, sa in enumerate(spec["pairs"])}
    g = graph.Graph(P(), Idx()) if not spec.get("noargs") else graph.Graph()
    for q in spec["q"]:
        if q == "mec": tryq(g.maximal_end_components)
        if q == "scc": tryq(g.strongly_connected_components)
        if q in ("reachf", "reachb"): tryq(lambda: g.reachable(set(spec["F"]), "forward" if q == "reachf" else "backward", set(spec["B"])))
        if q == "adj":
            for w in ("successors", "predecessors"):
                for s in range(spec["lo"], spec["hi"]):
                    for a in (None, 0, spec["A"]): tryq(lambda: list(getattr(g, w)(s) if a is None else getattr(g, w)(s, a)))
    del g
def treap():
    P_ = ctypes.pythonapi
    P_.PyCapsule_GetName.restype = ctypes.c_char_p; P_.PyCapsule_GetName.argtypes = [ctypes.py_object]
    P_.PyCapsule_GetPointer.restype = ctypes.c_void_p; P_.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    def get(name, res, *args):
        c = treaps.__pyx_capi__[name]
        return ctypes.PYFUNCTYPE(res, *args)(P_.PyCapsule_GetPointer(c, P_.PyCapsule_GetName(c)))
    vp, i = ctypes.c_void_p, ctypes.c_int
    add, mem, fr = get("add_to_treap", vp, vp, i), get("in_treap", i, vp, i), get("free_treap", None, vp)
    t = None
    for k in spec["keys"]: t = add(t, k)
    for k in range(max(spec["keys"]) + 2):
        if mem(t, k) == 12345: print("x")
    fr(t)
treap() if spec["q"] == ["treap"] else graphs()
print("DONE")
