"""The same questions on the real, compiled code, judged by plain graph algorithms."""
import ctypes, itertools, os, subprocess, sys, tempfile, json
from .model import ename, rand_value

def edges(ctx):
    N, A = int(ctx.i["job.N"]), int(ctx.i["job.A"])
    return N, A, [(s, a, d) for s in range(N) for a in range(A) for d in range(N) if ctx.i[ename(s, a, d)]]
def weights(ctx, N, A, es):
    """probability of every transition"""
    w = {}
    for s in range(N):
        for a in range(A):
            row = [t for t in es if t[0] == s and t[1] == a]
            tot = len(row) * (len(row) + 1) / 2
            for k, t in enumerate(row):
                nm = "p_%d_%d_%d" % t
                w[t] = float(ctx.i[nm]) if nm in ctx.i else (k + 1) / tot
    return w
def build(ctx):
    from scipy.sparse import dok_matrix
    from bidict import bidict
    N, A, es = edges(ctx)
    set_rand(ctx.i.get("job.rand", "mix"))
    w = weights(ctx, N, A, es)
    pairs = sorted({(s, a) for s, a, _ in es})
    order = ctx.i.get("job.order", "row")
    P = dok_matrix((len(pairs), N))
    ents = [((pairs.index((s, a)), d), w[s, a, d]) for s, a, d in es]
    if order == "col": ents.sort(key=lambda t: (t[0][1], t[0][0]))
    if order == "rev": ents.reverse()
    for k, p in ents: P[k] = p
    idx = bidict({sa: i for i, sa in enumerate(pairs)})
    if pairs:
        from switss.model import MDP
        m = MDP(P, idx, {}, {})
    else:
        from switss.utils.graph import Graph
        class Direct:
            def __init__(self): self.g = Graph(_P((0, N)), idx)
            def reachable_mask(self, *a): return self.g.reachable(*a)
            def __getattr__(self, n): return getattr(self.g, n)
        m = Direct()
    return m, N, A, es, w
class _P:
    def __init__(self, shape): self.shape = shape
    def items(self): return []
_keep = []
def set_rand(mode):
    try: f = ctypes.CDLL(None).gsx_rand
    except AttributeError: return
    vals = [rand_value(mode, k) for k in range(5000)] if isinstance(mode, str) else list(mode)
    arr = (ctypes.c_int * len(vals))(*vals)
    _keep[:] = [arr]
    f(arr, len(vals))

# ---- plain algorithms
def reach(N, es, F, Bl, direction):
    succ = {i: set() for i in range(N)}
    for s, a, d in es:
        if direction == "forward": succ[s].add(d)
        else: succ[d].add(s)
    seen, todo = set(F), list(F)
    while todo:
        s = todo.pop()
        if s in Bl: continue
        for d in succ[s]:
            if d not in seen: seen.add(d); todo.append(d)
    return [1 if i in seen else 0 for i in range(N)]
def sccs(N, es):
    R = [set(i for i, v in enumerate(reach(N, es, {s}, set(), "forward")) if v) for s in range(N)]
    return [[1 if (j in R[i] and i in R[j]) else 0 for j in range(N)] for i in range(N)]
def ecs(N, es):
    out = []
    for k in range(1, N + 1):
        for T in itertools.combinations(range(N), k):
            T = set(T)
            by = {}
            for s, a, d in es: by.setdefault((s, a), set()).add(d)
            ok = {sa: ds for sa, ds in by.items() if sa[0] in T and ds <= T}
            if k == 1:
                s = next(iter(T))
                if any(sa[0] == s for sa in ok) or not any(sa[0] == s for sa in by): out.append(T)
                continue
            es2 = [(s, a, d) for (s, a), ds in ok.items() for d in ds]
            if all(set(i for i, v in enumerate(reach(N, es2, {s}, set(), "forward")) if v) >= T for s in T): out.append(T)
    return out
def canon(vec):
    m = {}
    return [m.setdefault(int(v), len(m)) for v in vec]
