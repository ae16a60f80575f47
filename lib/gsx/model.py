"""Symbolic transition structures handed to the Cython kernel, and independent specifications
of the graph queries as formulas over the same variables."""
import random
from symx.core import z3
from .interp import Interp, TupV, Tok, GList, PySet, PyDict, Host, HostFn, Bound, MV, UNINIT, NpArr, Ptr, NULLP, Unsupported

class Space:
    """N states, A possible actions each; transition (s,a,d) exists iff e_s_a_d.  A pair (s,a)
    without transitions is an action that s does not have."""
    def __init__(self, N, A, fixed=None, order="row", rand="zero", **kw):
        self.N, self.A = N, A
        self.I = I = Interp(**kw)
        I.load_modules()
        self.fixed = dict(fixed or {})
        self.names, self.zv, self.guard = [], {}, {}
        self.rand_mode, self.nrand = rand, 0
        I.rand = self.rand
        self.order = order
        self.tokens = {}
    def var(self, name):
        if name in self.guard: return self.guard[name]
        self.names.append(name)
        self.zv[name] = z3.Bool(name)
        if name in self.fixed:
            g = 1 if self.fixed[name] else 0
        else: g = self.I.B.new(name, self.zv[name])
        self.guard[name] = g
        return g
    def z(self, name): return z3.BoolVal(bool(self.fixed[name])) if name in self.fixed else self.zv[name]
    def rand(self, g):
        k = self.nrand
        self.nrand += 1
        return rand_value(self.rand_mode, k)
    def edges(self):
        """declares the edge variables, grouped by (state, successor) so that the actions of a pair lie together"""
        for s in range(self.N):
            for d in range(self.N):
                for a in range(self.A): self.var(ename(s, a, d))
    def e(self, s, a, d): return self.z(ename(s, a, d))
    def edge(self, s, d): return z3.Or([self.e(s, a, d) for a in range(self.A)])
    def build(self):
        I, N, A = self.I, self.N, self.A
        pairs = [(s, a) for s in range(N) for a in range(A)]
        ents = []
        for r, (s, a) in enumerate(pairs):
            for d in range(N):
                g = self.guard[ename(s, a, d)]
                self.tokens["p_%d_%d_%d" % (s, a, d)] = (s, a, d)
                if g: ents.append((g, TupV([TupV([r, d]), Tok("p_%d_%d_%d" % (s, a, d), "d")])))
        if self.order == "col": ents.sort(key=lambda t: (t[1].v[0].v[1], t[1].v[0].v[0]))
        if self.order == "rev": ents.reverse()
        def items(I, a, k, g): return GList(ents)
        def keys(I, a, k, g): return GList([(ge, t.v[0]) for ge, t in ents])
        def values(I, a, k, g): return GList([(ge, t.v[1]) for ge, t in ents])
        def getitem(I, idx, g):
            if not isinstance(idx, TupV) or any(isinstance(x, MV) for x in idx.v): raise Unsupported("P[...]")
            return I.join([(t.v[1], ge) for ge, t in ents if t.v[0].v == idx.v] or [(0.0, 1)])
        self.P = Host(shape=TupV([len(pairs), N]), items=HostFn(items), keys=HostFn(keys), values=HostFn(values), __getitem__=getitem, nnz=I.length(GList(ents), 1, None))
        inv, fwd = PyDict(), PyDict()
        for r, sa in enumerate(pairs):
            inv.d[r] = [1, TupV(list(sa))]; fwd.d[sa] = [1, r]
        # row numbers are positions among the existing pairs in reality; the kernel only maps them back
        self.ib = Host(inv=inv)
        self.G = I.call(I.modules["graph"].names["Graph"], [self.P, self.ib], {}, 1, None)
        return self.G
    def call(self, name, args=(), g=1):
        I = self.I
        m = self.G.cls.methods.get(name)
        if m is None: raise Unsupported("Graph.%s does not exist" % name)
        return I.call(Bound(self.G, m), list(args), {}, g, None)
    glue = True
    def model_call(self, name, args=(), g=1):
        """the query as AbstractMDP offers it (its method is executed too)"""
        from .interp import Cls, PyObj, Func, Module
        from . import parse
        I = self.I
        if self.glue:
            try:
                if getattr(self, "mobj", None) is not None:
                    o = self.mobj; C = o.cls
                    f = C.methods[name]; I.sig(f)
                    return I.call(Bound(o, f), list(args), {}, g, None)
                tree, _ = parse.parse("switss/model/amdp.py", "switss.model.amdp")
                cls = None
                for s in tree.body.stats:
                    if type(s).__name__ == "PyClassDefNode" and s.name == "AbstractMDP": cls = s
                ms = {d.name: d for d in cls.body.stats if type(d).__name__ == "DefNode"}
                mod = Module("amdp"); mod.path = "switss/model/amdp.py"
                C = Cls(mod, "AbstractMDP")
                for n, d in ms.items(): C.methods[n] = Func(mod, d, C)
                o = PyObj(C)
                o.attrs["__graph"] = o.attrs["_AbstractMDP__graph"] = self.G
                o.attrs["P"] = self.P; o.attrs["N"] = self.N; o.attrs["index_by_state_action"] = self.ib
                f = C.methods[name]
                I.sig(f)
                self.mobj = o
            except (Unsupported, KeyError, AttributeError, OSError) as e:
                self.glue = False
            else: return I.call(Bound(o, f), list(args), {}, g, None)
        return self.call(name, args, g)
    def has(self, name): return name in self.G.cls.methods
    def setof(self, prefix, idxs):
        s = PySet()
        for i in idxs:
            g = self.var("%s%d" % (prefix, i))
            if g: s.d[i] = g
        return s
    # ---- solver side
    def real_axioms(self):
        """what is known about the probabilities, when the code compares them with constants"""
        I = self.I
        if not I.atoms: return []
        from fractions import Fraction
        out = []
        def p(s, a, d): return z3.Real("p_%d_%d_%d" % (s, a, d))
        for s in range(self.N):
            for a in range(self.A):
                for d in range(self.N):
                    out.append(self.e(s, a, d) == (p(s, a, d) > 0)); out.append(p(s, a, d) >= 0)
                t = z3.Sum([p(s, a, d) for d in range(self.N)])
                out.append(z3.Or(t == 1, t == 0))
        for (name, op, c), g in I.atoms.items():
            x, q = z3.Real(name), z3.Q(c.numerator, c.denominator)
            out.append(I.B.to_z3(g) == (x < q if op == "<" else x <= q))
        return out
    def guardz(self, g): return self.I.B.to_z3(g)
    def is_(self, v, x):
        """formula: value v equals the constant x"""
        I = self.I
        if type(v) is MV:
            g = 0
            for w, gw in v.m.items():
                if w is not UNINIT and w == x: g = I.B.or_(g, gw)
            return self.guardz(g)
        return z3.BoolVal(v is not UNINIT and not isinstance(v, TupV) and v == x)
    def true(self, v):
        return self.guardz(self.I.truth(v, 1, None))
    def concrete(self, v, asg):
        """value under an assignment {name: bool}"""
        if type(v) is MV:
            for w, gw in v.m.items():
                if self.I.B.eval(gw, asg): return w
            return None
        return v

def ename(s, a, d): return "e_%d_%d_%d" % (s, a, d)
def rand_value(mode, k):
    if mode == "zero": return 0
    if mode == "inc": return k
    if mode == "dec": return 100000 - k
    if mode == "mix": return (k * 7919 + 13) % 101
    if mode == "pairs": return (k // 2) % 3
    raise ValueError(mode)

# ------------------------------------------------------------------ specifications
def closure(rel, N):
    """reflexive-transitive closure of a matrix of formulas"""
    r = [[z3.BoolVal(True) if i == j else rel[i][j] for j in range(N)] for i in range(N)]
    for k in range(N):
        r = [[z3.simplify(z3.Or(r[i][j], z3.And(r[i][k], r[k][j]))) if i != j else r[i][j] for j in range(N)] for i in range(N)]
    return r
def spec_reach(S, F, Bl, direction):
    N = S.N
    R = [F[i] for i in range(N)]
    for _ in range(N - 1):
        R = [z3.Or([R[t]] + [z3.And(R[s], z3.Not(Bl[s]), S.edge(s, t) if direction == "forward" else S.edge(t, s)) for s in range(N) if s != t]) for t in range(N)]
    return R
def spec_scc(S):
    N = S.N
    r = closure([[S.edge(i, j) for j in range(N)] for i in range(N)], N)
    return [[z3.And(r[i][j], r[j][i]) for j in range(N)] for i in range(N)]
def spec_ec(S):
    """{frozenset: formula} end components, allowing the singleton of a state without any action"""
    import itertools
    N, A = S.N, S.A
    out = {}
    for k in range(1, N + 1):
        for T in itertools.combinations(range(N), k):
            ok = {}
            for s in T:
                for a in range(A):
                    ok[s, a] = z3.And(z3.Or([S.e(s, a, d) for d in range(N)]), z3.And([z3.Not(S.e(s, a, d)) for d in range(N) if d not in T]))
            if k == 1:
                s = T[0]
                out[frozenset(T)] = z3.Or([ok[s, a] for a in range(A)] + [z3.And([z3.Not(S.e(s, a, d)) for a in range(A) for d in range(N)])])
                continue
            idx = list(T)
            rel = [[z3.Or([z3.And(ok[s, a], S.e(s, a, t)) for a in range(A)]) for t in idx] for s in idx]
            c = closure(rel, k)
            out[frozenset(T)] = z3.And([c[i][j] for i in range(k) for j in range(k)])
    return out
