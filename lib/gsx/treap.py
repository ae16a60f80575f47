"""The treap under every key sequence and every outcome of the priorities."""
from symx.core import z3
from .interp import Interp, MV, UNINIT, NULLP, Ptr, INT, Unsupported, TupV
from .run import Result
from . import real
from .model import Space

class TS(Space):
    def __init__(self, job, fixed):
        self.I = I = Interp(max_steps=20_000_000)
        I.load_modules(("treaps",))
        self.fixed, self.names, self.zv, self.guard, self.tokens = fixed, [], {}, {}, {}
        self.nrand, self.dom = 0, job["prios"]
        I.rand = self.rand
        self.extra = []
    def num(self, name, dom):
        """a number below dom, as bits"""
        bits = max(1, (dom - 1).bit_length())
        gs = [self.var("%s.%d" % (name, b)) for b in range(bits)]
        m, B = {}, self.I.B
        for v in range(1 << bits):
            g = 1
            for b in range(bits): g = B.and_(g, gs[b] if v >> b & 1 else B.not_(gs[b]))
            if not g: continue
            if v < dom: m[v] = g
            else: self.extra.append(z3.Not(self.guardz(g))); self.dead = B.or_(self.dead, g)
        return MV(m) if len(m) > 1 else next(iter(m))
    dead = 0
    def rand(self, g):
        k = self.nrand
        self.nrand += 1
        if k >= 12: raise Unsupported("more calls of rand() than expected")
        if self.dom == 0: return 0
        v = self.num("prio%d" % k, self.dom)
        return self.I.restrict(v, self.I.B.diff(1, self.dead)) if self.dead else v

def decode(asg, name, dom):
    bits = max(1, (dom - 1).bit_length())
    return sum((1 << b) for b in range(bits) if asg["%s.%d" % (name, b)])
def fn(S, name):
    f = S.I.modules["treaps"].names.get(name)
    if f is None: raise Unsupported("treaps.%s does not exist" % name)
    return f
def setup(job):
    S = TS(job, {k[4:]: v for k, v in job.items() if k.startswith("fix.")})
    R = Result(S); R.job = job
    I, n, K = S.I, job["n"], job["K"]
    # keys first, then the priorities: interleaved for a small diagram
    keys = []
    for i in range(n):
        keys.append(S.num("key%d" % i, K))
        if S.dom: S.num("prio%d" % i, S.dom)
    return S, R, keys
def sym_set(job):
    S, R, keys = setup(job)
    I, n, K = S.I, job["n"], job["K"]
    g = I.B.diff(1, S.dead)
    t = NULLP
    for i in range(n):
        t = I.call(fn(S, "add_to_treap"), [t, I.restrict(keys[i], g)], {}, g, None)
        size = I.load(I.field(t, "size", g, None), INT, g, None)
        present = lambda k, m: z3.Or([S.is_(keys[j], k) for j in range(m)])
        for c in range(1, i + 2): R.must("size after %d insertions" % (i + 1), S.is_(size, c) == z3.PbEq([(present(k, i + 1), 1) for k in range(K)], c))
    mem = []
    for k in range(-1, K + 1):
        r = I.call(fn(S, "in_treap"), [t, k], {}, g, None)
        mem.append(r)
        R.must("in_treap(%d)" % k, S.true(r) == present(k, n))
    R.must("nothing is in the empty treap", z3.Not(S.true(I.call(fn(S, "in_treap"), [NULLP, 0], {}, g, None))))
    cap = I.lift(lambda s: 4 * s, [size], g)
    arr = Ptr(I.malloc(cap, g, None).block, 0, INT)
    I.call(fn(S, "treap_to_arr"), [t, arr], {}, g, None)
    b = I.blocks[arr.block]
    cells = [b.cells.get(4 * i, UNINIT) for i in range(n)]
    szz = lambda c: S.is_(size, c)
    for k in range(K):
        occ = [(z3.And(S.is_(cells[i], k), z3.Or([szz(c) for c in range(i + 1, n + 1)])), 1) for i in range(n)]
        R.must("flattening lists key %d exactly once iff it was inserted" % k, z3.And(z3.PbLe(occ, 1), z3.Or([o for o, _ in occ]) == present(k, n)))
    if job.get("fromarr"):
        src = Ptr(I.malloc(4 * n, g, None).block, 0, INT)
        for i in range(n): I.store(Ptr(src.block, 4 * i, INT), INT, I.restrict(keys[i], g), g, None)
        S.nrand = 0
        u = I.call(fn(S, "treap_from_arr"), [src, n], {}, g, None)
        for k in range(K): R.must("treap_from_arr: in_treap(%d)" % k, S.true(I.call(fn(S, "in_treap"), [u, k], {}, g, None)) == present(k, n))
    R.must("the operations succeed", z3.Not(S.guardz(I.dead_exc)))
    R.must("the operations end and follow only valid pointers", z3.Not(S.guardz(I.dead_ub)))
    R.assume = list(S.extra)
    R.okay = lambda asg: not I.B.eval(S.dead, asg) and not I.B.eval(I.dead_ub, asg)
    R.outputs = lambda asg: [["size", S.concrete(size, asg)], ["members", [int(bool(S.concrete(m, asg))) for m in mem]],
                             ["flat", [S.concrete(c, asg) for c in cells[:S.concrete(size, asg)]]]]
    return R
def capi():
    import ctypes
    from switss.utils import treaps as T
    P = ctypes.pythonapi
    P.PyCapsule_GetName.restype = ctypes.c_char_p; P.PyCapsule_GetName.argtypes = [ctypes.py_object]
    P.PyCapsule_GetPointer.restype = ctypes.c_void_p; P.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    def get(name, res, *args):
        c = T.__pyx_capi__[name]
        return ctypes.PYFUNCTYPE(res, *args)(P.PyCapsule_GetPointer(c, P.PyCapsule_GetName(c)))
    v, i = ctypes.c_void_p, ctypes.c_int
    return {"add": get("add_to_treap", v, v, i), "mem": get("in_treap", i, v, i), "free": get("free_treap", None, v), "flat": get("treap_to_arr", None, v, v), "from": get("treap_from_arr", v, v, i)}
def conc_set(ctx):
    import ctypes
    c = capi()
    n, K, D = int(ctx.i["job.n"]), int(ctx.i["job.K"]), int(ctx.i["job.prios"])
    keys = [decode(ctx.i, "key%d" % i, K) for i in range(n)]
    prios = [decode(ctx.i, "prio%d" % i, D) if "prio%d.0" % i in ctx.i else 0 for i in range(12)]
    real.set_rand(prios)
    class Node(ctypes.Structure): pass
    Node._fields_ = [("tree_key", ctypes.c_int), ("heap_key", ctypes.c_long), ("size", ctypes.c_int), ("left", ctypes.c_void_p), ("right", ctypes.c_void_p)]
    t = None
    for i in range(n):
        t = c["add"](t, keys[i])
        size = ctypes.cast(t, ctypes.POINTER(Node)).contents.size
        ctx.check(size == len(set(keys[:i + 1])), "size after %d insertions" % (i + 1))
    mem = [int(bool(c["mem"](t, k))) for k in range(-1, K + 1)]
    for k in range(-1, K + 1): ctx.check(bool(mem[k + 1]) == (k in keys), "in_treap(%d)" % k)
    ctx.check(not c["mem"](None, 0), "nothing is in the empty treap")
    buf = (ctypes.c_int * (4 * n + 64))(*([-77] * (4 * n + 64)))
    c["flat"](t, ctypes.cast(buf, ctypes.c_void_p))
    flat = [x for x in buf if x != -77]
    for k in range(K): ctx.check(flat.count(k) == (1 if k in keys else 0), "flattening lists key %d exactly once iff it was inserted" % k)
    if ctx.i.get("job.fromarr"):
        real.set_rand(prios)
        src = (ctypes.c_int * n)(*keys)
        u = c["from"](ctypes.cast(src, ctypes.c_void_p), n)
        for k in range(K): ctx.check(bool(c["mem"](u, k)) == (k in keys), "treap_from_arr: in_treap(%d)" % k)
    ctx.observe("size", size); ctx.observe("members", mem); ctx.observe("flat", flat)
