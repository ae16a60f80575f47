"""Label mappings and their inverses stay consistent."""
from symx.api import *
from symx.gen import *

def rel_of(hist, k, v):
    """does k map to v after the history?  hist: ('init', k, [values]) | ('add', k, v) | ('rem', k, v)"""
    r = False
    for op in hist:
        here = op[1] == k
        if op[0] == "init": r = Or([And(here, Or([w == v for w in op[2]])), And(Not(here), r)])
        elif op[0] == "add": r = Or([r, And(here, op[2] == v)])
        else: r = And(r, Not(And(here, op[2] == v)))
    return r
def holds(r): return bool(r)

def lookup(ctx, m, k, default, label):
    ok, s = ctx.call(lambda: m[k])
    if ok: return s
    ctx.check(isinstance(s, KeyError), "%s: lookup failed with %s" % (label, type(s).__name__))
    ctx.check(not default, "%s: a missing key of a default mapping must read as empty" % label)
    return set()

def consistent(ctx, m, hist, k, v, default, label):
    want = rel_of(hist, k.t if hasattr(k, "t") else k, v.t if hasattr(v, "t") else v)
    fw = v in lookup(ctx, m, k, default, label)
    bw = k in lookup(ctx, m.inv, v, default, label)
    ctx.check(Iff(want, fw), "%s: key maps to value exactly when the history says so" % label)
    ctx.check(Iff(want, bw), "%s: the inverse agrees with the history" % label)
    ctx.check((v in lookup(ctx, m.inv.inv, k, default, label)) == fw, "%s: inverse of the inverse" % label)

def history(ctx, nkeys, nvals, steps, ops, defaults=(True, False), shared=True, early=(False, True)):
    IV = ctx.load("switss.utils").InvertibleDict
    default = ctx.choice("default", defaults)
    K = [ctx.key("k%d" % i) for i in range(nkeys)]
    d, hA = {}, []
    for i, k in enumerate(K):
        vals = [ctx.key("v%d_%d" % (i, j)) for j in range(nvals)]
        d[k] = set(vals); hA.append(("init", T(k), [T(v) for v in vals]))
    hB, hD = list(hA), list(hA)
    A = IV(d, is_default=default)
    B = IV(d) if shared else None
    if ctx.choice("early", early): A.inv
    for n in range(steps):
        op = ctx.choice("op%d" % n, ops)
        k, v = ctx.key("ok%d" % n), ctx.key("ov%d" % n)
        if op == "add": A.add(k, v); hA.append(("add", T(k), T(v)))
        elif op == "iadd": A.inv.add(v, k); hA.append(("add", T(k), T(v)))
        elif op in ("rem", "irem"):
            there = holds(rel_of(hA, T(k), T(v)))
            ok, e = ctx.call(A.remove, k, v) if op == "rem" else ctx.call(A.inv.remove, v, k)
            ctx.check(ok == there, "removal succeeds exactly for existing pairs")
            if not ok: ctx.check(isassert(e), "removal of a missing pair failed with %s" % type(e).__name__)
            if there: hA.append(("rem", T(k), T(v)))
        elif op in ("read", "iread"):
            M, x = (A, k) if op == "read" else (A.inv, v)
            before, n0, has = [list(M.keys()), list(M.inv.keys())], len(list(M.items())), x in M
            lookup(ctx, M, x, default, "read")
            ctx.check([list(M.keys()), list(M.inv.keys())] == before and len(list(M.items())) == n0 and (x in M) == has, "reading does not change the mapping")
        elif op == "badd": B.add(k, v); hB.append(("add", T(k), T(v)))
        elif op == "dadd": d.setdefault(k, set()).add(v); hD.append(("add", T(k), T(v)))
    k, v = ctx.key("pk"), ctx.key("pv")
    consistent(ctx, A, hA, k, v, default, "mapping")
    if shared:
        consistent(ctx, B, hB, k, v, False, "second mapping")
        ctx.check(Iff(rel_of(hD, T(k), T(v)), v in d.get(k, ())), "the original dictionary is unchanged")
    # the views agree with the lookups
    got = False
    for kk, vv in A.items():
        for w in vv: got = Or([got, And(T(kk) == T(k), T(w) == T(v))])
    ctx.check(Iff(got, rel_of(hA, T(k), T(v))), "items() lists exactly the pairs")
def T(k): return k.t if hasattr(k, "t") else k

def model(ctx, kind, steps):
    """labels of models"""
    L = [ctx.key("l%d" % i) for i in range(2)]
    S = [ctx.choice("s%d" % i, [(), (0, 2)]) if steps < 2 else [(0, 2), ()][i] for i in range(2)]
    ctx.assume(Not(T(L[0]) == T(L[1])))
    lts = {l: set(s) for l, s in zip(L, S)}
    hist = [("init", T(l), list(s)) for l, s in zip(L, S)]
    mod = ctx.load("switss.model")
    P = [[0, 1, 0], [0, 0, 1], [0, 0, 1]]
    P = ctx.sparse.dok_matrix(ctx.np.array([[ctx.q(x) for x in r] for r in P]))
    mk = (lambda: mod.DTMC(P, label_to_states=lts)) if kind == "dtmc" else (lambda: mod.MDP(P, {(0, 0): 0, (1, 0): 1, (2, 0): 2}, {}, lts))
    A, B = mk(), mk()
    hB = list(hist)
    for n in range(steps):
        op = ctx.choice("op%d" % n, ["add", "read", "sread", "badd"])
        l, s = ctx.key("ol%d" % n), ctx.choice("os%d" % n, [0, 1, 2])
        if op == "add": A.add_label(s, l); hist.append(("add", T(l), s))
        elif op == "badd": B.add_label(s, l); hB.append(("add", T(l), s))
        else:
            before = [list(A.states_by_label.keys()), list(A.labels_by_state.keys())]
            if op == "read": lookup(ctx, A.states_by_label, l, True, "states_by_label")
            else: lookup(ctx, A.labels_by_state, s, True, "labels_by_state")
            ctx.check([list(A.states_by_label.keys()), list(A.labels_by_state.keys())] == before, "reading does not change the labels")
    l = ctx.key("pl")
    for s in range(3):
        for m, h, nm in ((A, hist, "model"), (B, hB, "second model")):
            want = rel_of(h, T(l), s)
            ctx.check(Iff(want, s in m.states_by_label[l]), nm + ": states_by_label")
            ctx.check(Iff(want, l in m.labels_by_state[s]), nm + ": labels_by_state")

H = []
def add(name, fn, bounds, **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    H.append(Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24))
ALL = ["add", "iadd", "rem", "irem", "read", "iread", "badd", "dadd"]
add("one-operation", history, "mapping with up to 2 keys of 1 value (arbitrary keys and values, also equal ones), one operation of every kind, arbitrary probe", nkeys=2, nvals=1, steps=1, ops=ALL)
add("two-operations", history, "mapping with one key and one value, two operations of every kind", nkeys=1, nvals=1, steps=2, ops=ALL, defaults=(True,), shared=True)
add("two-operations-plain", history, "mapping without default, two operations", nkeys=1, nvals=1, steps=2, ops=["add", "iadd", "rem", "irem"], defaults=(False,), shared=False)
add("model-dtmc", model, "labels of a DTMC: arbitrary label names, two operations", kind="dtmc", steps=2)
add("model-mdp", model, "labels of an MDP: arbitrary label names, one operation", kind="mdp", steps=1)
add("three-operations", history, "empty mapping, three operations through either direction", nkeys=0, nvals=1, steps=3, ops=["add", "iadd", "rem", "irem"], defaults=(True,), shared=False, early=(False,))
add("two-keys-two-operations", history, "two keys, two operations", nkeys=2, nvals=1, steps=2, ops=["add", "iadd", "rem", "irem"], defaults=(True,), shared=False, quick=False)
add("one-key-three-operations", history, "one key, three operations", nkeys=1, nvals=1, steps=3, ops=["add", "irem", "rem"], defaults=(True,), shared=False, early=(True,), quick=False)
HARNESSES = H
ASSUMPTIONS = ["keys and values are objects known only up to equality, with one common hash value; equality is decided by the solver on each path"]
