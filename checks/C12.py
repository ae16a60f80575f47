"""Farkas constraint systems are exact for every threshold and call history."""
from symx.api import *
from symx.gen import *

def slack(rows): return Min([b - a for a, b in rows])
def rows_of(ctx, M, rhs, x):
    """[(lhs, rhs)] of the system M x <= rhs at x"""
    m = M.tocsr()
    R, K = m.shape
    if K != len(x) or len(rhs) != R: return None
    out = []
    for i in range(R):
        s = ctx.q(0)
        for j in range(K): s = s + m[i, j] * x[j]
        out.append((s, rhs[i]))
    return out

def body(ctx, n, saps, hist, supports=None, maxk=None, init=0, kind="mdp", perm=False, grid=None, decoy=None, options=None):
    rows = rf_concrete(ctx, n, saps, options, init)[0] if options else rf_structure(ctx, n, saps, init=init, supports=supports, maxk=maxk, grid=grid)
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind, decoy=decoy)
    C = len(saps)
    if ctx.mode == "sym": ctx.E.lp_handler = lambda p: ("optimal", ctx_free(p))
    h = ctx.choice("history", hist)
    z = [ctx.real("z%d" % i, -3, 3) for i in range(n)]
    y = [ctx.real("y%d" % i, -3, 3) for i in range(C)]
    got = []
    for k, op in enumerate(h):
        if op == "pmin": rf.pr_min(); continue
        if op == "pmax": rf.pr_max(); continue
        if op == "ymax": rf.max_y_state(); continue
        t = ctx.real("t%d" % k, -1, 2)
        if op == "z": ok, r = ctx.call(rf.fark_z_constraints, t)
        elif op == "y": ok, r = ctx.call(rf.fark_y_constraints, t)
        else: ok, r = ctx.call(rf.fark_constraints, t, op)
        if not ok: ctx.fail("constructing the system failed with %s" % type(r).__name__); return
        got.append((op, t, r))
    ok, e = ctx.call(rf.fark_constraints, 0.5, "avg")
    ctx.check(not ok and isassert(e), "an unknown mode must be rejected")
    eps = ctx.q(Fraction(1, 1000) if ctx.mode == "sym" else Fraction(1, 2000))
    for op, t, (M, rhs) in got:
        if op in ("z", "min"):
            want = []
            for i, (s, a) in enumerate(saps):
                e = rows[i].get(n, ctx.q(0))
                for d in range(n): e = e + rows[i].get(d, ctx.q(0)) * z[d]
                want.append((z[s], e))
            want.append((t, z[init]))
            have = rows_of(ctx, M, rhs, z)
        else:
            out = [ctx.q(0)] * n; inn = [ctx.q(1 if s == init else 0) for s in range(n)]; tgt = ctx.q(0)
            for i, (s, a) in enumerate(saps):
                out[s] = out[s] + y[i]
                for d in range(n): inn[d] = inn[d] + rows[i].get(d, ctx.q(0)) * y[i]
                tgt = tgt + rows[i].get(n, ctx.q(0)) * y[i]
            want = list(zip(out, inn)) + [(t, tgt)]
            have = rows_of(ctx, M, rhs, y)
        ctx.check(have is not None, "shape of the system (%s)" % op)
        if have is None: continue
        w, g = slack(want), slack(have)
        ctx.check(Not(And(w >= eps, g < -eps)), "the %s-system excludes a vector that satisfies the conditions" % op)
        ctx.check(Not(And(g >= eps, w < -eps)), "the %s-system admits a vector that violates the conditions" % op)
    # the exposed data of the form
    ctx.check(rf.initial == init and dict(rf.index_by_state_action) == {sa: i for i, sa in enumerate(saps)}, "initial state or state-action indexing of the form")
    A, P = rf.A.tocsr(), rf.P.tocsr()
    for i, (s, a) in enumerate(saps):
        ctx.eq(rf.to_target.A1[i], rows[i].get(n, 0), "to_target", tol=1e-12)
        for d in range(n):
            ctx.eq(P[i, d], rows[i].get(d, 0), "P", tol=1e-12)
            ctx.eq(A[i, d], (1 if s == d else 0) - rows[i].get(d, 0), "A", tol=1e-12)

def ctx_free(p):
    from symx.lpstub import freshvec
    return freshvec(p)
H1 = [("z",), ("y",), ("min",), ("max",)]
H2 = [("z", "y"), ("z", "z"), ("y", "y"), ("y", "z"), ("min", "max"), ("max", "min"), ("z", "pmin"), ("z", "pmax"), ("pmax", "z"), ("pmin", "y"), ("y", "ymax")]
H3 = [("z", "y", "z"), ("y", "z", "y"), ("z", "z", "z"), ("min", "max", "min"), ("max", "max", "max"), ("y", "pmax", "z"), ("z", "ymax", "y")]
H = []
def add(name, bounds, **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    h = Harness(name, body, bounds, params=k, quick=q, budget=b, samples=24); H.append(h)
add("history-2", "form with 2 inner states and 3 pairs, fixed graph, every listed call history of up to 3 calls with symbolic thresholds and vectors", n=2, saps=[(0, 0), (1, 0), (0, 1)],
    supports=[[(0, 1, 2, 3)], [(0, 2)], [(1, 3)]], hist=H1 + H2 + H3, grid=None)
add("dtmc-2", "DTMC form with 2 inner states, every support", n=2, saps=[(0, 0), (1, 0)], hist=[("z", "y")], kind="dtmc")
add("dtmc-2-init1", "DTMC form with 2 inner states, initial state 1, rows swapped", n=2, saps=[(1, 0), (0, 0)], hist=[("y", "z")], kind="dtmc", init=1)
add("mdp-2x3", "form with 2 inner states and 3 pairs (rows not in state order), every support", n=2, saps=[(1, 0), (0, 2), (1, 3)], hist=[("min", "max")], supports=[[(2,), (0, 1), (0, 1, 2, 3), (0, 3)], [c for c in subsets(range(4))], [(1,), (0, 2), (1, 2, 3)]])
add("mdp-3x4", "form with 3 inner states and 4 pairs, selected supports", n=3, saps=[(2, 0), (0, 0), (1, 1), (1, 0)], hist=[("z", "y")], init=1,
    supports=[[(3,), (0, 3, 4)], [(0, 2), (1, 3)], [(0,), (0, 1, 2)], [(2, 4), (0, 1, 2, 3)]])
add("mdp-3x5", "form with 3 inner states and 5 pairs, at most three successors", n=3, saps=[(2, 0), (0, 0), (1, 1), (1, 0), (0, 7)], hist=[("z", "y", "min", "max")], init=1, quick=False, budget=80,
    supports=[[c for c in subsets(range(5)) if len(c) in (2, 3)]] * 2 + [[(0,), (0, 1, 2)], [(2, 4), (0, 1, 2, 3)], [(0, 1, 3), (2,)]])
add("other-form", "a form with the same transitions as another one that is used first or in between", hist=[("z", "y"), ("min",), ("max",)], supports=[[(1, 2)], [(2, 3)], [(0,), (1, 3)], [(0, 2), (1,)]], decoy=(OTHER, "systems values"), **TWO)
add("integers", "deterministic forms given by integer matrices, two inner states, four pairs", hist=[("z", "y"), ("min",), ("max",), ("z", "pmin", "z")], supports=[[(1,), (2,)], [(2,), (3,)], [(0,), (3,)], [(0,), (2,)]], ints=True, **TWO)
add("integers-dtmc", "deterministic DTMC form given by an integer matrix", n=2, saps=[(1, 0), (0, 0)], hist=[("z", "y", "z"), ("max", "min")], supports=[[(2,), (0,)], [(1,), (2,)]], ints=True, kind="dtmc")
for nm, f, k in (("mdp", LARGE, "mdp"), ("ec", LARGE_EC, "mdp"), ("dtmc", LARGE_DTMC, "dtmc")):
    add("large-" + nm, "one form with twelve inner states (%s), concrete probabilities" % nm, hist=[("z", "y"), ("max", "min", "max")], kind=k, **f)
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals; vectors range over [-3,3], thresholds over [-1,2]; disagreement of a system with its definition by a margin of 1e-3 is detected"]
