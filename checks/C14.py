"""Derived probability and visit vectors satisfy their definitions."""
from symx.api import *
from symx.gen import *
from symx import lpexact
from C13 import D

def body(ctx, n, saps, symbolic, supports=None, options=None, init=0, kind="mdp", maxk=None, decoy=None, large=False):
    if symbolic:
        rows = rf_structure(ctx, n, saps, init=init, supports=supports, maxk=maxk); ex = rows
    else: rows, ex = rf_concrete(ctx, n, saps, options, init)
    if large: symbolic = True       # the points are handed to the back end model
    if ctx.mode == "conc": ex = rows
    C = len(saps)
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind, decoy=decoy)
    vals = all_values(ctx, ex, saps, n)
    lo, hi = pmin(vals), pmax(vals)
    tol = Fraction(1, 10**6)
    # --- state-action vector of minimal reachability
    ctx.lp(lpexact.contract([lo]) if symbolic else None)
    ok, v = ctx.call(rf.max_z_state_action)
    if not ok: ctx.fail("max_z_state_action failed with %s" % type(v).__name__)
    else:
        ctx.check(len(v) == C, "one entry per state-action pair")
        for i in range(C):
            e = rows[i].get(n, 0)
            for d in range(n): e = e + rows[i].get(d, 0) * lo[d]
            ctx.eq(v[i], e, "state-action vector is the one-step probability")
    ok, zs = ctx.call(rf.max_z_state)
    if ok:
        for s in range(n): ctx.eq(zs[s], lo[s], "max_z_state is the minimal reachability")
    # --- flow
    def check_flow(y, what):
        out = [0] * n; inn = [1 if s == init else 0 for s in range(n)]; t = 0
        for i, (s, a) in enumerate(saps):
            ctx.check(y[i] >= -tol, what + " is nonnegative")
            out[s] = out[s] + y[i]
            for d in range(n): inn[d] = inn[d] + rows[i].get(d, 0) * y[i]
            t = t + rows[i].get(n, 0) * y[i]
        for s in range(n): ctx.le(out[s], inn[s], what + " satisfies the flow constraints")
        return out, t
    pts = []
    if symbolic:
        for k, sg in enumerate(schedulers(saps, n)):
            R = sorted(backward({**{s: set(rows[sg[s]]) for s in range(n)}, n: {n}}, {n}) - {n})
            if large:
                A = [[(1 if i == j else 0) - Fraction(ex[sg[t]].get(s, 0)) for j, t in enumerate(R)] for i, s in enumerate(R)]
                y = dict(zip(R, solve_exact(A, [1 if s == init else 0 for s in R])))
                pts.append([next((y[s] for s in R if sg[s] == i), Fraction(0)) for i in range(C)]); continue
            y = {s: SymReal(ctx.core.z3.Real("y!%d!%d" % (k, s))) for s in R} if ctx.mode == "sym" else {}
            if ctx.mode == "sym":
                for s in R:
                    e = Fraction(1 if s == init else 0)
                    for t in R: e = e + rows[sg[t]].get(s, Fraction(0)) * y[t]
                    ctx.E.add(And(y[s] == e, y[s] >= 0))
                pts.append([next((y[s] for s in R if sg[s] == i), Fraction(0)) for i in range(C)])
    ctx.lp(lpexact.contract(pts) if symbolic else None)
    ok, y = ctx.call(rf.max_y_state_action)
    if not ok: ctx.fail("max_y_state_action failed with %s" % type(y).__name__)
    else:
        ctx.check(len(y) == C, "one flow entry per state-action pair")
        out, t = check_flow(y, "the flow")
        ctx.eq(t, hi[init], "the flow attains the maximal reachability probability")
    rec = {}
    orig = rf.max_y_state_action
    def spy(*a, **k):
        rec["y"] = orig(*a, **k); return rec["y"]
    rf.max_y_state_action = spy
    ok, ys = ctx.call(rf.max_y_state)
    if not ok: ctx.fail("max_y_state failed with %s" % type(ys).__name__)
    elif "y" in rec:
        ctx.check(len(ys) == n, "one entry per state")
        out = [0] * n
        for i, (s, a) in enumerate(saps): out[s] = out[s] + rec["y"][i]
        for s in range(n): ctx.eq(ys[s], out[s], "the per-state flow is the sum over the state's actions")

H = []
def add(name, bounds, **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    H.append(Harness(name, body, bounds, params=k, quick=q, budget=b, samples=24))
add("sym-1x2", "one inner state with two actions, every support, symbolic probabilities", symbolic=True, n=1, saps=[(0, 0), (0, 1)])
add("sym-dtmc-2", "DTMC form with two inner states, every support, symbolic probabilities", symbolic=True, n=2, saps=[(0, 0), (1, 0)], kind="dtmc")
add("sym-2x3", "two inner states, three pairs, selected supports, symbolic probabilities", symbolic=True, n=2, saps=[(1, 0), (0, 0), (0, 1)],
    supports=[[(0,), (1, 3), (1, 2, 3)], [(1,), (0, 1, 2)], [(0,), (2, 3), (0, 1)]])
add("conc-2x4", "two inner states with two actions each, concrete dyadic probabilities, every optimal answer of the solver", symbolic=False, n=2, saps=[(1, 0), (0, 0), (0, 1), (1, 2)], init=1,
    options=D("0:1", "1:1", "2:1", "0:1/2 1:1/2", "0:1/4 2:3/4", "1:3/4 3:1/4"))
add("conc-3x5", "three inner states, five pairs, concrete dyadic probabilities", symbolic=False, n=3, saps=[(2, 0), (0, 0), (1, 0), (1, 1), (0, 4)], init=1,
    options={0: D("0:1", "1:1/2 3:1/2", "2:1/2 3:1/4 4:1/4"), 1: D("1:1", "2:1/2 0:1/2", "3:1"), 2: D("0:1", "1:1/2 2:1/2", "2:1"), 3: D("2:1/4 4:3/4", "0:1/2 3:1/2", "1:1"), 4: D("0:1", "2:1", "4:1/2 1:1/2")})
add("conc-3x6", "three inner states with two actions each", symbolic=False, n=3, saps=[(2, 0), (0, 0), (1, 0), (1, 1), (0, 4), (2, 1)], quick=False, budget=60,
    options=D("0:1", "1:1", "2:1", "4:1/4 0:3/4", "0:1/2 1:1/4 2:1/4", "2:1/2 3:1/2"))
add("other-form", "a form judged while another form of the same size is used", symbolic=False, options=TWO_OPTIONS, decoy=(OTHER, "systems values"), **TWO)
add("integers", "deterministic forms given by integer matrices, two inner states, four pairs", symbolic=False, options=INTS, **TWO)
for nm, f, k in (("mdp", LARGE, "mdp"), ("ec", LARGE_EC, "mdp"), ("dtmc", LARGE_DTMC, "dtmc")):
    add("large-" + nm, "one form with twelve inner states (%s), concrete probabilities" % nm, symbolic=False, kind=k, large=True, **f)
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals", "the LP back end returns some optimal solution of the problem it is given (any of them)"]
