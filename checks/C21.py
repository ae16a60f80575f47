"""The Gurobi back end builds the same problems as the PuLP back end."""
from symx.api import *
from symx.gen import *
from symx import lpexact, grbstub
import C20
from C20 import history, coefficients, OPS, VARS, compare, rowval, cslack, SENSE
from C13 import D

def islack(ctx, p, x):
    """margins of the indicator constraints of the problem at x"""
    big = ctx.q(10**6)
    out = []
    for i, val, r, s, c in p.ind:
        out.append(Ite(Not(x[i] == val), big, cslack(rowval(ctx, r, x), SENSE[s], c)))
    return out
def pslack(ctx, p, x):
    out = [ctx.q(10**6)]
    for r, s, c in p.cons: out.append(cslack(rowval(ctx, r, x), SENSE[s], c))
    for i in range(len(p.vars)):
        if p.lb[i] is not None: out.append(x[i] - p.lb[i])
        if p.ub[i] is not None: out.append(p.ub[i] - x[i])
    return out

def problems(ctx, n, saps, options, modes, init=0, kind="mdp", labelings=(None,), relaxed=(True, False), heur=False):
    """the problems that the minimization methods hand to both back ends, at an arbitrary point"""
    C20.setup(ctx, True)
    rows, exact = rf_concrete(ctx, n, saps, options, init)
    ex = rows if ctx.mode == "conc" else exact
    mode = ctx.choice("mode", modes)
    lab = ctx.choice("labels", labelings)
    lts = {l: set(ss) for l, ss in (lab or {}).items() if ss}
    names = sorted(lab) if lab is not None else None
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind, lts=lts)
    rel = ctx.choice("relaxed", relaxed)
    ecs = end_components(ex, saps, range(n))
    t = ctx.real("t", 0, 1)
    prob = ctx.load("switss.problem")
    got = {}
    ctx.lp(lpexact.exact)
    if ctx.mode == "conc": pass
    f = prob.construct_MILP
    ok, g = ctx.call(f, rf, t, mode, labels=names, relaxed=rel, modeltype_str="gurobi")
    if not ok: ctx.fail("constructing the problem failed with %s" % type(g).__name__); return
    both = not (mode == "max" and not rel and ecs)
    if both:
        ok, p = ctx.call(f, rf, t, mode, labels=names, relaxed=rel, modeltype_str="pulp")
        if not ok: ctx.fail("constructing the problem failed with %s" % type(p).__name__); return
        ctx.check((p[0] is None) == (g[0] is None), "infeasibility is recognised by both")
    if g[0] is None: return
    def capture(mm, key):
        def h(q): got[key] = q; return (grbstub.GRB.INFEASIBLE if key == "g" else "infeasible"), None
        if key == "g": grbstub.HANDLER[0] = h
        else: ctx.backend(h)
        mm.solve("gurobi" if key == "g" else "cbc")
    capture(g[0], "g")
    G = got["g"]
    N = len(G.vars)
    size = n if mode == "min" else len(saps)
    ind = {i: set(vs) for i, vs in g[1].items()}
    x = [ctx.real("x%d" % i, 0, 2) for i in range(size)]
    for i in range(size, N): x.append(ctx.q(ctx.choice("s%d" % i, [0, 1])))
    eps, z = ctx.q(Fraction(1, 1000) if ctx.mode == "sym" else Fraction(1, 2000)), ctx.q(0 if ctx.mode == "sym" else Fraction(-1, 10**9))
    a = Min(pslack(ctx, G, x) + islack(ctx, G, x))
    if both:
        capture(p[0], "p")
        P = got["p"]
        if not ctx.check(len(P.vars) == N and not G.ind, "both back ends receive the same variables"): return
        ctx.check({i: set(vs) for i, vs in p[1].items()} == ind, "both report the same indicator variables")
        for i in range(N): ctx.check(P.cat[i] == G.cat[i], "domains")
        ctx.check(P.sense == G.sense, "direction of the objective")
        ctx.eq(rowval(ctx, P.obj, x), rowval(ctx, G.obj, x), "objective")
        b = Min(pslack(ctx, P, x))
    else:
        # exact minimization with end components: indicators instead of upper bounds
        ctx.cover("indicator constraints")
        for i in range(N): ctx.check((G.cat[i] == "Integer") == (i >= size), "domains")
        ctx.check(G.sense == 1, "direction of the objective")
        ctx.eq(rowval(ctx, G.obj, x), sum(x[size:], ctx.q(0)), "objective counts the indicators")
        want = {l: [i for i, (s, _) in enumerate(saps) if s in ss] for l, ss in (lts if names is not None else {s: {s} for s in range(n)}).items()}
        ctx.check(sorted(map(sorted, ind.values())) == sorted(v for v in want.values() if v), "one indicator per group")
        out = [ctx.q(0)] * n; inn = [ctx.q(1 if s == init else 0) for s in range(n)]; tgt = ctx.q(0)
        for i, (s, _) in enumerate(saps):
            out[s] = out[s] + x[i]
            for d in range(n): inn[d] = inn[d] + ex[i].get(d, 0) * x[i]
            tgt = tgt + ex[i].get(n, 0) * x[i]
        b = [x[i] for i in range(size)] + [inn[s] - out[s] for s in range(n)] + [tgt - t]
        for i, vs in ind.items():
            if int(x[i]) == 0: b += [0 - x[v] for v in vs] + [x[v] for v in vs]
        b = Min(b)
    ctx.check(Not(And(b >= z, a < -eps)), "the problem for gurobi excludes a solution")
    ctx.check(Not(And(a >= z, b < -eps)), "the problem for gurobi admits a point that is no solution")

def indicator(ctx):
    """sigma = 0 forces x = 0, and nothing else does"""
    C20.setup(ctx, True)
    mod = ctx.load("switss.solver.milp")
    m = mod.GurobiMILP()
    k = ctx.choice("count", [1, 2])
    v = m.add_variables_w_bounds([("real", -5, 5)] * 2 + [("binary", 0, 1)] * 2)
    pairs = [(v[2 + i], v[ctx.choice("v%d" % i, [0, 1])]) for i in range(k)]
    ids = []
    for s, y in pairs:
        ok, c = ctx.call(m.add_indicator_constraint, s, y)
        if not ok: ctx.fail("add_indicator_constraint failed with %s" % type(c).__name__); return
        ids.append(c)
    c = m.add_constraint([(v[0], 1)], "<=", 4); ids.append(c)
    ctx.check(len(set(ids)) == len(ids), "constraint indices are distinct")
    gone = ctx.choice("remove", [None] + ids)
    if gone is not None: m.remove_constraint(gone)
    x = [ctx.real("x%d" % i, -5, 5) for i in range(2)] + [ctx.q(ctx.choice("s%d" % i, [0, 1])) for i in range(2)]
    def h(p):
        eps, z = ctx.q(Fraction(1, 1000) if ctx.mode == "sym" else Fraction(1, 2000)), ctx.q(0 if ctx.mode == "sym" else Fraction(-1, 10**9))
        a = Min(pslack(ctx, p, x) + islack(ctx, p, x))
        b = [x[0] + 5, x[1] + 5, 5 - x[0], 5 - x[1]]
        if gone != c: b.append(4 - x[0])
        for n, (s, y) in enumerate(pairs):
            if gone != ids[n] and int(x[s]) == 0: b.append(-abs(x[y]))
        b = Min(b)
        ctx.check(Not(And(b >= z, a < -eps)), "a solution is excluded")
        ctx.check(Not(And(a >= z, b < -eps)), "an indicator that is zero does not force its variable to zero")
        return 3, None
    grbstub.HANDLER[0] = h
    ok, r = ctx.call(m.solve, "gurobi")
    if not ok: ctx.fail("solve failed with %s" % type(r).__name__)

H = []
def add(name, fn, bounds, must=(), **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
add("outcomes", history, "two variables of every domain with symbolic bounds, one constraint and one objective, every solver outcome, with and without time limit", direction=["min", "max"], start=VARS,
    steps=[["<=", "=", ">="], ["obj"]], exprs=[(0, 1)], objs=[(0, 1)], timeouts=(None, 3), gurobi=True)
add("history-4", history, "every sequence of 4 operations (constraints of each sense, removal, new variables, new objective, intermediate solves) with symbolic coefficients", direction=["max"], start=VARS[1:2],
    steps=[["<=", "obj"]] + [OPS] * 3, exprs=[(0, 1)], objs=[(0, 1), (1,)], outs=["optimal"], gurobi=True)
add("objectives", history, "two to four objectives in a row over different variables (repeated variables and the empty sum included), intermediate solves", direction=["min"], start=VARS[2:3],
    steps=[["obj"], ["solve", "<="], ["obj"], ["obj", "var"]], exprs=[(0, 1)], objs=[(), (0,), (1, 1), (1, 0)], outs=["optimal"], gurobi=True)
add("removals", history, "up to three constraints (the empty one included), up to two removals, then new constraints", direction=["min"], start=VARS[:1], steps=[["<="], ["="], [">=", "remove"], ["remove"], ["remove", ">=", "solve"]],
    exprs=[(0, 1), ()], objs=[(0,)], outs=["optimal"], gurobi=True)
add("coefficients", coefficients, "2x2 systems, every support, symbolic coefficients", R=2, K=2, supports=[(), (0,), (1,), (0, 1)], senses=["<=", ">=", "="], doms=[["real", "real"], ["integer", "binary"]],
    direction=("max",), bnds=(None, [(0, 1), (None, 2)],), gurobi=True)
add("coefficients-noobj", coefficients, "systems without objective", R=1, K=2, supports=[(0,), (0, 1)], senses=["<="], doms=[["real", "real"]], noobj=True, gurobi=True)
add("indicator", indicator, "up to two indicator constraints, any point")
OPT = D("0:1", "2:1", "0:1/2 1:1/2", "1:3/4 3:1/4", "0:1/2 1:1/4 2:1/4")
LAB = [None, {"a": (0, 1)}, {"a": (0,), "b": (0, 1)}, {"b": (1, 2)}]
add("problems-2x3", problems, "minimization problems of forms with two inner states and three pairs (end components included), both modes, exact and relaxed, labelled or not, symbolic threshold and point", must=("indicator constraints",), n=2,
    saps=[(1, 0), (0, 0), (0, 1)], options=OPT, modes=["min", "max"], labelings=LAB)
add("problems-dtmc", problems, "the same for DTMC forms", n=2, saps=[(1, 0), (0, 0)], options=OPT, modes=["min", "max"], kind="dtmc", labelings=LAB)
add("problems-3x4", problems, "the same with three inner states and four pairs", must=("indicator constraints",), n=3, saps=[(2, 0), (0, 0), (1, 0), (1, 1)], init=1, quick=False,
    options={0: D("0:1", "1:1/2 3:1/2", "2:1/2 3:1/4 4:1/4"), 1: D("1:1", "2:1/2 0:1/2", "3:1"), 2: D("0:1", "1:1/2 2:1/2"), 3: D("2:1/4 4:3/4", "0:1/2 3:1/2", "1:1")}, modes=["min", "max"], labelings=LAB)
add("history-5", history, "every sequence of 5 operations", direction=["min"], start=VARS[1:2], steps=[["<=", "=", "obj"]] + [OPS] * 4, exprs=[(0, 1), (1, 1)], objs=[(0, 1), (1,)], outs=["optimal"], budget=60, quick=False, gurobi=True)
HARNESSES = H
ASSUMPTIONS = ["gurobipy is not installed: a stand-in with its documented interface (default bounds, operators, indicator constraints, attributes) holds the problem as built and answers any status and values",
    "floating point numbers are treated as reals"]
