"""The LP/MILP wrapper solves exactly the problem that was built."""
from symx.api import *

class Shadow:
    """meaning of the operations, written from the documentation"""
    def __init__(self, objective): self.max, self.vars, self.cons, self.obj = objective == "max", [], {}, []
    def add(self, dom, lb, ub):
        if dom == "binary": lb, ub = (0 if lb is None else Max([lb, 0])), (1 if ub is None else Min([ub, 1]))
        self.vars.append((dom != "real", lb, ub))
def rowval(ctx, r, x):
    s = ctx.q(0)
    for i, a in r: s = s + a * x[i]
    return s
def cslack(lhs, sense, rhs): return rhs - lhs if sense == "<=" else lhs - rhs if sense == ">=" else -abs(lhs - rhs)
SENSE = {-1: "<=", 0: "=", 1: ">="}
def compare(ctx, p, sh, x, what):
    """the problem p (as the back end holds it) against the shadow, at the point x"""
    if not ctx.check(len(p.vars) == len(sh.vars), "%s: every variable is handed to the back end" % what): return
    if sh.obj: ctx.check((p.sense == -1) == sh.max, "%s: direction of the objective" % what)
    for i, (isint, lb, ub) in enumerate(sh.vars):
        ctx.check((p.cat[i] != "Continuous") == isint, "%s: domain of a variable" % what)
    big = ctx.q(10**6)
    def slacks(cons, bounds):
        out = [big]
        for r, sense, b in cons: out.append(cslack(rowval(ctx, r, x), sense, b))
        for i, (lb, ub) in enumerate(bounds):
            if lb is not None: out.append(x[i] - lb)
            if ub is not None: out.append(ub - x[i])
        return Min(out)
    a = slacks(list(sh.cons.values()), [(lb, ub) for _, lb, ub in sh.vars])
    b = slacks([(r, SENSE[s], c) for r, s, c in p.cons], list(zip(p.lb, p.ub)))
    sym = ctx.mode == "sym"
    eps, z = ctx.q(Fraction(1, 1000) if sym else Fraction(1, 2000)), ctx.q(0 if sym else Fraction(-1, 10**9))
    ctx.check(Not(And(a >= z, b < -eps)), "%s: a solution of the problem that was built is excluded" % what)
    ctx.check(Not(And(b >= z, a < -eps)), "%s: a point outside the problem that was built is admitted" % what)
    ctx.eq(p.objconst + rowval(ctx, p.obj, x), rowval(ctx, sh.obj, x), "%s: objective" % what)

OUT = ["optimal", "infeasible", "unbounded", "undefined", "notsolved", "feasible"]
SOLVERS = ["cbc", "gurobi", "glpk", "cplex"]
GOUT = {"optimal": 2, "infeasible": 3, "unbounded": 5, "notsolved": 1, "inf_or_unbd": 4, "cutoff": 6, "time_limit": 9, "time_limit_incumbent": 9, "suboptimal": 13}
def gsolve(ctx, m, sh, k, outs, timeout=None):
    from symx import grbstub
    n = len(sh.vars)
    x = [ctx.real("x%d_%d" % (k, i), -4, 4) for i in range(n)]
    out = ctx.choice("out%d" % k, sorted(GOUT) if outs is OUT else outs)
    seen = []
    def h(p):
        seen.append(p)
        compare(ctx, p, sh, x, "solve %d" % k)
        if timeout is not None: ctx.check(p.params.get("TimeLimit") == timeout, "the time limit is passed on")
        return GOUT[out], (x if out in ("optimal", "suboptimal", "time_limit_incumbent") else None)
    grbstub.HANDLER[0] = h
    ok, r = ctx.call(m.solve, "gurobi", timeout)
    if not ok: ctx.fail("solve failed with %s" % type(r).__name__); return
    ctx.check(len(seen) == 1, "exactly one problem is handed to the back end")
    if out in ("optimal", "infeasible", "unbounded", "notsolved"): ctx.check(r.status == out, "reported status")
    else: ctx.check(r.status != "optimal", "an unproven solution is reported as optimal")
    if out == "optimal": reported(ctx, r, sh, x)
def reported(ctx, r, sh, x):
    n = len(x)
    ctx.check(len(r.result_vector) == n, "one value per variable")
    for i in range(min(n, len(r.result_vector))): ctx.eq(r.result_vector[i], x[i], "reported value of a variable", tol=1e-9)
    ctx.eq(r.value, rowval(ctx, sh.obj, x), "reported objective value")
def setup(ctx, gurobi):
    if not gurobi: return
    from symx import grbstub
    g = grbstub.module()
    if ctx.mode == "sym": ctx.over["gurobipy"] = g
    else:
        import sys
        sys.modules["gurobipy"] = g
        for k in [k for k in sys.modules if k.startswith("switss")]: del sys.modules[k]
def solve(ctx, m, sh, k, outs=OUT, solver="cbc", timeout=None):
    """one solve; the back end receives the problem and answers anything"""
    n = len(sh.vars)
    x = [ctx.real("x%d_%d" % (k, i), -4, 4) for i in range(n)]
    out = ctx.choice("out%d" % k, outs)
    seen = []
    def h(p):
        seen.append(p)
        compare(ctx, p, sh, x, "solve %d" % k)
        return out, (x if len(p.vars) == n else None)
    ctx.backend(h)
    ok, r = ctx.call(m.solve, solver, timeout)
    if not ok: ctx.fail("solve failed with %s" % type(r).__name__); return
    ctx.check(len(seen) == 1, "exactly one problem is handed to the back end")
    if out == "feasible": ctx.check(r.status != "optimal", "an unproven solution is reported as optimal")
    else: ctx.check(r.status == out, "reported status")
    if out == "optimal": reported(ctx, r, sh, x)

VARS = [[("real", None, None), ("real", None, None)], [("real", 0, None), ("integer", None, "u")], [("binary", None, None), ("real", "l", "u")], [("binary", 1, 1), ("integer", -1, 3)], [("real", None, "u"), ("binary", 0, None)]]
def newvars(ctx, m, sh, descr, k, bounds=True):
    d = [(dom, ctx.real("lb%d_%d" % (k, i), -3, 0) if lb == "l" else lb, ctx.real("ub%d_%d" % (k, i), 1, 3) if ub == "u" else ub) for i, (dom, lb, ub) in enumerate(descr)]
    r = m.add_variables_w_bounds(d) if bounds else m.add_variables([dom for dom, _, _ in d])
    first = len(sh.vars)
    for dom, lb, ub in d: sh.add(dom, lb if bounds else None, ub if bounds else None)
    idx = [r] if len(d) == 1 else list(r)
    ctx.check(idx == list(range(first, first + len(d))), "returned variable indices")
def expr(ctx, name, vs): return [(v, ctx.real("%s_%d" % (name, i), -2, 2)) for i, v in enumerate(vs)]

def history(ctx, direction, start, steps, exprs, objs, outs=OUT, solver="cbc", timeouts=(None,), gurobi=False):
    """operations in any order out of `steps` choices each, with a solve at the end of each round"""
    setup(ctx, gurobi)
    mod = ctx.load("switss.solver.milp")
    d = ctx.choice("direction", direction)
    m, sh = (mod.GurobiMILP if gurobi else mod.MILP)(d), Shadow(d)
    st = ctx.choice("start", start)
    newvars(ctx, m, sh, st, 100)
    idx = []
    solver = ctx.choice("solver", solver) if isinstance(solver, (list, tuple)) else solver
    for k, ops in enumerate(steps):
        op = ctx.choice("op%d" % k, ops)
        if op == "obj":
            e = expr(ctx, "o%d" % k, ctx.choice("ov%d" % k, objs)); m.set_objective_function(e); sh.obj = e
        elif op in ("<=", "=", ">="):
            e = expr(ctx, "c%d" % k, ctx.choice("cv%d" % k, exprs)); b = ctx.real("b%d" % k, -3, 3)
            ok, c = ctx.call(m.add_constraint, e, op, b)
            if not ok: ctx.fail("add_constraint failed with %s" % type(c).__name__); return
            ctx.check(c not in idx, "constraint indices are distinct")
            idx.append(c); sh.cons[c] = (e, op, b)
        elif op == "remove":
            live = [c for c in idx if c in sh.cons]
            if not live: ctx.skip()
            c = ctx.choice("rm%d" % k, live)
            ok, r = ctx.call(m.remove_constraint, c)
            if not ok: ctx.fail("remove_constraint failed with %s" % type(r).__name__); return
            del sh.cons[c]
        elif op == "var": newvars(ctx, m, sh, [("real", None, "u")], k)
        elif op == "vars": newvars(ctx, m, sh, [("integer", None, None), ("binary", None, None)], k, bounds=False)
        elif op == "solve": (gsolve if gurobi else solve)(ctx, m, sh, k, ["optimal"])
        elif op == "bad":
            ok, e = ctx.call(m.add_constraint, [(len(sh.vars), 1)], "<=", 1)
            ctx.check(not ok and isassert(e), "a constraint over a variable that does not exist must be rejected")
            ok, e = ctx.call(m.add_constraint, [(0, 1)], "<", 1)
            ctx.check(not ok and isassert(e), "an unknown sense must be rejected")
    if gurobi: gsolve(ctx, m, sh, 99, outs, ctx.choice("timeout", list(timeouts)))
    else: solve(ctx, m, sh, 99, outs, solver, ctx.choice("timeout", list(timeouts)))

def coefficients(ctx, R, K, supports, senses, doms, cls="MILP", forms=("dense",), bnds=(None,), noobj=False, direction=("min", "max"), gurobi=False):
    setup(ctx, gurobi)
    mod = ctx.load("switss.solver.milp")
    d, sense, form = ctx.choice("direction", direction), ctx.choice("sense", senses), ctx.choice("form", forms)
    A, b, o = [], [], []
    for i in range(R):
        sup = ctx.choice("sup%d" % i, supports)
        A.append([ctx.real("a%d_%d" % (i, j), -2, 2) if j in sup else ctx.q(0) for j in range(K)])
        b.append(ctx.real("b%d" % i, -3, 3))
    for i in range(R):
        for j in range(K):
            if is_sym(A[i][j]): ctx.assume(A[i][j] != 0)
    o = [ctx.real("o%d" % j, -2, 2) for j in range(K)]
    for v in b[:1] + o[1:]: ctx.assume(v != 0)
    np = ctx.np
    dm = ctx.choice("doms", doms)
    bn = ctx.choice("bnds", bnds)
    sh = Shadow(d)
    for j in range(K): sh.add(dm[j] if cls == "MILP" else "real", *(bn[j] if bn else (None, None)))
    for i in range(R): sh.cons[i] = ([(j, A[i][j]) for j in range(K)], sense, b[i])
    if not noobj: sh.obj = list(enumerate(o))
    M, bb, oo = np.array(A), np.array(b), np.array(o)
    if form == "sparse": M = ctx.sparse.dok_matrix(M)
    if form == "col": bb, oo = ctx.sparse.dok_matrix(bb.reshape(R, 1)), ctx.sparse.dok_matrix(oo.reshape(K, 1))
    kw = dict(sense=sense, objective=d)
    if cls == "MILP":
        if bn: kw["bounds"] = bn
        ok, m = ctx.call((mod.GurobiMILP if gurobi else mod.MILP).from_coefficients, M, bb, None if noobj else oo, dm, **kw)
    else: ok, m = ctx.call(mod.LP.from_coefficients, M, bb, None if noobj else oo, **kw)
    if not ok: ctx.fail("from_coefficients failed with %s" % type(m).__name__); return
    ctx.check(isinstance(m, mod.GurobiMILP if gurobi else getattr(mod, cls)), "type of the problem")
    slv = gsolve if gurobi else solve
    slv(ctx, m, sh, 0, ["optimal", "infeasible"])
    # the problem can be extended afterwards
    if cls == "LP":
        ok, r = ctx.call(m.add_variables, 2)
        if not ok: ctx.fail("add_variables failed with %s" % type(r).__name__); return
        ctx.check(list(r) == [K, K + 1], "returned variable indices")
        sh.add("real", None, None); sh.add("real", None, None)
    e = expr(ctx, "e", [len(sh.vars) - 1, 0]); c = m.add_constraint(e, ">=", 1); sh.cons["x"] = (e, ">=", 1)
    e = expr(ctx, "f", [len(sh.vars) - 1]); m.set_objective_function(e); sh.obj = e
    slv(ctx, m, sh, 1, ["optimal"])

def bulk(ctx, n, k):
    """many variables and constraints: names and indices stay distinct"""
    mod = ctx.load("switss.solver.milp")
    m, sh = mod.MILP("max"), Shadow("max")
    d = [("real", 0, 5)] * (n - 1) + [("integer", -2, 7)]
    r = m.add_variables_w_bounds(d)
    for t in d: sh.add(*t)
    ctx.check(list(r) == list(range(n)), "returned variable indices")
    ctx.check(m.add_variables(["real"]) == n, "returned variable indices"); sh.add("real", None, None)
    seen = set()
    live = ctx.choice("kept", ["all", "without first", "without last"])
    for i in range(k):
        e = [(n, ctx.q(1)), (i % n, ctx.q(1 + i % 3))] if i < k - 1 else [(n, ctx.real("c", 1, 2)), (0, ctx.q(2))]
        c = m.add_constraint(e, "<=", 9 + i % 5)
        if c in seen: ctx.fail("constraint indices are distinct"); return
        seen.add(c); sh.cons[c] = (e, "<=", 9 + i % 5)
    if live != "all":
        c = (min if live == "without first" else max)(sh.cons)
        m.remove_constraint(c); del sh.cons[c]
    e = [(0, ctx.q(3)), (n, ctx.q(-1))]; m.set_objective_function(e); sh.obj = e
    x = [ctx.real("x%d" % i, -4, 4) if i in (0, n - 1, n, (k - 1) % n) else ctx.q(0) for i in range(n + 1)]
    seen = []
    def h(p):
        seen.append(p); compare(ctx, p, sh, x, "solve")
        return "optimal", x
    ctx.backend(h)
    ok, r = ctx.call(m.solve)
    if not ok: ctx.fail("solve failed with %s" % type(r).__name__); return
    ctx.check(len(seen) == 1 and r.status == "optimal", "reported status")
    reported(ctx, r, sh, x)

H = []
def add(name, fn, bounds, **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    H.append(Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24))
OPS = ["obj", "<=", "=", ">=", "remove", "var", "vars", "solve", "bad"]
add("outcomes", history, "two variables of every domain with symbolic bounds, one constraint and one objective, every solver outcome, every solver name, with and without time limit", direction=["min", "max"], start=VARS,
    steps=[["<=", "=", ">="], ["obj"]], exprs=[(0, 1)], objs=[(0, 1)], solver=SOLVERS, timeouts=(None, 3))
add("history-4", history, "every sequence of 4 operations (constraints of each sense, removal, new variables, new objective, intermediate solves) with symbolic coefficients", direction=["max"], start=VARS[1:2],
    steps=[["<=", "obj"]] + [OPS] * 3, exprs=[(0, 1)], objs=[(0, 1), (1,)], outs=["optimal"], budget=60)
add("objectives", history, "two to four objectives in a row over different variables (repeated variables and the empty sum included), intermediate solves", direction=["min"], start=VARS[2:3],
    steps=[["obj"], ["solve", "<="], ["obj"], ["obj", "var"]], exprs=[(0, 1)], objs=[(), (0,), (1, 1), (1, 0)], outs=["optimal"])
add("removals", history, "up to three constraints (the empty one included), up to two removals, then new constraints", direction=["min"], start=VARS[:1], steps=[["<="], ["="], [">=", "remove"], ["remove"], ["remove", ">=", "solve"]],
    exprs=[(0, 1), ()], objs=[(0,)], outs=["optimal"])
add("coefficients", coefficients, "2x2 systems, every support, symbolic coefficients, all senses, directions, input types and bounds", R=2, K=2, supports=[(), (0,), (1,), (0, 1)], senses=["<=", ">=", "="], doms=[["real", "real"], ["integer", "binary"]],
    direction=("max",), bnds=([(0, 1), (None, 2)],))
add("coefficients-forms", coefficients, "2x2 systems of every input type, direction and sense", R=2, K=2, supports=[(0, 1)], senses=["<=", ">="], doms=[["real", "binary"]], forms=("dense", "sparse", "col"), bnds=(None, [(0, 1), (None, 2)]))
add("coefficients-lp", coefficients, "LP.from_coefficients, 2x2 systems, every support", R=2, K=2, supports=[(), (0, 1)], senses=["<=", ">="], doms=[None], cls="LP", direction=("min",))
add("coefficients-noobj", coefficients, "systems without objective", R=1, K=2, supports=[(0,), (0, 1)], senses=["<="], doms=[["real", "real"]], noobj=True)
add("bulk-constraints", bulk, "one problem with 4 variables and 1031 constraints, with and without a removal; symbolic values of the variables, one symbolic coefficient", n=3, k=1031, budget=100)
add("bulk-variables", bulk, "one problem with 1031 variables and 4 constraints, with and without a removal", n=1030, k=4, budget=100)
add("coefficients-3x3", coefficients, "3x3 systems, every support", R=3, K=3, supports=[(), (0,), (1, 2), (2,), (0, 1, 2)], senses=["<=", ">="], doms=[["real", "integer", "binary"]], quick=False, direction=("min",), bnds=(None, [(0, 1), (None, 2), (0, None)]))
add("history-5", history, "every sequence of 5 operations", direction=["min"], start=VARS[1:2], steps=[["<=", "=", "obj"]] + [OPS] * 4, exprs=[(0, 1), (1, 1)], objs=[(0, 1), (1,)], outs=["optimal"], budget=60, quick=False)
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals", "the back end is any object behind PuLP's LpProblem.solve: it receives the problem PuLP holds and answers any status and any values; the translation from PuLP to a solver's file format is PuLP's and not covered"]
