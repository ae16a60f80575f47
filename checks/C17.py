"""Exact minimization returns minimum witnesses."""
from symx.api import *
from symx.gen import *
from symx import lpexact
from C13 import D

def sub_values(ctx, ex, saps, n, keep, mode):
    """optimal probability per state when all states outside keep are redirected to fail"""
    rows = []
    for r, (s, a) in zip(ex, saps): rows.append({d: p for d, p in r.items() if d == n or d in keep} if s in keep else {n + 1: 1})
    vals = all_values(ctx, rows, saps, n)
    return (pmin if mode == "min" else pmax)(vals)
def witness_table(ctx, ex, saps, n, init, mode):
    return {frozenset(T): sub_values(ctx, ex, saps, n, set(T), mode)[init] for T in subsets(range(n), nonempty=False)}

def polytope(ctx, rows, saps, n, init, mode, vec, t):
    """violations of the Farkas polytope"""
    v = [0 - x for x in vec]
    if mode == "max":
        out = [ctx.q(0)] * n; inn = [ctx.q(1 if s == init else 0) for s in range(n)]; tgt = ctx.q(0)
        for i, (s, a) in enumerate(saps):
            out[s] = out[s] + vec[i]
            for d in range(n): inn[d] = inn[d] + rows[i].get(d, ctx.q(0)) * vec[i]
            tgt = tgt + rows[i].get(n, ctx.q(0)) * vec[i]
        return v + [out[s] - inn[s] for s in range(n)] + [t - tgt]
    for i, (s, a) in enumerate(saps):
        e = rows[i].get(n, ctx.q(0))
        for d in range(n): e = e + rows[i].get(d, ctx.q(0)) * vec[d]
        v.append(vec[s] - e)
    return v + [t - vec[init]]

def body(ctx, n, saps, options, modes, init=0, kind="mdp", labelings=(None,), iterate=False, decoy=None, tgrid=None):
    rows, exact = rf_concrete(ctx, n, saps, options, init)
    ex = rows if ctx.mode == "conc" else exact
    mode = ctx.choice("mode", modes)
    ecs = end_components(ex, saps, range(n))
    if ecs:
        if mode == "max": ctx.skip()
        ctx.cover("end component")
    lab = ctx.choice("labels", labelings)
    lts, names = {}, None
    if lab is not None:
        names = sorted(lab)
        lts = {l: set(ss) for l, ss in lab.items() if ss}
        if lts: lts = {l: ss for l, ss in lts.items()}
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind, decoy=decoy, lts=lts)
    t = ctx.real("t", 0, 1) if tgrid is None else ctx.q(Fraction(ctx.choice("t", tgrid)))
    ctx.lp(lpexact.exact_fold if tgrid is None else lpexact.one)
    prob = ctx.load("switss.problem")
    ok, r = ctx.call(lambda: prob.MILPExact().solve(rf, t, mode, labels=names))
    if not ok: ctx.fail("solving failed with %s (%s)" % (type(r).__name__, mode)); return
    W = witness_table(ctx, ex, saps, n, init, mode)
    best = W[frozenset(range(n))]
    g = Fraction(1, 10**6)
    if r.status == "infeasible":
        ctx.cover("infeasible")
        ctx.check(r.subsystem is None and r.farkas_cert is None, "no witness when infeasible")
        ctx.check(t >= best - (g if ctx.mode == "sym" else 0), "infeasible only for thresholds above the optimal probability (%s)" % mode)
        return
    ctx.check(r.status == "success", "the problem is either infeasible or solved, got %s" % r.status)
    if r.status != "success": return
    ctx.cover("witness")
    gg = g if ctx.mode == "sym" else float(g)
    ctx.check(t <= best + gg, "thresholds above the optimal probability are infeasible (%s)" % mode)
    cert = list(r.farkas_cert)
    ctx.check(len(cert) == (n if mode == "min" else len(saps)), "dimension of the certificate")
    ctx.check(And([v <= gg for v in polytope(ctx, rows, saps, n, init, mode, cert, t)]), "the certificate lies in the Farkas polytope (%s)" % mode)
    if mode == "min":
        for s in ecs: ctx.eq(cert[s], 0, "certificate entries of end component states are zero")
    mask = r.subsystem.subsystem_mask
    T = frozenset(s for s in range(n) if mask[s])
    ctx.check(r.subsystem.supersys is rf and r.subsystem.certform == mode, "the witness refers to the form and mode")
    ctx.check(W[T] >= t - gg, "the induced subsystem reaches the threshold (%s)" % mode)
    # value
    if lab is None: cost = lambda S: len(S)
    else: cost = lambda S: sum(1 for l in names if set(lab[l]) & S)
    costs = {S: cost(S) for S in W}
    lower = Min([Ite(W[S] >= t - gg, ctx.q(c), ctx.q(99)) for S, c in costs.items()])
    upper = Min([Ite(W[S] >= t + gg, ctx.q(c), ctx.q(99)) for S, c in costs.items()])
    ctx.check(r.value >= lower - gg, "the value is at least the size of a minimum witness (%s)" % mode)
    ctx.check(Implies(t <= best - gg, r.value <= upper + gg), "the value is at most the size of a minimum witness (%s)" % mode)
    ctx.check(cost(T) <= r.value + gg, "the witness has the size given by the value (%s)" % mode)

UNFINISHED = ["infeasible", "unbounded", "undefined", "notsolved", "feasible"]
def unfinished(ctx, n, saps, options, modes, what, init=0, kind="mdp", iters=1):
    """the back end gives up on the problem (in some iteration); its variables may hold any values all the same"""
    rows, exact = rf_concrete(ctx, n, saps, options, init)
    ex = rows if ctx.mode == "conc" else exact
    mode = ctx.choice("mode", modes)
    if end_components(ex, saps, range(n)): ctx.skip()
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind)
    t = ctx.q(Fraction(1, 8))
    W = witness_table(ctx, ex, saps, n, init, mode)
    if not W[frozenset(range(n))] >= Fraction(1, 4): ctx.skip()
    out, valued, at = ctx.choice("outcome", UNFINISHED), ctx.choice("variables have values", [True, False]), ctx.choice("iteration", list(range(iters)))
    size, asked = (n if mode == "min" else len(saps)), [0]
    def handler(p):
        if p.sense == 1:
            asked[0] += 1
            if asked[0] == at + 1: return out, ([ctx.real("v%d" % i, 0, 1) for i in range(len(p.vars))] if valued else None)
        return (lpexact.one if p.sense == 1 else lpexact.exact_fold)(p) if ctx.mode == "sym" else None
    ctx.backend(handler)
    prob, res = ctx.load("switss.problem"), []
    h = prob.MILPExact() if what == "exact" else prob.QSHeur(iterations=iters)
    def run():
        for r in h.solveiter(rf, t, mode):
            res.append(r)
            if len(res) > iters: break
    ok, e = ctx.call(run)
    if not ok: ctx.fail("solving failed with %s (%s)" % (type(e).__name__, mode)); return
    if not ctx.check(asked[0] >= at + 1 and len(res) >= at + 1, "one result per problem that was solved"): return
    r = res[at]
    ctx.cover(out)
    ctx.check(all(x.status == "success" for x in res[:at]), "the iterations before succeed")
    if out != "feasible":
        ctx.check(r.status != "success" and r.subsystem is None and r.farkas_cert is None, "no witness comes from a problem that was not solved")
    elif r.status == "success":
        g = Fraction(1, 10**6) if ctx.mode == "sym" else 1e-6
        ctx.check(And([v <= g for v in polytope(ctx, rows, saps, n, init, mode, list(r.farkas_cert), t)]), "the certificate lies in the Farkas polytope (%s)" % mode)

H = []
def add(name, fn, bounds, must=("witness", "infeasible"), **k):
    q = k.pop("quick", True); b = k.pop("budget", 90)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
BOTH = ("min", "max")
add("dtmc-2", body, "DTMC form, two inner states, concrete probabilities, symbolic threshold", n=2, saps=[(1, 0), (0, 0)], modes=BOTH, kind="dtmc", init=1, options=D("0:1/2 1:1/2", "2:1/2 0:1/4 3:1/4", "0:1/4 1:1/4 2:1/2", "2:1", "0:1"))
add("dtmc-3", body, "DTMC form, three inner states", n=3, saps=[(0, 0), (1, 0), (2, 0)], modes=BOTH, kind="dtmc",
    options={0: D("1:1/2 2:1/2", "1:1/4 2:1/2 3:1/4"), 1: D("3:1/2 4:1/2", "2:1/2 3:1/4 4:1/4", "1:1/2 3:1/2"), 2: D("3:1", "1:1/4 3:1/2 4:1/4")})
add("mdp-1x3", body, "one inner state with three actions", must=("witness", "infeasible", "end component"), n=1, saps=[(0, 0), (0, 1), (0, 2)], modes=BOTH, options=D("0:1", "1:1", "0:1/2 1:1/2", "0:1/4 1:1/4 2:1/2"))
add("mdp-2x3", body, "two inner states, three pairs", must=("witness", "infeasible", "end component"), n=2, saps=[(1, 0), (0, 0), (0, 1)], modes=BOTH,
    options={0: D("1:1", "0:1", "2:1/2 0:1/2"), 1: D("1:1/2 2:1/2", "0:1/2 1:1/4 2:1/4", "1:1"), 2: D("0:1", "1:1", "2:1/4 3:3/4")})
add("mdp-2x4", body, "two inner states with two actions each", n=2, saps=[(1, 0), (0, 0), (0, 1), (1, 1)], modes=BOTH,
    options={0: D("2:1/2 0:1/2", "2:1/4 3:3/4"), 1: D("1:1/2 2:1/2", "1:1"), 2: D("0:1/2 1:1/2", "2:1/4 3:3/4"), 3: D("0:1/4 2:1/4 3:1/2", "0:1")})
LAB = [{"a": {0, 1}, "b": {1, 2}}, {"a": {0}, "b": set(), "c": {2}}, {"a": {1, 3}, "b": {2}}, {"a": {0, 1, 2}, "b": {1}, "c": {1}}]
add("labels-dtmc-3", body, "DTMC form, three inner states, four label groupings (overlapping, unused, covering the target)", must=("witness",), n=3, saps=[(0, 0), (1, 0), (2, 0)], modes=BOTH, kind="dtmc", labelings=LAB,
    options={0: D("1:1/2 2:1/4 3:1/4"), 1: D("3:1/2 4:1/2", "2:1/2 3:1/4 4:1/4"), 2: D("3:1", "1:1/4 3:1/2 4:1/4")})
add("labels-mdp-3", body, "MDP form, three inner states, four pairs, label groupings", must=("witness",), n=3, saps=[(0, 0), (1, 0), (0, 1), (2, 0)], modes=BOTH, labelings=LAB,
    options={0: D("1:1/2 2:1/2"), 1: D("3:1/2 4:1/2", "2:1/2 3:1/4 4:1/4"), 2: D("1:1/4 3:1/4 4:1/2", "2:1"), 3: D("3:1", "3:1/2 4:1/2")})
add("one-label", body, "MDP form, two inner states with up to three actions, fewer labels than actions", must=("witness",), n=2, saps=[(1, 0), (0, 0), (0, 1), (0, 2)], modes=BOTH, labelings=[{"a": {0}}, {"a": {1}}, {"a": {0, 1}}, {"b": {1}, "a": {0, 2}}],
    options={0: D("2:1/2 3:1/2"), 1: D("1:1/2 2:1/2", "1:1"), 2: D("1:1", "1:1/4 2:1/4 3:1/2"), 3: D("2:1/4 3:3/4", "2:1")})
add("mdp-3x5", body, "three inner states, five pairs", must=("witness", "infeasible", "end component"), n=3, saps=[(2, 0), (0, 0), (1, 0), (1, 1), (0, 4)], init=1, modes=BOTH, quick=False, budget=400,
    options={0: D("1:1/2 3:1/2", "2:1/2 3:1/4 4:1/4"), 1: D("1:1", "2:1/2 0:1/2"), 2: D("0:1", "1:1/2 2:1/2"), 3: D("2:1/4 4:3/4", "0:1/2 3:1/2"), 4: D("0:1", "4:1/2 1:1/2")})
add("other-form", body, "a form judged while another form of the same size is minimised", must=("witness", "infeasible", "end component"), options=TWO_OPTIONS, modes=BOTH, decoy=(OTHER, "exact heuristic"), **TWO)
add("integers", body, "deterministic forms given by integer matrices, two inner states, four pairs", must=("witness", "infeasible", "end component"), options=INTS, modes=BOTH, **TWO)
add("unfinished", unfinished, "the back end stops without a proven optimum (five outcomes, with or without values)", must=UNFINISHED, what="exact", modes=BOTH, options=TWO_FEW, **TWO)
add("large-dtmc", body, "DTMC form with eleven inner states, three thresholds, one solver answer", tgrid=["5/16", "1/2", "15/16"], modes=BOTH, kind="dtmc", **large(kind="dtmc", n=11))
add("large-mdp", body, "MDP form with eleven inner states, one threshold, one solver answer", must=("witness",), tgrid=["1/4"], modes=BOTH, **large(n=11))
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals; ties of a threshold with an achievable probability closer than 1e-6 are not judged", "the LP/MILP back end returns some optimal solution of the problem it is given (any of them); integer feasibility tolerances of real solvers are not modelled"]
