"""The quotient-sum heuristic only returns genuine witnesses."""
from symx.api import *
from symx.gen import *
from symx import lpexact
from symx.lpstub import freshvec
from C13 import D
from C17 import sub_values, witness_table, polytope, LAB, unfinished, UNFINISHED

class Table(dict):
    """filled when it is looked at"""
    def __init__(self, f): self.f = f
    def __missing__(self, S): self[S] = self.f(S); return self[S]

def best_points(ctx, ex, saps, n, init, mode, vals, ngroups):
    """points that a full-support certificate gives for the relaxed problem"""
    if mode == "min": xs = [pmin(vals)]
    else:
        xs = []
        for sg in schedulers(saps, n):
            R = sorted(backward({**{s: set(ex[sg[s]]) for s in range(n)}, n: {n}}, {n}) - {n})
            A = [[(1 if i == j else 0) - Fraction(ex[sg[t]].get(s, 0)) for j, t in enumerate(R)] for i, s in enumerate(R)]
            y = dict(zip(R, solve_exact(A, [1 if s == init else 0 for s in R])))
            xs.append([next((y[s] for s in R if sg[s] == i), Fraction(0)) for i in range(len(saps))])
    return [list(x) + [max([Fraction(1)] + [v for v in x])] * ngroups for x in xs] + [list(x) + [Fraction(1)] * ngroups for x in xs]

def body(ctx, n, saps, options, modes, strat, iters, init=0, kind="mdp", labelings=(None,), tgrid=None, solve=False, decoy=None, many=False):
    rows, exact = rf_concrete(ctx, n, saps, options, init)
    ex = rows if ctx.mode == "conc" else exact
    mode = ctx.choice("mode", modes)
    ecs = end_components(ex, saps, range(n))
    if ecs: ctx.cover("end component")
    lab = ctx.choice("labels", labelings)
    names = sorted(lab) if lab is not None else None
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind, decoy=decoy, lts={l: set(s) for l, s in (lab or {}).items() if s})
    t = ctx.real("t", 0, 1) if tgrid is None else ctx.q(Fraction(ctx.choice("t", tgrid)))
    prob = ctx.load("switss.problem")
    (ini, upd), K = ctx.choice("strategy", strat), ctx.choice("iterations", iters)
    size = n if mode == "min" else len(saps)
    vals = all_values(ctx, ex, saps, n)
    W = Table(lambda S: sub_values(ctx, ex, saps, n, set(S), mode)[init]) if many else witness_table(ctx, ex, saps, n, init, mode)
    best = W[frozenset(range(n))]
    # the groups, in any order: sets of certificate entries
    if lab is None: groups = [{i} for i in range(size)]
    elif mode == "min": groups = [{s for s in lab[l] if s < n} for l in names]
    else: groups = [{i for i, (s, a) in enumerate(saps) if s in lab[l]} for l in names]
    probs, state, passed = [], {"last": None}, {}
    ctx.tap(lambda p: probs.append(p) if p.sense == 1 else None)
    def handler(p):
        if many: return lpexact.one(p)
        if p.sense != 1: return lpexact.exact_fold(p)
        E = ctx.E
        pts = best_points(ctx, exact, saps, n, init, mode, vals, len(p.vars) - size) + ([state["last"]] if state["last"] else [])
        pts = [q for q in pts if len(q) == len(p.vars)]
        f = [p.feasible(q) for q in pts]
        if not bool(Or(f)): return lpexact.exact(p)
        x = freshvec(p)
        E.assume(p.feasible(x))
        state["last"] = x
        return "optimal", x
    if ctx.mode == "sym": ctx.lp(handler)
    # user supplied strategies
    nI, nU = {"ones": "AllOnesInitializer", "reach": "InverseReachabilityInitializer", "freq": "InverseFrequencyInitializer", "comb": "InverseCombinedInitializer"}, {"inverse": "InverseResultUpdater", "fixed": "InverseResultFixedZerosUpdater"}
    Base = getattr(prob, nI.get(ini, "AllOnesInitializer"))
    class Init(Base):
        def initialize(self):
            r = [(g, 2 + i) for i, g in enumerate(self.groups)] if ini == "custom" else super().initialize()
            passed["init"] = list(r); return r
    BaseU = getattr(prob, nU.get(upd, "InverseResultUpdater"))
    class Upd(BaseU):
        def update(self, last):
            passed.setdefault("seen", []).append(list(last))
            if upd == "custom": return [(g, 3 + last[g]) for g in self.groups]
            return super().update(last)
        def constraints(self, last):
            passed.setdefault("seenc", []).append(list(last))
            if upd == "custom":
                g = max(self.groups)
                return [([(g, 1.)], "<=", last[g])]
            return super().constraints(last)
    wrap = ini == "custom" or upd == "custom" or ini not in ("ones",)
    h = prob.QSHeur(iterations=K, initializertype=Init if wrap else Base, updatertype=Upd if upd == "custom" else BaseU)
    res, sols = [], []
    if solve:
        ok, r = ctx.call(lambda: h.solve(rf, t, mode, labels=names))
        if not ok: ctx.fail("the heuristic failed with %s" % type(r).__name__); return
        res.append(r)
        if probs: sols.append([v.varValue for v in probs[-1].vars])
    else:
        try:
            for r in h.solveiter(rf, t, mode, labels=names):
                res.append(r)
                sols.append([v.varValue for v in probs[-1].vars] if probs else None)
                if len(res) > K: break
        except Exception as e:
            ctx.fail("the heuristic failed with %s" % type(e).__name__); return
    g = Fraction(1, 10**6) if ctx.mode == "sym" else 1e-6
    if not res: ctx.fail("no result at all"); return
    if res[0].status == "infeasible":
        ctx.cover("infeasible")
        ctx.check(len(res) == 1 and res[0].subsystem is None and res[0].farkas_cert is None, "an unreachable threshold gives one infeasible result without witness")
        ctx.check(t >= best - (g if ctx.mode == "sym" else 0), "infeasible only for thresholds above the optimal probability (%s)" % mode)
        return
    ctx.check(And([r.status == "success" for r in res]), "every iteration succeeds after a feasible first one, got %s" % [r.status for r in res])
    if any(r.status != "success" for r in res): return
    ctx.cover("witness")
    ctx.check(t <= best + g, "thresholds above the optimal probability are infeasible (%s)" % mode)
    ctx.check(len(res) == (1 if solve else K) and len(probs) == K, "one result per iteration")
    if len(probs) != K: return
    for k, r in enumerate(res):
        cert, sol = list(r.farkas_cert), sols[k]
        ctx.check(len(cert) == size, "dimension of the certificate")
        ctx.check(And([v <= g for v in polytope(ctx, rows, saps, n, init, mode, cert, t)]), "the certificate lies in the Farkas polytope (%s)" % mode)
        if mode == "min":
            for s in ecs: ctx.eq(cert[s], 0, "certificate entries of end component states are zero")
        for i in range(size): ctx.eq(cert[i], sol[i], "the certificate is the solution of this iteration", tol=Fraction(1, 10**9))
        sig = sol[size:]
        cnt = ctx.q(0)
        for v in sig: cnt = cnt + Ite(v > 0, ctx.q(1), ctx.q(0))
        ctx.eq(r.value, cnt, "the value counts the positive groups")
        ctx.check(r.subsystem.supersys is rf and r.subsystem.certform == mode, "the witness refers to the form and mode")
        if k == len(res) - 1:
            mask = r.subsystem.subsystem_mask
            T = frozenset(s for s in range(n) if mask[s])
            ctx.check(W[T] >= t - g, "the induced subsystem reaches the threshold (%s)" % mode)
    # objectives
    nv = len(probs[0].vars)
    def coefs(p):
        c = [ctx.q(0)] * len(p.vars)
        for i, a in p.obj: c[i] = c[i] + a
        return c
    for k, p in enumerate(probs):
        ctx.check(len(p.vars) == nv and p.sense == 1, "the same variables in every iteration")
        c = coefs(p)
        for i in range(size): ctx.eq(c[i], 0, "certificate entries have no weight", tol=1e-12)
        if k == 0:
            if ini == "ones": want = {i: 1 for i in range(size, nv)}
            else:
                want = dict(passed["init"])
                ctx.check(set(want) == set(range(size, nv)), "the initializer gives a weight to every group")
            for i, w in want.items(): ctx.eq(c[i], w, "the first iteration minimises the initial weights (%s)" % ini)
            if lab is not None: continue
            ctx.check(nv == 2 * size, "one group per certificate entry")
        elif not solve:
            last = sols[k - 1]
            if upd == "custom":
                for a, b in zip(passed["seen"][k - 1], last): ctx.eq(a, b, "the updater sees the previous result", tol=1e-9)
                for i in range(size, nv): ctx.eq(c[i], 3 + last[i], "iteration i minimises the weights derived from result i-1 (custom)")
                ctx.check(sols[k][nv - 1] <= last[nv - 1] + g, "constraints of the updater are added")
                continue
            for i in range(size, nv):
                s = last[i]
                if s > 1e-8: ctx.check(And(c[i] * s <= 1 + g, c[i] * s >= 1 - g), "iteration i minimises the weights derived from result i-1 (%s)" % upd)
                elif not (s > 0):
                    if upd == "inverse": ctx.check(c[i] >= 10**7, "removed groups get a large weight")
                    else: ctx.eq(sols[k][i], 0, "removed groups stay removed")
    # grouping: the indicator of a group dominates its members
    if not solve and lab is not None:
        sol = sols[0]
        ctx.check(nv - size in (len(groups), len([x for x in groups if x])), "one indicator per label")
        live = [x for x in groups if x]
        if nv - size == len(groups):
            for x, v in zip(groups, sol[size:]):
                for i in x: ctx.check(Implies(sol[i] > g, v > 0), "a used entry makes its groups positive")
H = []
def add(name, fn, bounds, must=("witness", "infeasible"), **k):
    q = k.pop("quick", True); b = k.pop("budget", 90)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
BOTH = ("min", "max")
ST = [("ones", "inverse"), ("ones", "fixed"), ("reach", "custom"), ("freq", "fixed"), ("comb", "inverse"), ("custom", "custom"), ("custom", "inverse")]
add("dtmc-2", body, "DTMC form, two inner states, concrete probabilities, symbolic threshold, two iterations, seven strategies", n=2, saps=[(1, 0), (0, 0)], modes=BOTH, kind="dtmc", init=1,
    options={0: D("0:1/2 1:1/2"), 1: D("2:1/2 0:1/4 3:1/4", "2:1")}, strat=ST, iters=[2])
add("mdp-1x3", body, "one inner state with three actions (end components included)", must=("witness", "infeasible", "end component"), n=1, saps=[(0, 0), (0, 1), (0, 2)], modes=BOTH,
    options={0: D("0:1", "1:1"), 1: D("0:1/4 1:1/4 2:1/2"), 2: D("0:1/2 1:1/2")}, strat=ST[:4], iters=[2])
add("mdp-2x3", body, "two inner states, three pairs", n=2, saps=[(1, 0), (0, 0), (0, 1)], modes=BOTH, options={0: D("2:1/2 0:1/2"), 1: D("0:1/2 1:1/4 2:1/4"), 2: D("1:1", "2:1/4 3:3/4")}, strat=[("ones", "inverse"), ("freq", "fixed")], iters=[1])
add("mdp-2x3-it2", body, "two inner states, three pairs, two iterations, thresholds 1/4 and 7/8", n=2, saps=[(1, 0), (0, 0), (0, 1)], modes=BOTH, options={0: D("2:1/2 0:1/2"), 1: D("0:1/2 1:1/4 2:1/4"), 2: D("2:1/4 3:3/4")}, strat=[("ones", "inverse"), ("ones", "fixed")], iters=[2], tgrid=["1/4", "7/8"])
add("iterations-3", body, "DTMC form, three iterations", n=2, saps=[(0, 0), (1, 0)], modes=["min"], kind="dtmc", options={0: D("1:1/2 2:1/2"), 1: D("2:1/4 3:3/4")}, strat=[("ones", "inverse"), ("ones", "fixed"), ("custom", "custom")], iters=[3])
add("labels-3", body, "three inner states, four pairs, label groupings (overlapping, unused, covering the target)", must=("witness",), n=3, saps=[(0, 0), (1, 0), (0, 1), (2, 0)], modes=BOTH, labelings=LAB, strat=[("ones", "inverse"), ("reach", "fixed"), ("freq", "inverse"), ("comb", "inverse")], iters=[1],
    options={0: D("1:1/2 2:1/2"), 1: D("2:1/2 3:1/4 4:1/4"), 2: D("1:1/4 3:1/4 4:1/2"), 3: D("3:1/2 4:1/2")}, tgrid=["1/8", "1/2"])
add("solve", body, "solve returns the last result", n=2, saps=[(0, 0), (1, 0)], modes=BOTH, kind="dtmc", options=D("1:1/2 2:1/2", "2:1/4 3:3/4"), strat=[("ones", "inverse")], iters=[1, 2, 3], solve=True)
add("dtmc-2-all", body, "DTMC form, two inner states, more probabilities, every strategy pair", n=2, saps=[(1, 0), (0, 0)], modes=BOTH, kind="dtmc", init=1, quick=False, budget=200,
    options=D("0:1/2 1:1/2", "2:1/2 0:1/4 3:1/4", "2:1"), strat=[(i, u) for i in ("ones", "reach", "freq", "comb", "custom") for u in ("inverse", "fixed", "custom")], iters=[2])
add("mdp-2x4", body, "two inner states with two actions each", n=2, saps=[(1, 0), (0, 0), (0, 1), (1, 1)], modes=BOTH, quick=False, budget=400,
    options={0: D("2:1/2 0:1/2"), 1: D("1:1/2 2:1/2", "1:1"), 2: D("0:1/2 1:1/2", "2:1/4 3:3/4"), 3: D("0:1/4 2:1/4 3:1/2", "0:1")}, strat=[("ones", "inverse"), ("comb", "fixed")], iters=[1, 2], tgrid=["1/4", "3/4"])
add("other-form", body, "a form judged while another form of the same size is minimised", options=TWO_FEW, modes=BOTH, strat=[("freq", "inverse")], iters=[1], decoy=(OTHER, "exact heuristic"), **TWO)
add("integers", body, "deterministic forms given by integer matrices, two inner states, four pairs", options=INTS, modes=BOTH, strat=[("freq", "inverse")], iters=[1], **TWO)
add("unfinished", unfinished, "the back end stops without a proven optimum in some iteration (five outcomes, with or without values)", must=UNFINISHED, what="heuristic", iters=3, modes=BOTH, options=TWO_FEW, **TWO)
for nm, f, k in (("mdp", LARGE, "mdp"), ("dtmc", LARGE_DTMC, "dtmc")):
    add("large-" + nm, body, "%s form with twelve inner states, two thresholds, one solver answer" % nm.upper(), many=True, modes=BOTH, strat=[("ones", "inverse"), ("freq", "fixed")], iters=[3], tgrid=["1/4", "15/16"], kind=k, **f)
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals; ties of a threshold with an achievable probability closer than 1e-6 are not judged",
    "the LP back end reports infeasibility exactly; for the heuristic's own problems it may return ANY feasible point (a superset of the optimal ones)"]
