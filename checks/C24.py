"""Heuristic weights follow their definitions."""
from symx.api import *
from symx.gen import *
from C13 import D

def groupings(size, many=False):
    base = [[{i} for i in range(size)], [set(range(size))], [{0}, set()], [{0, 1}, {1}], [set(range(size)), {size - 1}, set()]]
    return base
def weights_ok(ctx, r, keys, label):
    """[(group, weight)] as a dict, exactly one nonnegative finite weight per group"""
    ok = ctx.check(sorted(g for g, _ in r) == sorted(keys), "%s: exactly one weight per group" % label)
    if not ok: return None
    w = dict(r)
    for g in keys:
        v = w[g]
        if not is_sym(v):
            import math
            if not ctx.check(math.isfinite(v), "%s: finite weight" % label): return None
        ctx.check(v >= 0, "%s: nonnegative weight" % label)
    return w
def inverse(ctx, w, x, label):
    """w is the inverse of x (large where x is zero or almost zero)"""
    g = ctx.q(Fraction(1, 10**5) if ctx.mode == "sym" else Fraction(1, 2 * 10**5))
    big = 10**7 if ctx.mode == "sym" else 2 * 10**7
    ctx.check(Implies(x >= ctx.q(Fraction(1, 10**4)), And(w * x <= 1 + g, w * x >= 1 - g)), "%s is the inverse" % label)
    ctx.check(Implies(x <= ctx.q(Fraction(1, 10**9)), w >= 10**7 - (0 if ctx.mode == "sym" else 1)), "%s: a dominating weight where the value is zero" % label)

def initial(ctx, n, saps, options, kinds, modes, zeros, init=0, kind="mdp", decoy=None, sel=None):
    rows, exact = rf_concrete(ctx, n, saps, options, init)
    ex = rows if ctx.mode == "conc" else exact
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind, decoy=decoy)
    mode, which = ctx.choice("mode", modes), ctx.choice("which", kinds)
    size = n if mode == "min" else len(saps)
    zz = ctx.choice("zeros", zeros)
    z = [ctx.q(0) if i in zz else ctx.real("z%d" % i, 0, 1) for i in range(n)]
    y = [ctx.q(0) if i in zz else ctx.real("y%d" % i, 0, 50) for i in range(len(saps))]
    wrong = [ctx.q(Fraction(3, 7))] * n
    def h(p):
        k = len(p.vars)
        if k == n: return "optimal", (z if p.sense == -1 else wrong)
        return "optimal", y
    ctx.backend(h)
    IV = ctx.load("switss.utils").InvertibleDict
    gr = ctx.choice("groups", groupings(size) if sel is None else [[set(g(size)) for g in gs] for gs in sel])
    ind = {size + i: set(g) for i, g in enumerate(gr)}
    keys = list(ind)
    P = ctx.load("switss.problem")
    cls = getattr(P, {"ones": "AllOnesInitializer", "reach": "InverseReachabilityInitializer", "freq": "InverseFrequencyInitializer", "comb": "InverseCombinedInitializer"}[which])
    kw, cw = {}, None
    if which == "ones" and ctx.choice("weighted", [False, True]):
        cw = {g: ctx.real("w%d" % g, 0, 5) for g in keys}; kw["weights"] = cw
    ok, I = ctx.call(cls, reachability_form=rf, mode=mode, indicator_to_group=IV(ind), **kw)
    if not ok: ctx.fail("%s: construction failed with %s" % (which, type(I).__name__)); return
    ok, r = ctx.call(I.initialize)
    if not ok: ctx.fail("%s: failed with %s" % (which, type(r).__name__)); return
    w = weights_ok(ctx, r, keys, which)
    if w is None: return
    # the quantities of the definitions
    za = []
    for i, (s, a) in enumerate(saps):
        e = ex[i].get(n, ctx.q(0))
        for d in range(n): e = e + ex[i].get(d, 0) * z[d]
        za.append(e)
    ys = [ctx.q(0)] * n
    for i, (s, a) in enumerate(saps): ys[s] = ys[s] + y[i]
    pr, ev = (z, ys) if mode == "min" else (za, y)
    for g in keys:
        vs = sorted(ind[g])
        if which == "ones":
            ctx.eq(w[g], 1 if cw is None else cw[g], "ones: weight of the group", tol=1e-12); continue
        x = ctx.q(0)
        for v in vs: x = x + (pr[v] if which == "reach" else ev[v] if which == "freq" else ev[v] * pr[v])
        if which == "reach" and vs: x = x / len(vs)
        inverse(ctx, w[g], x, which)

def update(ctx, size, kinds, weighted=(False, True)):
    P = ctx.load("switss.problem")
    IV = ctx.load("switss.utils").InvertibleDict
    which = ctx.choice("which", kinds)
    gr = ctx.choice("groups", groupings(size))
    ind = {size + i: set(g) for i, g in enumerate(gr)}
    keys = list(ind)
    last = []
    for i in range(size + len(gr)): last.append(ctx.real("r%d" % i, 0, 5))
    kw, cw = {}, None
    if ctx.choice("weighted", weighted):
        cw = {g: ctx.real("w%d" % g, Fraction(1, 2), 5) for g in keys}; kw["weights"] = cw
    cls = getattr(P, {"inverse": "InverseResultUpdater", "fixed": "InverseResultFixedZerosUpdater"}[which])
    ok, U = ctx.call(cls, reachability_form=None, mode=ctx.choice("mode", ["min", "max"]), indicator_to_group=IV(ind), **kw)
    if not ok: ctx.fail("%s: construction failed with %s" % (which, type(U).__name__)); return
    vec = ctx.np.array(last)
    ok, r = ctx.call(U.update, vec)
    if not ok: ctx.fail("%s: failed with %s" % (which, type(r).__name__)); return
    w = weights_ok(ctx, r, keys, which)
    if w is None: return
    sym = ctx.mode == "sym"
    for g in keys:
        x, wt = last[g], (1 if cw is None else cw[g])
        e = ctx.q(Fraction(1, 10**5) if sym else Fraction(1, 2 * 10**5))
        ctx.check(Implies(x >= ctx.q(Fraction(1, 10**6)), And(w[g] * x <= wt * (1 + e), w[g] * x >= wt * (1 - e))), "%s: inverse of the last value" % which)
        if which == "inverse":
            ctx.check(Implies(Not(x > 0), w[g] >= 10**7), "inverse: a dominating weight where the value is zero")
            if cw is None:
                for g2 in keys: ctx.check(Implies(Not(x > 0), w[g] >= w[g2] * (1 - e)), "inverse: the weight of zero groups dominates")
    ok, cs = ctx.call(U.constraints, vec)
    if not ok: ctx.fail("%s: constraints failed with %s" % (which, type(cs).__name__)); return
    # an arbitrary next point: allowed exactly if the groups that were zero are zero
    nx = [ctx.real("n%d" % i, 0, 5) for i in range(len(last))]
    want = [x for x in [ctx.q(0)]]
    viol, slack = ctx.q(0), ctx.q(0)
    for g in keys:
        if which == "fixed": viol = Max([viol, Ite(last[g] > 0, ctx.q(0), nx[g])])
    for (row, sense, rhs) in cs:
        s = ctx.q(0)
        for v, a in row: s = s + a * nx[v]
        d = s - rhs
        slack = Max([slack, d if sense == "<=" else 0 - d if sense == ">=" else abs(d)])
    eps, z0 = ctx.q(Fraction(1, 1000) if sym else Fraction(1, 2000)), ctx.q(0 if sym else Fraction(1, 10**9))
    ctx.check(Not(And(viol <= z0, slack > eps)), "%s: a constraint excludes a point where the removed groups are zero" % which)
    ctx.check(Not(And(slack <= z0, viol > eps)), "%s: a removed group may come back" % which)

H = []
def add(name, fn, bounds, **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    H.append(Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24))
K = ["ones", "reach", "freq", "comb"]
add("initializers-2x3", initial, "form with two inner states and three pairs, any minimal-probability vector and any visit vector, five groupings (overlapping and empty groups)", n=2, saps=[(1, 0), (0, 0), (0, 1)], kinds=K, modes=["min", "max"],
    options={0: D("0:1/2 2:1/2"), 1: D("1:1/2 2:1/4 0:1/4", "0:1/2 1:1/2"), 2: D("2:1/4 3:3/4", "0:1")}, zeros=[(), (0,), (0, 1, 2)])
add("initializers-3x4", initial, "form with three inner states and four pairs", n=3, saps=[(2, 0), (0, 0), (1, 0), (0, 1)], kinds=K, modes=["min", "max"], quick=True,
    options={0: D("3:1/2 4:1/2"), 1: D("1:1/2 2:1/2"), 2: D("0:1/4 3:3/4"), 3: D("2:1/4 0:1/4 1:1/2", "0:1")}, zeros=[(), (1,)])
add("updaters-2", update, "two variables, up to three groups, any nonnegative result vector, weights 1 or any in [1/2,5]", size=2, kinds=["inverse", "fixed"])
add("updaters-4", update, "four variables, up to four groups", size=4, kinds=["inverse", "fixed"], quick=False)
add("other-form", initial, "a form judged while another form of the same size is used", kinds=K, modes=["min", "max"], zeros=[(), (0,)], options=TWO_FEW, decoy=(OTHER, "values heuristic"), **TWO)
add("integers", initial, "deterministic forms given by integer matrices, two inner states, four pairs", kinds=K, modes=["min", "max"], zeros=[(), (0,)], options=INTS, **TWO)
add("large", initial, "a form with twelve inner states", kinds=["ones", "reach", "freq", "comb"], modes=["min", "max"], zeros=[(), (1, 10)], sel=[[lambda k: {2}, lambda k: {k - 2, k - 1, 9}, lambda k: {10}]], **LARGE)
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals; inverses are compared for values above 1e-4 (initializers) or 1e-6 (updaters), values below 1e-9 count as zero",
    "the LP back end may return any vector for minimal probabilities and visits (their own correctness is C13/C14)"]
