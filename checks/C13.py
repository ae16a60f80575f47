"""Computed reachability probabilities are the scheduler optima."""
from symx.api import *
from symx.gen import *
from symx import lpexact

def compare(ctx, rf, rows, saps, n, vals, symbolic, which=("min", "max")):
    from symx import lpexact
    lo, hi = pmin(vals), pmax(vals)
    for w in which:
        want = lo if w == "min" else hi
        ctx.lp(lpexact.contract([want]) if symbolic else None)
        ok, x = ctx.call(rf.pr_min if w == "min" else rf.pr_max)
        if not ok: ctx.fail("pr_%s failed with %s" % (w, type(x).__name__)); continue
        ctx.check(len(x) == n, "pr_%s has one entry per state" % w)
        for s in range(n): ctx.eq(x[s], want[s], "pr_%s is the scheduler optimum" % w)
        if not symbolic: ctx.observe(w, want)

def sym(ctx, n, saps, supports=None, init=0, kind="mdp", maxk=None, decoy=None, options=None):
    if options: rows, ex = rf_concrete(ctx, n, saps, options, init)
    else: rows = ex = rf_structure(ctx, n, saps, init=init, supports=supports, maxk=maxk)
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind, decoy=decoy)
    compare(ctx, rf, rows, saps, n, all_values(ctx, ex if ctx.mode == "sym" else rows, saps, n), True)

def conc(ctx, n, saps, options, init=0, kind="mdp", decoy=None):
    rows, exact = rf_concrete(ctx, n, saps, options, init)
    if len(set(saps)) > n and end_components(exact, saps, range(n)): ctx.cover("end component")
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind, decoy=decoy)
    compare(ctx, rf, rows, saps, n, all_values(ctx, exact if ctx.mode == "sym" else rows, saps, n), False)

def D(*xs):
    """distributions given as {col: 'p'} strings like '0:1/2 2:1/2'"""
    return [{int(c.split(":")[0]): Fraction(c.split(":")[1]) for c in x.split()} for x in xs]
H = []
def add(name, fn, bounds, must=(), **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
add("sym-1x3", sym, "one inner state with three actions, every support, symbolic probabilities", n=1, saps=[(0, 0), (0, 1), (0, 2)])
add("sym-dtmc-2", sym, "DTMC form with two inner states, every support, symbolic probabilities", n=2, saps=[(0, 0), (1, 0)], kind="dtmc")
add("sym-2x3", sym, "two inner states, three pairs, at most three successors each (end components included), symbolic probabilities", n=2, saps=[(1, 0), (0, 0), (0, 1)],
    maxk=3)
add("conc-2x4", conc, "two inner states with two actions each, concrete dyadic probabilities, every optimal answer of the solver", must=("end component",), n=2, saps=[(1, 0), (0, 0), (0, 1), (1, 2)],
    options=D("0:1", "1:1", "2:1", "3:1", "0:1/2 1:1/2", "0:1/4 2:3/4", "1:3/4 3:1/4", "0:1/2 1:1/4 2:1/4"))
add("conc-3x5", conc, "three inner states, five pairs, concrete dyadic probabilities", must=("end component",), n=3, saps=[(2, 0), (0, 0), (1, 0), (1, 1), (0, 4)], init=1,
    options={0: D("0:1", "1:1/2 3:1/2", "2:1/2 3:1/4 4:1/4"), 1: D("1:1", "2:1/2 0:1/2", "3:1"), 2: D("0:1", "1:1/2 2:1/2", "2:1"), 3: D("2:1/4 4:3/4", "0:1/2 3:1/2", "1:1"), 4: D("0:1", "2:1", "4:1/2 1:1/2")})
add("conc-3x6", conc, "three inner states with two actions each", n=3, saps=[(2, 0), (0, 0), (1, 0), (1, 1), (0, 4), (2, 1)], quick=False, budget=90, must=("end component",),
    options=D("0:1", "2:1", "3:1", "4:1/4 0:3/4", "0:1/2 1:1/4 2:1/4", "2:1/2 3:1/2"))
add("sym-2x4", sym, "two inner states with two actions each, at most two successors, symbolic probabilities", n=2, saps=[(1, 0), (0, 0), (0, 1), (1, 2)], maxk=2, quick=False, budget=60)
add("other-form", conc, "a form judged while another form of the same size is used", options=TWO_OPTIONS, decoy=(OTHER, "systems values"), **TWO)
add("integers", conc, "deterministic forms given by integer matrices, two inner states, four pairs", options=INTS, **TWO)
for nm, f, k in (("mdp", LARGE, "mdp"), ("ec", LARGE_EC, "mdp"), ("dtmc", LARGE_DTMC, "dtmc")):
    add("large-" + nm, sym, "one form with twelve inner states (%s), concrete probabilities" % nm, kind=k, **f)
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals", "the LP back end returns some optimal solution of the problem it is given (any of them)",
    "in the sym- harnesses the back end returns any feasible point at least as good as the true probabilities, which contains every optimal solution"]
