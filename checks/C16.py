"""Certificate generation is valid and complete."""
from symx.api import *
from symx.gen import *
from symx import lpexact
from C13 import D
from C15 import conditions, ALL

def body(ctx, n, saps, combos, options, init=0, kind="mdp", tols=("default",), decoy=None, tgrid=None):
    rows, exact = rf_concrete(ctx, n, saps, options, init)
    ex = rows if ctx.mode == "conc" else exact
    ecs = end_components(ex, saps, range(n))
    if ecs: ctx.cover("end component")
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind, decoy=decoy)
    cert = ctx.load("switss.certification")
    mode, sense = ctx.choice("combo", combos)
    ge = sense in (">=", ">")
    t = ctx.real("t", 0, 1) if tgrid is None else ctx.q(Fraction(ctx.choice("t", tgrid)))
    k = ctx.choice("tol", tols)
    tol = Fraction(1, 10**5) if k == "default" else Fraction(k)
    ctx.lp(None if tgrid is None else lpexact.one)
    if k == "default": ok, r = ctx.call(cert.generate_farkas_certificate, rf, mode, sense, t)
    else: ok, r = ctx.call(cert.generate_farkas_certificate, rf, mode, sense, t, tol=ctx.q(tol))
    if not ok: ctx.fail("generation failed with %s (%s %s)" % (type(r).__name__, mode, sense)); return
    v = (pmin if mode == "min" else pmax)(all_values(ctx, ex, saps, n))[init]
    gain = v - t if ge else t - v
    if r is not None:
        ctx.cover("returned")
        dim = len(saps) if (mode == "max") == ge else n
        ctx.check(len(r) == dim, "dimension of the certificate")
        viol, thr = conditions(ctx, rows, saps, n, init, mode, sense, t, list(r), ecs)
        g = Fraction(1, 10**9)
        ctx.check(And([x <= tol + g for x in viol]), "a returned vector is a certificate (%s %s)" % (mode, sense))
        ok, c = ctx.call(cert.check_farkas_certificate, rf, mode, sense, t, r, ctx.q(tol + g))
        ctx.check(ok and c, "a returned vector passes the certificate check (%s %s)" % (mode, sense))
        ctx.check(gain >= 0 - 200 * tol, "nothing is returned for a violated bound (%s %s)" % (mode, sense))
    else:
        ctx.cover("none")
        strict = sense in ("<", ">")
        ctx.check(gain <= (tol if strict else 0) + (0 if ctx.mode == "conc" else Fraction(1, 10**6)), "a certificate is returned whenever the bound holds (%s %s)" % (mode, sense))

def unfinished(ctx, n, saps, combos, options, init=0, kind="mdp"):
    """the back end gives up; its variables hold any values all the same"""
    rows, exact = rf_concrete(ctx, n, saps, options, init)
    ecs = end_components(rows if ctx.mode == "conc" else exact, saps, range(n))
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind)
    cert = ctx.load("switss.certification")
    mode, sense = ctx.choice("combo", combos)
    t, out = ctx.q(Fraction(1, 4)), ctx.choice("outcome", ["infeasible", "unbounded", "undefined", "notsolved", "feasible"])
    ctx.backend(lambda p: (out, [ctx.real("v%d" % i, -1, 1) for i in range(len(p.vars))]))
    ok, r = ctx.call(cert.generate_farkas_certificate, rf, mode, sense, t)
    ctx.cover(out)
    if not ok or r is None: return
    viol, thr = conditions(ctx, rows, saps, n, init, mode, sense, t, list(r), ecs)
    ctx.check(And([x <= Fraction(1, 10**5) + Fraction(1, 10**9) for x in viol]), "a returned vector is a certificate (%s %s)" % (mode, sense))

def interior(ctx, mats):
    """find_interior_point on its own: polyhedra A x <= b with b[0] symbolic"""
    A, b = ctx.choice("system", mats)
    cert = ctx.load("switss.certification.certificates")
    nn = ctx.choice("xgeq0", [False, True]); zv = ctx.choice("zero", [[], [0], [1]])
    b = [ctx.real("b0", -3, 3)] + [ctx.q(x) for x in b[1:]]
    ctx.lp()
    ok, r = ctx.call(cert.find_interior_point, mkmatrix(ctx, [[ctx.q(x) for x in row] for row in A], "dok"), ctx.np.array(b), nn, zv)
    if not ok: ctx.fail("find_interior_point failed with %s" % type(r).__name__); return
    x, opt, strict = r
    t = Fraction(1, 10**6)
    if opt:
        ctx.cover("point")
        res = [sum((ctx.q(a) * x[j] for j, a in enumerate(row)), ctx.q(0)) - b[i] for i, row in enumerate(A)]
        ctx.check(And([v <= t for v in res]), "an optimal answer lies in the polyhedron")
        if nn: ctx.check(And([v >= -t for v in x]), "nonnegative as requested")
        for i in zv: ctx.eq(x[i], 0, "variable fixed to zero")
        if strict: ctx.check(And([v < t for v in res]), "a strict answer is strictly inside")
    else: ctx.cover("no point")

H = []
def add(name, fn, bounds, must=("returned", "none"), **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
EC = ("returned", "none", "end component")
add("conc-1x3", body, "one inner state with three actions, concrete probabilities, symbolic threshold, every optimal solver answer", must=EC, n=1, saps=[(0, 0), (0, 1), (0, 2)], combos=ALL,
    options=D("0:1", "1:1", "0:1/2 1:1/2", "0:1/4 1:1/4 2:1/2"), tols=("default", "1/100"))
add("conc-2x3", body, "two inner states, three pairs", must=EC, n=2, saps=[(1, 0), (0, 0), (0, 1)], combos=ALL,
    options={0: D("1:1", "0:1", "2:1/2 0:1/2"), 1: D("1:1/2 2:1/2", "0:1/2 1:1/4 2:1/4", "1:1"), 2: D("0:1", "1:1", "2:1/4 3:3/4")})
add("dtmc-2", body, "DTMC form, two inner states", n=2, saps=[(1, 0), (0, 0)], combos=ALL, kind="dtmc", init=1, options=D("0:1/2 1:1/2", "2:1/2 0:1/4 3:1/4", "0:1/4 1:1/4 2:1/2", "2:1", "0:1"))
add("ec-3x5", body, "three inner states, one of them in an end component whose index differs from the indices of its actions", must=EC, n=3, saps=[(0, 0), (0, 1), (2, 0), (1, 0), (1, 1)], combos=ALL,
    options={0: D("2:1/2 3:1/4 4:1/4"), 1: D("1:1/2 3:1/2", "0:1/2 2:1/2"), 2: D("3:1/2 1:1/2"), 3: D("1:1", "0:1/2 1:1/2"), 4: D("3:1", "0:1", "4:1/2 3:1/2")})
add("interior", interior, "find_interior_point on fixed matrices with a symbolic right-hand side", must=("point", "no point"), mats=[
    ([[1, 1], [-1, 0], [0, -1]], [0, 0, 0]), ([[1, -1], [-1, 1]], [0, 1]), ([[1, 0], [0, 2], [-1, -1]], [0, 1, 1]), ([[2, -1]], [0])])
add("conc-3x5", body, "three inner states, five pairs", must=EC, n=3, saps=[(2, 0), (0, 0), (1, 0), (1, 1), (0, 4)], init=1, combos=ALL, quick=False, budget=200,
    options={0: D("1:1/2 3:1/2", "2:1/2 3:1/4 4:1/4"), 1: D("1:1", "2:1/2 0:1/2"), 2: D("0:1", "1:1/2 2:1/2"), 3: D("2:1/4 4:3/4", "0:1/2 3:1/2"), 4: D("0:1", "4:1/2 1:1/2")})
add("other-form", body, "a form judged while another form of the same size is used", must=EC, options=TWO_OPTIONS, combos=ALL, decoy=(OTHER, "systems generate"), **TWO)
add("integers", body, "deterministic forms given by integer matrices, two inner states, four pairs", must=EC, options=INTS, combos=ALL, **TWO)
add("unfinished", unfinished, "the back end stops without a proven optimum (five outcomes, any values)", must=("infeasible", "feasible", "notsolved"), combos=ALL, options=TWO_FEW, **TWO)
for nm, f, k in (("mdp", LARGE, "mdp"), ("ec", LARGE_EC, "mdp"), ("dtmc", LARGE_DTMC, "dtmc")):
    add("large-" + nm, body, "one form with twelve inner states (%s), four thresholds, one solver answer" % nm, combos=ALL, tgrid=["1/8", "3/8", "5/8", "15/16"], kind=k, **f)
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals", "the LP back end returns some optimal solution of the problem it is given (any of them)",
    "a bound counts as violated beyond the tolerance when it fails by more than 200 times the tolerance (the per-row slack may accumulate along expected visits)"]
