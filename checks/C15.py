"""Certificate checking is exact and sound."""
from symx.api import *
from symx.gen import *
from C13 import D

def conditions(ctx, rows, saps, n, init, mode, sense, t, vec, ecs):
    """list of violations (positive = violated by that much) of the certificate condition and the
    violation of the threshold row, from the definition"""
    ge = sense in (">=", ">")
    viol = [0 - v for v in vec]
    if (mode == "max") == ge:
        # state-action vector
        out = [ctx.q(0)] * n; inn = [ctx.q(1 if s == init else 0) for s in range(n)]; tgt = ctx.q(0)
        for i, (s, a) in enumerate(saps):
            out[s] = out[s] + vec[i]
            for d in range(n): inn[d] = inn[d] + rows[i].get(d, ctx.q(0)) * vec[i]
            tgt = tgt + rows[i].get(n, ctx.q(0)) * vec[i]
        for s in range(n):
            if mode == "max": viol.append(out[s] - inn[s])
            elif s not in ecs: viol.append(inn[s] - out[s])
        if mode == "min":
            for i, (s, a) in enumerate(saps):
                if s in ecs: viol += [vec[i], 0 - vec[i]]
        thr = t - tgt if mode == "max" else tgt - t
    else:
        for i, (s, a) in enumerate(saps):
            e = rows[i].get(n, ctx.q(0))
            for d in range(n): e = e + rows[i].get(d, ctx.q(0)) * vec[d]
            viol.append(vec[s] - e if mode == "min" else e - vec[s])
        if mode == "min":
            for s in ecs: viol += [vec[s], 0 - vec[s]]
        thr = t - vec[init] if mode == "min" else vec[init] - t
    return viol + [thr], thr

def truth(ctx, ex, saps, n, init, mode, sense, t, margin):
    """the stated bound holds / holds up to margin"""
    vals = all_values(ctx, ex, saps, n)
    v = (pmin if mode == "min" else pmax)(vals)[init]
    return v

def body(ctx, n, saps, combos, symbolic=False, options=None, supports=None, init=0, kind="mdp", tols=("sym", 0), sound=True, reward=False, lo=-1, hi=3, maxk=None, grid=False, decoy=None):
    if symbolic: rows = rf_structure(ctx, n, saps, init=init, supports=supports, maxk=maxk); ex = rows
    else: rows, ex = rf_concrete(ctx, n, saps, options, init)
    if ctx.mode == "conc": ex = rows
    ecs = end_components(ex, saps, range(n))
    if ecs: ctx.cover("end component")
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind, decoy=decoy)
    cert = ctx.load("switss.certification")
    mode, sense = ctx.choice("combo", combos)
    ge = sense in (">=", ">")
    dim = len(saps) if (mode == "max") == ge else n
    # dyadic values on a grid: every sum the real code computes is exact, ties are judged
    G = lambda lo, hi, k: [Fraction(i, k) for i in range(int(lo * k), int(hi * k) + 1)] if grid else None
    t = ctx.real("t", 0, 1, grid=G(0, 1, 16))
    vec = [ctx.real("x%d" % i, lo, hi, grid=G(lo, hi, 4)) for i in range(dim)]
    k = ctx.choice("tol", tols)
    tol = ctx.real("tol", 0, 1, grid=G(0, 1, 4)) if k == "sym" else k
    arr = ctx.np.array(vec)
    if k == "default": ok, r = ctx.call(cert.check_farkas_certificate, rf, mode, sense, t, arr); tol = 1e-8
    else: ok, r = ctx.call(cert.check_farkas_certificate, rf, mode, sense, t, arr, tol)
    if not ok: ctx.fail("checking failed with %s" % type(r).__name__); return
    r = bool(r)
    viol, thr = conditions(ctx, rows, saps, n, init, mode, sense, t, vec, ecs)
    g = ctx.q(Fraction(1, 10**9)) if ctx.mode == "sym" else 5e-10
    if grid: g = 0
    if r:
        ctx.cover("accepted")
        ctx.check(And([v <= tol + g for v in viol]), "an accepted vector satisfies every condition up to the tolerance (%s %s)" % (mode, sense))
        if sense in ("<", ">"): ctx.check(thr < tol + g, "strict threshold")
        if sound and k == 0:
            v = truth(ctx, ex, saps, n, init, mode, sense, t, g)
            m_ = ctx.q(Fraction(1, 10**6)) if ctx.mode == "sym" else 5e-7
            ctx.check(v >= t - m_ if ge else v <= t + m_, "a vector accepted with tolerance zero implies the bound (%s %s)" % (mode, sense))
    else:
        ctx.cover("rejected")
        bad = Or([v > tol - g for v in viol])
        if sense in ("<", ">"): bad = Or([bad, thr >= tol - g])
        ctx.check(bad, "a rejected vector violates a condition (%s %s)" % (mode, sense))

def domain(ctx):
    """thresholds outside [0,1] and vectors of the wrong length are rejected"""
    rows = [{0: ctx.q(Fraction(1, 2)), 2: ctx.q(Fraction(1, 2))}, {1: ctx.q(1)}]
    saps = [(0, 0), (0, 1)]; rows = [{0: ctx.q(Fraction(1, 2)), 1: ctx.q(Fraction(1, 2))}, {1: ctx.q(1)}]
    rf, m = rf_build(ctx, rows, saps, 1)
    cert = ctx.load("switss.certification")
    mode = ctx.choice("mode", ["min", "max", "avg"]); sense = ctx.choice("sense", ["<=", "<", ">=", ">", "="])
    k = ctx.choice("dim", [1, 2, 3]); t = ctx.real("t", -1, 2)
    ok, r = ctx.call(cert.check_farkas_certificate, rf, mode, sense, t, ctx.np.zeros(k))
    want = mode != "avg" and sense != "="
    if want: want = k == (2 if (mode == "max") == (sense in (">=", ">")) else 1)
    good = And(t >= 0, t <= 1) if want else False
    ctx.check(Iff(good, ok), "the arguments are accepted exactly when they are meaningful")
    if not ok: ctx.check(isassert(r), "meaningless arguments fail with an assertion")

ALL = [(m, s) for m in ("min", "max") for s in ("<=", "<", ">=", ">")]
H = []
def add(name, fn, bounds, must=("accepted", "rejected"), **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
add("conc-1x3", body, "one inner state with three actions, concrete dyadic probabilities, every vector in [-1,3]^k, threshold and tolerance", must=("accepted", "rejected", "end component"), n=1, saps=[(0, 0), (0, 1), (0, 2)], combos=ALL,
    options=D("0:1", "1:1", "0:1/2 1:1/2", "0:1/4 1:1/4 2:1/2"))
add("conc-2x3", body, "two inner states, three pairs, concrete probabilities", must=("accepted", "rejected", "end component"), n=2, saps=[(1, 0), (0, 0), (0, 1)], combos=ALL,
    options={0: D("1:1", "0:1", "2:1/2 0:1/2"), 1: D("1:1/2 2:1/2", "0:1/2 1:1/4 2:1/4", "1:1"), 2: D("0:1", "1:1", "2:1/4 3:3/4")}, tols=("sym", 0, "default"))
add("dtmc-2", body, "DTMC form, two inner states, concrete probabilities", n=2, saps=[(1, 0), (0, 0)], combos=ALL, kind="dtmc", init=1, options=D("0:1/2 1:1/2", "2:1/2 0:1/4 3:1/4", "0:1/4 1:1/4 2:1/2", "2:1", "0:1"))
add("sym-1x2", body, "one inner state with two actions, symbolic probabilities", n=1, saps=[(0, 0), (0, 1)], combos=ALL, symbolic=True, tols=("sym", 0))
add("sym-dtmc-2", body, "DTMC form with two inner states, symbolic probabilities", n=2, saps=[(0, 0), (1, 0)], combos=ALL, symbolic=True, tols=("sym",), kind="dtmc", maxk=2)
add("ties-1x3", body, "one inner state with three actions; thresholds, tolerances and vectors are dyadic thresholds, tolerances and vectors, conditions met with equality are judged", must=("accepted", "rejected"), n=1, saps=[(0, 0), (0, 1), (0, 2)], combos=ALL, grid=True, lo=-0.5, hi=2, sound=False,
    options=D("0:1", "1:1", "0:1/2 1:1/2", "0:1/4 1:1/4 2:1/2"))
add("ties-2x3", body, "two inner states, three pairs, dyadic thresholds, tolerances and vectors, conditions met with equality are judged", must=("accepted", "rejected"), n=2, saps=[(1, 0), (0, 0), (0, 1)], combos=ALL, grid=True, lo=-0.5, hi=2, sound=False,
    options={0: D("1:1", "2:1/2 0:1/2"), 1: D("1:1/2 2:1/2", "0:1/2 1:1/4 2:1/4"), 2: D("0:1", "2:1/4 3:3/4")})
add("domain", domain, "modes, senses, vector lengths and symbolic thresholds", must=())
add("conc-3x5", body, "three inner states, five pairs", must=("accepted", "rejected", "end component"), n=3, saps=[(2, 0), (0, 0), (1, 0), (1, 1), (0, 4)], init=1, combos=ALL, quick=False, budget=200,
    options={0: D("1:1/2 3:1/2", "2:1/2 3:1/4 4:1/4"), 1: D("1:1", "2:1/2 0:1/2"), 2: D("0:1", "1:1/2 2:1/2"), 3: D("2:1/4 4:3/4", "0:1/2 3:1/2"), 4: D("0:1", "4:1/2 1:1/2")})
add("other-form", body, "a form judged while another form of the same size is used", options=TWO_OPTIONS, combos=ALL, tols=(0,), decoy=(OTHER, "systems check"), **TWO)
add("integers", body, "deterministic forms given by integer matrices, two inner states, four pairs", options=INTS, combos=ALL, tols=(0,), **TWO)
for nm, f, k in (("mdp", LARGE, "mdp"), ("ec", LARGE_EC, "mdp"), ("dtmc", LARGE_DTMC, "dtmc")):
    add("large-" + nm, body, "one form with twelve inner states (%s)" % nm, combos=ALL, tols=("sym", 0), kind=k, **f)
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals; conditions met or missed by less than 1e-9 are not judged", "vectors range over [-1,3] componentwise, tolerances over [0,1]"]
