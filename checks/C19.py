"""Extracted subsystems are the supersystem restricted to the certificate."""
from symx.api import *
from symx.gen import *
from C13 import D

def check_sub(ctx, rf, rows, saps, n, init, keep, sub, lts, lta, tol):
    keep = sorted(keep); new = {s: i for i, s in enumerate(keep)}; k = len(keep)
    sysm = sub.system
    kept = [(i, s, a) for i, (s, a) in enumerate(saps) if s in new]
    ctx.check(sysm.N == k + 2 and sysm.C == len(kept) + 2, "the subsystem has the kept states, their actions, target and fail")
    if sysm.N != k + 2 or sysm.C != len(kept) + 2: return
    ctx.check(type(sysm).__name__ == type(rf.system).__name__, "the model type is kept")
    ctx.check(sub.initial == new[init] and sub.target_state_idx == k and sub.fail_state_idx == k + 1, "initial, target and fail state of the subsystem")
    isa = dict(sysm.index_by_state_action)
    ctx.check(set(isa) == {(new[s], a) for i, s, a in kept} | {(k, 0), (k + 1, 0)}, "exactly the actions of the kept states")
    if set(isa) != {(new[s], a) for i, s, a in kept} | {(k, 0), (k + 1, 0)}: return
    P = sysm.P
    for i, s, a in kept:
        r, j = rows[i], isa[(new[s], a)]
        fail = r.get(n + 1, ctx.q(0)); any_fail = n + 1 in r
        for d in range(n):
            if d in new: ctx.eq(P[j, new[d]], r.get(d, ctx.q(0)), "probabilities among kept states are unchanged", tol=1e-12)
            elif d in r: fail = fail + r[d]; any_fail = True
        ctx.eq(P[j, k], r.get(n, ctx.q(0)), "probabilities to the target are unchanged", tol=1e-12)
        ctx.eq(P[j, k + 1], fail, "the remaining probability goes to fail", tol=tol)
        if not any_fail: ctx.check(P[j, k + 1] == 0, "no transition to fail is invented")
        else: ctx.check(P[j, k + 1] > 0, "the transition to fail exists")
    ctx.eq(P[isa[(k, 0)], k], 1, "the target is absorbing"); ctx.eq(P[isa[(k + 1, 0)], k + 1], 1, "fail is absorbing")
    sb = sysm.states_by_label; ab = sysm.actions_by_label
    for l, ss in lts.items():
        ctx.check({s for s in sb[l] if s < k} == {new[s] for s in ss if s in new}, "state labels of the kept states are kept")
    for i, s, a in kept:
        want = {l for l, xs in lta.items() if (s, a) in xs}
        ctx.check(set(sysm.labels_by_action[(new[s], a)]) == want, "action labels of the kept states are kept")
    for l, xs in lta.items():
        ctx.check(set(ab[l]) == {(new[s], a) for s, a in xs if s in new}, "action labels keep their meaning")
    ctx.check(set(ab.keys()) <= set(lta), "no action labels are invented")

def body(ctx, n, saps, symbolic, supports=None, options=None, init=0, kind="mdp", maxk=None, forms=("min", "max"), noise=None, lts=None, lta=None, reward=False, reach=False, checks=(True, False), decoy=None, patterns=None):
    if symbolic:
        rows = rf_structure(ctx, n, saps, init=init, supports=supports, maxk=maxk); exact = rows
        if noise:
            # row sums off by at most 4e-10, as the model constructor allows
            for i, r in enumerate(rows):
                if len(r) > 1 and i in noise:
                    e = ctx.real("e%d" % i, Fraction(-4, 10**10), Fraction(4, 10**10)); c = min(r)
                    r[c] = r[c] + e
                    ctx.assume(And(r[c] > 0, r[c] <= 1))
    else: rows, exact = rf_concrete(ctx, n, saps, options, init)
    lts = lts or {"a": {0}, "b": {0, n - 1}}
    lta = {} if kind == "dtmc" else (lta or {"x": {saps[0]}, "y": {saps[0], saps[-1]}})
    rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind, decoy=decoy, lts=lts, lta=lta)
    prob = ctx.load("switss.problem")
    form = ctx.choice("form", forms)
    size = n if form == "min" else len(saps)
    c = [ctx.real("c%d" % i, -1, 2) for i in range(size)] if patterns is None else []
    if patterns is not None:
        # entries of a few states are arbitrary, the others fixed
        pat, seen = ctx.choice("pattern", patterns), set()
        for i in range(size):
            s = i if form == "min" else saps[i][0]
            c.append(ctx.real("c%d" % i, -1, 2) if pat[s] == "?" and s not in seen else ctx.q(Fraction(1, 2) if pat[s] == "+" else 0)); seen.add(s)
    ign = ctx.choice("ignore", [not x for x in checks])
    if reward:
        RR = ctx.load("switss.model").RewardReachabilityForm
        rf_ = RR(rf, ctx.np.array([ctx.q(1)] * len(saps)))
    else: rf_ = rf
    ok, S = ctx.call(prob.Subsystem, rf_, ctx.np.array(c), form, ign)
    if not ok: ctx.fail("constructing the subsystem failed with %s" % type(S).__name__); return
    mask = S.subsystem_mask
    pos = [bool(v > 0) for v in c]
    keep = {s for s in range(n) if (pos[s] if form == "min" else any(pos[i] for i, (t, a) in enumerate(saps) if t == s))}
    ctx.check(len(mask) == n and {s for s in range(n) if mask[s]} == keep, "the subsystem contains exactly the states with a positive entry")
    if init not in keep: return
    sub_rows = {i: {d for d in rows[i] if d in keep or d == n} | ({n + 1} if any(d not in keep and d != n for d in rows[i]) else set()) for i, (s, a) in enumerate(saps) if s in keep}
    succ = {}
    for i, ds in sub_rows.items(): succ.setdefault(saps[i][0], set()).update(ds)
    canonical = closure(succ, {init}) >= keep | {n} and keep <= backward(succ, {n})
    ok, sub = ctx.call(lambda: S.subsys)
    if not ok:
        ctx.check(isassert(sub) and not ign and not canonical, "extraction fails only for subsystems that are no reachability form, got %s" % type(sub).__name__)
        return
    ctx.check(ign or canonical, "subsystems that are no reachability form are rejected")
    if not canonical: ctx.cover("not canonical")
    ctx.cover("extracted")
    tol = Fraction(1, 10**9) if noise else Fraction(1, 10**11)
    check_sub(ctx, rf, rows, saps, n, init, keep, sub, {**lts, "init": {init}}, lta, tol)
    ctx.check(S.subsys is sub, "the subsystem is computed once")
    have = {**lts, "init": {init} | lts.get("init", set()), "rf_target": {n}, "rf_fail": {n + 1}}
    ctx.check({l: set(m.states_by_label[l]) for l in have} == have and all(set(m.labels_by_state[s]) == {l for l in have if s in have[l]} for s in range(n + 2)) and {l: set(m.actions_by_label[l]) for l in lta} == lta, "extraction changes the labels of the form")
    if reach and canonical:
        ctx.lp()
        new = sorted(keep)
        for w in ("min", "max"):
            lim = (pmin if w == "min" else pmax)(all_values(ctx, exact if ctx.mode == "sym" else rows, saps, n))
            ok, x = ctx.call(sub.pr_min if w == "min" else sub.pr_max)
            if not ok: ctx.fail("pr_%s failed with %s" % (w, type(x).__name__)); continue
            for i, s in enumerate(new): ctx.le(x[i], lim[s], "probabilities in the subsystem do not exceed those of the supersystem")
def shape(ctx, n, saps):
    """certificates of the wrong length are rejected"""
    rows = [{d: ctx.q(1)} for d in [n] * len(saps)]
    rows = [{(s + 1) if s + 1 < n else n: ctx.q(1)} for s, a in saps]
    rf, m = rf_build(ctx, rows, saps, n)
    prob = ctx.load("switss.problem")
    form = ctx.choice("form", ["min", "max", "avg"]); k = ctx.choice("len", range(0, len(saps) + 3))
    ok, S = ctx.call(prob.Subsystem, rf, ctx.np.array([ctx.q(1)] * k), form)
    ctx.check(ok == (form != "avg" and k == (n if form == "min" else len(saps))), "exactly the vectors of the right length are accepted")
    if not ok: ctx.check(isassert(S), "other vectors fail with an assertion")

H = []
def add(name, fn, bounds, must=("extracted",), **k):
    q = k.pop("quick", True); b = k.pop("budget", 90)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
NC = ("extracted", "not canonical")
add("sym-2x3", body, "two inner states, three pairs, selected supports, symbolic probabilities, every certificate vector", must=NC, n=2, saps=[(1, 0), (0, 0), (0, 1)], symbolic=True,
    supports=[[(2,), (0, 1, 3), (0, 2, 3), (2, 3)], [(1,), (1, 2), (0, 1, 2, 3)], [(2,), (0, 3), (1, 3), (0, 1)]], init=0)
add("sym-dtmc-2", body, "DTMC form with two inner states, every support", must=NC, n=2, saps=[(0, 0), (1, 0)], symbolic=True, kind="dtmc")
add("noise", body, "rows that sum to one only up to 4e-10", n=2, saps=[(0, 0), (1, 0), (0, 1)], symbolic=True, noise=(0, 1), supports=[[(0, 1), (1, 2), (1, 2, 3)], [(0, 2), (2, 3), (0, 1, 2)], [(0, 1)]], checks=(True,))
add("conc-3x4", body, "three inner states, four pairs, initial state 1, labels on states and actions", must=NC, n=3, saps=[(2, 0), (0, 0), (1, 1), (1, 0)], symbolic=False, init=1,
    options={0: D("3:1", "0:1/2 4:1/2"), 1: D("1:1/2 2:1/2", "0:1/4 3:1/2 1:1/4"), 2: D("0:1", "0:1/2 2:1/4 1:1/4"), 3: D("2:1/2 3:1/4 4:1/4", "1:1/2 0:1/2")},
    lts={"a": {0, 2}, "b": {1}, "c": {0, 1, 2}}, lta={"x": {(2, 0), (1, 1)}, "y": {(1, 1), (1, 0)}, "z": {(0, 0)}}, forms=("min",))
add("conc-3x4-max", body, "the same with state-action certificates", must=NC, n=3, saps=[(2, 0), (0, 0), (1, 1), (1, 0)], symbolic=False, init=1,
    options={0: D("0:1/2 4:1/2"), 1: D("1:1/2 2:1/2", "0:1/4 3:1/2 1:1/4"), 2: D("0:1/2 2:1/4 1:1/4"), 3: D("2:1/2 3:1/4 4:1/4")},
    lts={"a": {0, 2}, "b": {1}, "c": {0, 1, 2}}, lta={"x": {(2, 0), (1, 1)}, "y": {(1, 1), (1, 0)}, "z": {(0, 0)}}, forms=("max",))
add("reach", body, "probabilities in the subsystem", n=2, saps=[(1, 0), (0, 0), (0, 1)], symbolic=False, reach=True, checks=(True,), forms=("min",),
    options={0: D("1:1/2 2:1/2", "2:1/2 0:1/2"), 1: D("1:1/2 2:1/2", "0:1/2 1:1/4 2:1/4"), 2: D("1:1", "2:1/4 3:3/4", "0:1")})
add("reward", body, "supersystem given as a reward form", n=2, saps=[(0, 0), (1, 0), (1, 1)], symbolic=False, reward=True, options={0: D("1:1"), 1: D("2:1/2 0:1/2"), 2: D("2:1")})
add("shape", shape, "certificate lengths and forms", must=(), n=2, saps=[(0, 0), (1, 0), (1, 1)])
add("sym-2x4", body, "two inner states, four pairs, at most three successors", must=NC, n=2, saps=[(1, 0), (0, 0), (0, 1), (1, 5)], symbolic=True, quick=False, budget=500, init=1, maxk=3, forms=("max",), checks=(False,),
   supports=[[(2,), (0, 1, 3), (2, 3)], [(1,), (1, 2), (0, 1, 2)], [(2,), (0, 3), (1, 3)], [(0,), (0, 2), (1, 2, 3)]])
add("other-form", body, "a form judged while a subsystem of another form of the same size is extracted", must=("extracted",), symbolic=False, options=TWO_OPTIONS, decoy=(OTHER, "subsystem"), **TWO)
add("integers", body, "deterministic forms given by integer matrices, two inner states, four pairs", must=("extracted",), symbolic=False, options=INTS, **TWO)
for nm, f, k in (("mdp", LARGE, "mdp"), ("ec", LARGE_EC, "mdp"), ("dtmc", LARGE_DTMC, "dtmc")):
    add("large-" + nm, body, "one form with twelve inner states (%s), certificates with three arbitrary entries" % nm, must=NC, symbolic=False, patterns=["+++?++++++??", "++0+++++++??", "+?+0++++?+++"], kind=k, **f)
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals; certificate entries range over [-1,2]", "certificates that do not keep the initial state induce no reachability form; only their mask is checked"]
