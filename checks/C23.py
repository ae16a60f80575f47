"""Expected-reward forms compute optimal expected rewards."""
from symx.api import *
from symx.gen import *
from symx import lpexact
from C12 import slack, rows_of
from C13 import D

def inverse(rows, saps, n, sigma):
    """expected visits: inverse of (I-P) under a memoryless scheduler, states 0..n-1"""
    A = [[Fraction(1 if s == d else 0) - Fraction(rows[sigma[s]].get(d, 0)) for d in range(n)] for s in range(n)]
    return [solve_exact(A, [1 if s == k else 0 for s in range(n)]) for k in range(n)]   # columns
def reward_values(ctx, rows, saps, n, rew):
    out = []
    for sg in schedulers(saps, n):
        cols = inverse(rows, saps, n, sg)
        v = []
        for s in range(n):
            e = ctx.q(0)
            for k in range(n):
                if cols[k][s] != 0: e = e + ctx.q(cols[k][s]) * rew[sg[k]]
            v.append(e)
        out.append(v)
    return out
def flows(rows, saps, n, init):
    out = []
    for sg in schedulers(saps, n):
        A = [[Fraction(1 if s == t else 0) - Fraction(rows[sg[t]].get(s, 0)) for t in range(n)] for s in range(n)]
        y = solve_exact(A, [1 if s == init else 0 for s in range(n)])
        out.append([y[saps[i][0]] if sg[saps[i][0]] == i else Fraction(0) for i in range(len(saps))])
    return out

def values(ctx, rf, exact, rows, saps, n, init, rew, flow=True):
    """compares the reward and visit vectors of the form with the definition (inner states 0..n-1)"""
    vals = reward_values(ctx, exact, saps, n, rew)
    lo, hi = pmin(vals), pmax(vals)
    for w, f, want in (("min", rf.rew_min, lo), ("max", rf.rew_max, hi), ("min", rf.max_z_state, lo)):
        ctx.lp(lpexact.contract([want]))
        ok, x = ctx.call(f)
        if not ok: ctx.fail("rew_%s failed with %s" % (w, type(x).__name__)); return
        ctx.check(len(x) == n, "one reward per state")
        for s in range(n): ctx.eq(x[s], want[s], "rew_%s is the scheduler optimum" % w, tol=Fraction(1, 10**5))
    if not flow: return
    ctx.lp(lpexact.contract([lo]))
    ok, v = ctx.call(rf.max_z_state_action)
    if not ok: ctx.fail("max_z_state_action failed with %s" % type(v).__name__); return
    for i, (s, a) in enumerate(saps):
        e = rew[i]
        for d in range(n): e = e + rows[i].get(d, ctx.q(0)) * lo[d]
        ctx.eq(v[i], e, "one-step rewards", tol=Fraction(1, 10**5))
    ctx.lp(lpexact.contract(flows(exact, saps, n, init)))
    seen = {}
    orig = rf.max_y_state_action
    def spy(*a, **k): seen["y"] = orig(*a, **k); return seen["y"]
    rf.max_y_state_action = spy
    ok, ys = ctx.call(rf.max_y_state)
    if not ok: ctx.fail("max_y_state failed with %s" % type(ys).__name__); return
    if "y" not in seen: return
    y = seen["y"]; t = ctx.q(0); out = [ctx.q(0)] * n; inn = [ctx.q(1 if s == init else 0) for s in range(n)]
    for i, (s, a) in enumerate(saps):
        ctx.check(y[i] >= -Fraction(1, 10**6), "the flow is nonnegative")
        out[s] = out[s] + y[i]; t = t + rew[i] * y[i]
        for d in range(n): inn[d] = inn[d] + rows[i].get(d, ctx.q(0)) * y[i]
    for s in range(n):
        ctx.le(out[s], inn[s], "the flow satisfies the flow constraints")
        ctx.eq(ys[s], out[s], "the per-state flow is the sum over the state's actions")
    ctx.eq(t, hi[init], "the flow attains the maximal expected reward", tol=Fraction(1, 10**4))

def systems(ctx, rf, rows, saps, n, init, rew, hist):
    h = ctx.choice("history", hist)
    C = len(saps)
    z = [ctx.real("z%d" % i, -3, 3) for i in range(n)]; y = [ctx.real("y%d" % i, -3, 3) for i in range(C)]
    got = []
    for k, op in enumerate(h):
        t = ctx.real("t%d" % k, -1, 8)
        f = {"z": rf.fark_z_constraints, "y": rf.fark_y_constraints}.get(op)
        ok, r = ctx.call(f, t) if f else ctx.call(rf.fark_constraints, t, op)
        if not ok: ctx.fail("constructing the system failed with %s" % type(r).__name__); return
        got.append((op, t, r))
    eps = ctx.q(Fraction(1, 1000) if ctx.mode == "sym" else Fraction(1, 2000))
    for op, t, (M, rhs) in got:
        if op in ("z", "min"):
            want = []
            for i, (s, a) in enumerate(saps):
                e = rew[i]
                for d in range(n): e = e + rows[i].get(d, ctx.q(0)) * z[d]
                want.append((z[s], e))
            want.append((t, z[init])); have = rows_of(ctx, M, rhs, z)
        else:
            out = [ctx.q(0)] * n; inn = [ctx.q(1 if s == init else 0) for s in range(n)]; tgt = ctx.q(0)
            for i, (s, a) in enumerate(saps):
                out[s] = out[s] + y[i]; tgt = tgt + rew[i] * y[i]
                for d in range(n): inn[d] = inn[d] + rows[i].get(d, ctx.q(0)) * y[i]
            want = list(zip(out, inn)) + [(t, tgt)]; have = rows_of(ctx, M, rhs, y)
        ctx.check(have is not None, "shape of the system (%s)" % op)
        if have is None: continue
        w, g = slack(want), slack(have)
        ctx.check(Not(And(w >= eps, g < -eps)), "the %s-system excludes a vector that satisfies the conditions" % op)
        ctx.check(Not(And(g >= eps, w < -eps)), "the %s-system admits a vector that violates the conditions" % op)

def body(ctx, n, saps, options, part, init=0, kind="mdp", rewards=None, via="reduce", hist=None, flow=True):
    """a system with states 0..n-1 and the target state n (absorbing)"""
    rows = []
    num = (lambda x: x if type(x) is int else ctx.q(Fraction(x)))
    for i in range(len(saps)): rows.append({c: p if type(p) is int else Fraction(p) for c, p in ctx.choice("row%d" % i, options[i] if isinstance(options, dict) else options).items()})
    succ = succ_map(rows, saps)
    if not closure(succ, {init}) >= set(range(n + 1)) or end_components(rows, saps, range(n)) or not set(range(n)) <= backward(succ, {n}): ctx.skip()
    exact = rows; rows = [{c: num(p) for c, p in r.items()} for r in rows]
    if ctx.mode == "conc": exact = [{c: Fraction(p).limit_denominator(10**6) for c, p in r.items()} for r in rows]
    rew = [ctx.real("rew%d" % i, 0, 100) if rewards is None or rewards[i] is None else num(rewards[i]) for i in range(len(saps))]
    model = ctx.load("switss.model")
    full = rows + [{n: 1 if all(type(p) is int for r in rows for p in r.values()) else ctx.q(1)}]
    tlabel = ctx.choice("target label", ["goal", "rrf_target"]) if via == "from" else "goal"
    m = build(ctx, full, list(saps) + [(n, 0)], n + 1, {"init": {init}, tlabel: {n}, "l": {0, n}}, None, ctx.np.array(rew + [0 if all(type(x) is int for x in rew) else ctx.q(0)]), kind=kind)
    if via == "reduce":
        nl = ctx.choice("new label", [None, "rt"])
        ok, r = ctx.call(model.RewardReachabilityForm.reduce, m, "init", "goal", *([nl] if nl else []))
        if not ok: ctx.fail("building the reward form failed with %s" % type(r).__name__); return
        rf, smap, samap = r
        ctx.check(rf.target_label == (nl or "rrf_target"), "the target label is the given one")
        ctx.check(len(rf.system.states_by_label[nl or "rrf_target"]) == 1, "the target state carries the target label")
        # the old target is an inner state of the form; map everything back
        inner = {s: smap[s] for s in range(n + 1)}; sap = dict(rf.system.index_by_state_action)
        perm = [None] * (n + 1)
        N2, saps2 = n + 1, [None] * (len(saps) + 1)
        rows2, ex2, rew2 = [None] * (len(saps) + 1), [None] * (len(saps) + 1), [None] * (len(saps) + 1)
        for i, (s, a) in enumerate(list(saps) + [(n, 0)]):
            j = sap[samap[(s, a)]]; saps2[j] = (inner[s], samap[(s, a)][1])
            rows2[j] = {N2: ctx.q(1)} if s == n else {inner[d]: p for d, p in rows[i].items()}
            ex2[j] = {N2: Fraction(1)} if s == n else {inner[d]: p for d, p in exact[i].items()}
            rew2[j] = ctx.q(0) if s == n else rew[i]
        rows, exact, rew, saps, n, init = rows2, ex2, rew2, saps2, N2, inner[init]
    elif via == "form":
        # the reward form is put together from a form and a vector (or list) of rewards
        rform, _ = rf_build(ctx, rows, saps, n, init=init, kind=kind)
        given = list(rew) if ctx.choice("rewards as", ["vector", "list"]) == "list" else ctx.np.array(rew)
        ok, rf = ctx.call(model.RewardReachabilityForm, rform, given)
        if not ok: ctx.fail("building the reward form failed with %s" % type(rf).__name__); return
    else:
        before = sorted(m.P.items()) if ctx.mode == "conc" else sorted(k for k, v in m.P.items())
        ok, rf = ctx.call(model.RewardReachabilityForm.fromsystem, m, "init", *([tlabel] if tlabel != "rrf_target" else []))
        if not ok: ctx.fail("building the reward form failed with %s" % type(rf).__name__); return
        ctx.check(m.N == n + 1 and m.P.shape == (len(saps) + 1, n + 1), "the given system is not changed")
    ctx.cover("built")
    ctx.check(rf.initial == init, "initial state")
    if part == "values": values(ctx, rf, exact, rows, saps, n, init, rew, flow)
    else: systems(ctx, rf, rows, saps, n, init, rew, hist)

def refusal(ctx, n, saps, supports, kind="mdp", via="reduce", init=0):
    """states 0..n-1, target n, sink n+1: built exactly when no scheduler misses the target"""
    sink = via == "reduce"
    N = n + 1 + sink
    rows = []
    for i in range(len(saps)):
        rows.append(row(ctx, "p%d" % i, N, supports=supports[i]))
    full = rows + [{n: ctx.q(1)}] + ([{n + 1: ctx.q(1)}] if sink else [])
    pairs = list(saps) + [(n, 0)] + ([(n + 1, 0)] if sink else [])
    succ = succ_map(rows, saps)
    R = closure(succ, {init}, {n})
    if n not in R: ctx.skip()
    if not sink and R != set(range(n + 1)): ctx.skip()
    misses = not R <= backward(succ, {n}) or bool(end_components(rows, saps, R - {n}))
    model = ctx.load("switss.model")
    m = build(ctx, full, pairs, N, {"init": {init}, "goal": {n}}, None, ctx.np.array([ctx.q(1)] * len(saps) + [ctx.q(0)] * (1 + sink)), kind=kind)
    ok, r = ctx.call(model.RewardReachabilityForm.reduce if sink else model.RewardReachabilityForm.fromsystem, m, "init", "goal")
    if misses: ctx.cover("refused"); ctx.check(not ok and isassert(r), "a model in which the target can be missed is refused")
    else: ctx.cover("built"); ctx.check(ok, "building the reward form failed")

H = []
def add(name, bounds, fn=body, must=("built",), **k):
    q = k.pop("quick", True); b = k.pop("budget", 90)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
R3 = {0: D("1:1", "1:1/2 2:1/2", "0:1/2 1:1/2"), 1: D("2:1/2 0:1/2", "2:1", "2:1/4 1:3/4"), 2: D("2:1", "0:1/4 2:3/4")}
add("values-2x3", "two states and a target, three pairs, concrete probabilities, symbolic rewards, reduced", n=2, saps=[(0, 0), (1, 0), (1, 1)], part="values", options=R3)
add("values-init1", "the same with another initial state, as a system", n=2, saps=[(1, 0), (0, 0), (1, 1)], part="values", via="from", init=1, options={0: D("0:1/2 2:1/2", "0:1"), 1: D("2:1", "1:1/2 2:1/2"), 2: D("0:1/4 1:1/4 2:1/2")})
add("values-dtmc-2", "DTMC, two states and a target, symbolic rewards, reduced", n=2, saps=[(0, 0), (1, 0)], part="values", kind="dtmc", options=R3)
add("values-3x5", "three states, five pairs", n=3, saps=[(1, 0), (0, 0), (2, 3), (0, 1), (2, 1)], part="values", init=1, flow=False,
    options={0: D("0:1/2 2:1/2", "0:1/4 1:1/4 2:1/2"), 1: D("3:1", "2:1/2 0:1/2"), 2: D("3:1/2 0:1/2"), 3: D("2:1", "1:1/4 3:3/4"), 4: D("3:1/4 2:3/4", "3:1")})
add("fromsystem", "two states and a target given as the last state", n=2, saps=[(1, 0), (0, 0), (0, 1)], part="values", via="from", flow=False,
    options={0: D("2:1/2 0:1/2", "2:1"), 1: D("1:1", "0:1/2 1:1/2"), 2: D("2:1", "1:1/2 2:1/2")})
add("systems", "constraint systems of a form with two inner states, call histories with symbolic thresholds and vectors", n=2, saps=[(1, 0), (0, 0), (0, 1)], part="systems", via="from", rewards=["3", "1/2", "0"],
    options={0: D("2:1/2 0:1/2"), 1: D("1:1", "0:1/2 1:1/2"), 2: D("1:1/2 2:1/2")}, hist=[("z",), ("y",), ("min", "max"), ("z", "y", "z"), ("y", "y"), ("max", "min"), ("y", "z", "y")])
add("systems-init1", "the same with another initial state", n=2, saps=[(1, 0), (0, 0), (1, 1)], part="systems", via="from", init=1, rewards=["3", "1/2", "1"],
    options={0: D("0:1/2 2:1/2", "0:1"), 1: D("2:1", "1:1/2 2:1/2"), 2: D("0:1/4 1:1/4 2:1/2")}, hist=[("z",), ("y",), ("min", "max")])
add("systems-reduced-init1", "the same, reduced form", n=2, saps=[(1, 0), (0, 0), (1, 1)], part="systems", init=1, options={0: D("0:1/2 2:1/2", "0:1"), 1: D("2:1", "1:1/2 2:1/2"), 2: D("0:1/4 1:1/4 2:1/2")}, hist=[("z", "y")])
RF = {0: [(1,), (1, 2), (2, 3), (0, 2), (0, 1)], 1: [(0,), (2,), (1, 3), (1, 2), (0, 2, 3)], 2: [(1,), (2,), (0, 1), (3,)]}
add("refused", "models with a sink or end components apart from the target: two states, three pairs, symbolic probabilities", fn=refusal, must=("built", "refused"), n=2, saps=[(0, 0), (1, 0), (1, 1)], supports=RF)
add("refused-dtmc", "DTMCs with a sink: two states, every support", fn=refusal, must=("built", "refused"), n=2, saps=[(0, 0), (1, 0)], kind="dtmc", supports={i: [s for s in subsets(range(4)) if s] for i in range(2)})
add("refused-from", "systems with end components apart from the target: two states, three pairs", fn=refusal, must=("built", "refused"), via="from", n=2, saps=[(0, 0), (1, 0), (1, 1)], supports={i: [s for s in subsets(range(3)) if s] for i in range(3)})
add("systems-sym", "constraint systems with symbolic rewards, reduced form", n=2, saps=[(0, 0), (1, 0), (1, 1)], part="systems", options=R3, hist=[("z", "y")])
add("systems-dtmc", "constraint systems of a DTMC form", n=2, saps=[(0, 0), (1, 0)], part="systems", kind="dtmc", options=R3, hist=[("z", "y"), ("max", "min")])
add("values-3x6", "three states with two actions each", n=3, saps=[(1, 0), (0, 0), (2, 3), (0, 1), (2, 1), (1, 1)], part="values", init=1, quick=False, budget=400,
    options={0: D("0:1/2 2:1/2", "0:1/4 1:1/4 2:1/2"), 1: D("3:1", "2:1/2 0:1/2"), 2: D("3:1/2 0:1/2"), 3: D("2:1", "1:1/4 3:3/4"), 4: D("3:1/4 2:3/4", "3:1"), 5: D("0:1", "3:1/2 1:1/2")})
for part, v in (("systems", "from"), ("systems", "reduce"), ("values", "from"), ("values", "reduce")):
    add("integers-%s-%s" % (part, v), "deterministic models with integer rewards, given by integer matrices and vectors" + (" (as a system)" if v == "from" else ""), n=2, saps=[(1, 0), (0, 0), (0, 1)], part=part, via=v, rewards=[3, 2, 0],
        options={0: moves(2, 0), 1: moves(1, 2), 2: moves(2, 1)}, flow=part != "values" or v == "reduce", hist=[("z",), ("y",), ("z", "y", "z")])
add("integer-rewards", "integer rewards with fractional probabilities", n=2, saps=[(1, 0), (0, 0), (0, 1)], part="systems", via="from", rewards=[3, 2, 1], options={0: D("2:1/2 0:1/2"), 1: D("1:1", "0:1/2 1:1/2"), 2: D("1:1/2 2:1/2")}, hist=[("z", "y")])
for part in ("systems", "values"):
    add("form-%s" % part, "forms put together from a reachability form and rewards", n=2, saps=[(1, 0), (0, 0), (0, 1)], part=part, via="form", rewards=["3", "1/2", "0"], options={0: D("2:1/2 0:1/2", "2:1"), 1: D("1:1", "0:1/2 1:1/2"), 2: D("1:1/2 2:1/2")}, hist=[("z", "y")])
    add("integers-form-%s" % part, "the same with integer matrices and integer rewards", n=2, saps=[(1, 0), (0, 0), (0, 1)], part=part, via="form", rewards=[3, 2, 0], options={0: moves(2, 0), 1: moves(1, 2), 2: moves(2, 1)}, hist=[("z",), ("y",)])
def onto(d):
    """the target and the fail state of a large form are merged"""
    rows = {}
    for i, o in d["options"].items():
        r = {}
        for c, p in o[0].items(): c = min(c, d["n"]); r[c] = r.get(c, 0) + p
        rows[i] = [r]
    return dict(n=d["n"], saps=d["saps"], options=rows)
RL, RLD = onto(large(n=11)), onto(large(kind="dtmc", n=11))
RW = [str(Fraction(1 + (7 * i) % 12, 2)) for i in range(20)]
for v in ("reduce", "from"):
    add("large-dtmc-" + v, "DTMC forms with eleven inner states, three symbolic rewards", kind="dtmc", part="values", via=v, rewards=[None if i in (0, 4, 10) else r for i, r in enumerate(RW)], flow=False, **RLD)
    add("large-values-" + v, "forms with eleven inner states and two-digit actions, concrete rewards", part="values", via=v, rewards=RW, flow=False, **RL)
    add("large-systems-" + v, "their constraint systems, symbolic vectors and thresholds", part="systems", via=v, rewards=RW, hist=[("z", "y")], **RL)
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals", "rewards of the original target states are zero (the reduced form keeps them as inner states in front of its own target)",
    "the LP back end returns some feasible point at least as good as the true optimum (contains every optimal solution)"]
