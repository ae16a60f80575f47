"""Model construction accepts exactly the valid models."""
from symx.api import *

def exact1(ctx, s):
    if ctx.mode == "sym": return s == 1
    return abs(s - 1) <= 1e-12

def build(ctx, kind, saps, N, fmt, rewards, labels=True, free=None):
    C = len(saps)
    p = [[ctx.real("p%d_%d" % (i, j), -2, 3) if free is None or (i, j) in free else ctx.q(Fraction((2 * j) % N in (i % N, (i + 1) % N), 2)) for j in range(N)] for i in range(C)]
    r = None
    if rewards: r = [ctx.real("r%d" % i, -3, 3) if free is None or i in (1, C - 1) else ctx.q(i) for i in range(C)]
    P = mkmatrix(ctx, p, fmt)
    model = ctx.load("switss.model")
    lts = {"a": {0}, "b": {0, N - 1}} if labels else {}
    lta = {"x": {saps[0]}, "y": set(saps)} if labels else {}
    isa = {sa: i for i, sa in enumerate(saps)}
    rv = None if r is None else (ctx.np.array(r) if ctx.choice("rfmt", [0, 1]) else {i: v for i, v in enumerate(r)})
    if kind == "dtmc":
        kw = {"reward_vector": rv}
        if ctx.choice("explicit", [0, 1]): kw["index_by_state_action"] = isa
        ok, m = ctx.call(model.DTMC, P, label_to_states=lts, **kw)
        lta = {}
    else:
        ok, m = ctx.call(model.MDP, P, isa, lta, lts, reward_vector=rv)
    sums = []
    for i in range(C):
        s = p[i][0]
        for j in range(1, N): s = s + p[i][j]
        sums.append(s)
    inrange = And([And(v >= 0, v <= 1) for row in p for v in row])
    nonneg = And([v >= 0 for v in (r or [])])
    valid = And([exact1(ctx, s) for s in sums] + [inrange, nonneg])
    invalid = Or([Or(s - 1 > 1e-6, s - 1 < -1e-6) for s in sums] + [Not(inrange), Not(nonneg)])
    if ok:
        ctx.cover("accepted")
        ctx.check(Not(invalid), "an invalid model was accepted")
        ctx.check((m.C, m.N) == (C, N), "shape")
        for i in range(C):
            for j in range(N): ctx.eq(m.P[i, j], p[i][j], "stored matrix differs from the given one", tol=1e-12)
        ctx.check(dict(m.index_by_state_action) == isa, "state-action indexing changed")
        ctx.check({k: v for k, v in m.states_by_label.items()} == lts, "state labels changed")
        ctx.check({k: v for k, v in m.actions_by_label.items()} == lta, "action labels changed")
        for s in range(N):
            acts = {a for (t, a) in saps if t == s}
            got = m.actions_by_state
            ctx.check((set(got[s]) if s in got.keys() else set()) == acts, "available actions differ")
            ctx.check(set(m.labels_by_state[s]) == {l for l, ss in lts.items() if s in ss}, "labels by state differ")
        for sa in saps:
            ctx.check(set(m.labels_by_action[sa]) == {l for l, ss in lta.items() if sa in ss}, "labels by action differ")
        if r is not None:
            for i in range(C): ctx.eq(m.reward_vector[i], r[i], "rewards changed", tol=1e-12)
    else:
        ctx.cover("rejected")
        ctx.check(isassert(m), "rejected with %s instead of an assertion error" % type(m).__name__)
        ctx.check(Not(valid), "a valid model was rejected")

def dtmc(ctx, N=2, rewards=False, fmts=("list", "dok")):
    build(ctx, "dtmc", [(i, 0) for i in range(N)], N, ctx.choice("fmt", list(fmts)), rewards)
def mdp(ctx, saps, N, rewards=False, fmts=("dok",), kind="mdp", free=None):
    build(ctx, kind, saps, N, ctx.choice("fmt", list(fmts)), rewards, free=free)

H = []
def add(*a, **k):
    h = Harness(*a, **k); h.must_reach = ("accepted", "rejected"); H.append(h)
add("dtmc-2", dtmc, "DTMC with 2 states, all matrix entries arbitrary reals in [-2,3], five input formats", params={"N": 2, "fmts": ("list", "array", "matrix", "dok", "csr")})
add("dtmc-2-rewards", dtmc, "DTMC with 2 states and rewards, entries in [-2,3], rewards in [-3,3]", params={"N": 2, "rewards": True, "fmts": ("dok",)})
add("mdp-3x2", mdp, "MDP with 2 states and 3 state-action pairs, entries in [-2,3]", params={"saps": [(0, 0), (1, 0), (0, 1)], "N": 2, "fmts": ("list", "csr")})
add("mdp-2x2-rewards", mdp, "MDP with 2 states, 2 state-action pairs (indices permuted) and rewards", params={"saps": [(1, 1), (0, 2)], "N": 2, "rewards": True})
add("mdp-2x3", mdp, "MDP with 3 states of which 2 have actions", params={"saps": [(0, 0), (2, 0)], "N": 3})
add("mdp-3x1-rewards", mdp, "MDP with 1 state, 3 state-action pairs (more pairs than states) and rewards", params={"saps": [(0, 0), (0, 2), (0, 1)], "N": 1, "rewards": True})
add("mdp-3x2-rewards", mdp, "MDP with 2 states, 3 state-action pairs and rewards", params={"saps": [(0, 0), (1, 0), (0, 1)], "N": 2, "rewards": True}, quick=False)
add("dtmc-3", dtmc, "DTMC with 3 states, entries arbitrary reals in [-2,3]", params={"N": 3, "fmts": ("dok",)}, quick=False)
add("mdp-4x3-rewards", mdp, "MDP with 2 states, 4 state-action pairs and rewards", params={"saps": [(0, 0), (1, 0), (0, 1), (1, 3)], "N": 2, "rewards": True}, quick=False)
LS = [((s * 5) % 11, 0) for s in range(11)]
add("large-mdp", mdp, "MDP with 11 states and 14 pairs (two-digit indices), four arbitrary entries and two arbitrary rewards", params={"saps": LS + [(10, 11), (1, 1), (10, 1)], "N": 11, "rewards": True, "fmts": ("dok", "array"), "free": {(10, 3), (10, 10), (13, 2), (1, 6)}})
add("large-dtmc", mdp, "DTMC with 11 states, four arbitrary entries and two arbitrary rewards", params={"saps": [(s, 0) for s in range(11)], "N": 11, "rewards": True, "kind": "dtmc", "fmts": ("list", "dok"), "free": {(10, 5), (10, 10), (1, 1), (1, 6)}})
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals; matrix sizes as stated per harness", "row sums between 1-1e-6 and 1+1e-6 other than exactly 1 may be accepted or rejected"]
