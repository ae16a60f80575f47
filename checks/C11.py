"""The reachability-form consistency check accepts exactly canonical models."""
from symx.api import *
from symx.gen import *

def body(ctx, saps, N, kind, sups=None, inits=((0,),), targets=None, fails=None, orders=None, names=None):
    tl, fl, il = ctx.choice("names", names or [("rf_target", "rf_fail", "init")])
    saps = list(ctx.choice("order", orders)) if orders else list(saps)
    rows = []
    for i, sa in enumerate(saps): rows.append(row(ctx, "r%d" % i, N, supports=sups.get(sa) if sups else None))
    I = set(ctx.choice("init", inits)); T = set(ctx.choice("target", targets or [(N - 2,)])); F = set(ctx.choice("fail", fails or [(N - 1,)]))
    lts = {}
    for n, ss in ((il, I), (tl, T), (fl, F)): lts.setdefault(n, set()).update(ss)
    lts["other"] = set(range(N))
    m = build(ctx, rows, saps, N, lts, None, kind=kind)
    I, T, F = lts[il], lts[tl], lts[fl]
    succ = succ_map(rows, saps)
    C = len(saps)
    def canonical():
        if not (len(I) == len(T) == len(F) == 1 and len(I | T | F) == 3): return False
        if T != {N - 2} or F != {N - 1}: return False
        for s, r in ((N - 2, C - 2), (N - 1, C - 1)):
            own = [i for i, (t, a) in enumerate(saps) if t == s]
            if own != [r] or set(rows[r]) != {s}: return False
        if not closure(succ, I) | F >= set(range(N)): return False
        return backward(succ, T) == set(range(N)) - F
    want = canonical()
    RF = ctx.load("switss.model").ReachabilityForm
    ok, e = ctx.call(RF, m, il, tl, fl)
    if want:
        ctx.cover("canonical")
        ctx.check(ok, "a canonical model was rejected")
        if ok:
            ctx.check(e.initial in I and e.system is m, "initial state or system of the form")
            ctx.check((e.target_label, e.fail_label, e.initial_label) == (tl, fl, il), "labels of the form")
            ctx.check((e.target_state_idx, e.fail_state_idx, e.target_sap_idx, e.fail_sap_idx) == (N - 2, N - 1, C - 2, C - 1), "target and fail indices")
    else:
        ctx.cover("not canonical")
        ctx.check(not ok, "a model that is not in reachability form was accepted")
        if not ok: ctx.check(isassert(e), "rejected with %s instead of an assertion error" % type(e).__name__)
    ok2, e2 = ctx.call(RF.assert_consistency, m, il, tl, fl)
    ctx.check(ok2 == want, "assert_consistency and the constructor disagree")
    if not ok2: ctx.check(isassert(e2), "assert_consistency raised %s" % type(e2).__name__)

H = []
def add(name, bounds, must=("canonical", "not canonical"), **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    h = Harness(name, body, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
D3 = [(0, 0), (1, 0), (2, 0)]
def perms(saps, n):
    from itertools import permutations
    return list(permutations(saps))[:n]
add("dtmc-3", "DTMC, 3 states, every support", saps=D3, N=3, kind="dtmc")
add("dtmc-3-labels", "DTMC, 3 states, every set of initial, target and fail states, few supports", saps=D3, N=3, kind="dtmc", sups={(0, 0): [(1,), (0, 1, 2)], (1, 0): [(1,)], (2, 0): [(2,)]},
    inits=subsets(range(3), False), targets=subsets(range(3), False), fails=subsets(range(3), False))
add("dtmc-2-labels", "DTMC, 2 states: initial, target and fail cannot be distinct", saps=[(0, 0), (1, 0)], N=2, kind="dtmc", must=("not canonical",),
    inits=subsets(range(2), False), targets=subsets(range(2), False), fails=subsets(range(2), False))
add("dtmc-4", "DTMC, 4 states, every support of the inner states, several of target and fail", saps=D3 + [(3, 0)], N=4, kind="dtmc", inits=[(0,), (1,)],
    sups={(2, 0): [(2,), (2, 3), (0,)], (3, 0): [(3,), (2, 3), (1,)]})
add("dtmc-3-order", "DTMC, 3 states, every order of the matrix rows", saps=D3, N=3, kind="dtmc", orders=perms(D3, 6), sups={(0, 0): [(1,), (1, 2), (2,)], (1, 0): [(1,), (0, 1)], (2, 0): [(2,), (0,)]})
M4 = [(0, 0), (0, 1), (1, 0), (2, 0)]
add("mdp-3x4", "MDP, 3 states, the inner one with two actions, every support of these, every row order", saps=M4, N=3, kind="mdp", orders=perms(M4, 24), sups={(1, 0): [(1,)], (2, 0): [(2,)]})
M5 = [(0, 0), (1, 1), (2, 0), (1, 0)]
add("mdp-3-target2", "MDP, 3 states where target or fail has a second action", saps=M5, N=3, kind="mdp", sups={(0, 0): [(1,), (0, 1, 2)]}, must=("not canonical",),
    orders=[[(0, 0), (1, 1), (1, 0), (2, 0)], [(0, 0), (2, 1), (1, 0), (2, 0)], [(0, 0), (1, 0), (2, 0), (1, 1)], [(0, 0), (1, 0), (2, 0), (2, 3)]])
add("mdp-3-missing", "MDP, 3 states where some state has no action", saps=M5, N=3, kind="mdp", orders=[[(0, 0), (1, 0)], [(0, 0), (2, 0)], [(1, 0), (2, 0)], [(0, 0), (1, 3), (2, 1)]], sups={(0, 0): [(1,), (0, 1), (1, 2), (0, 1, 2)]})
add("names", "other label names, coinciding label names", saps=D3, N=3, kind="dtmc", names=[("t", "f", "i"), ("x", "x", "init"), ("init", "rf_fail", "init"), ("rf_target", "init", "init")],
    sups={(0, 0): [(1,), (1, 2), (2,)], (1, 0): [(1,)], (2, 0): [(2,)]})
add("mdp-4x6", "MDP, 4 states, two inner states with two actions each, at most two successors each", saps=[(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (3, 0)], N=4, kind="mdp", quick=False, budget=60,
    sups={**{sa: [c for c in subsets(range(4)) if len(c) <= 2] for sa in [(0, 0), (0, 1), (1, 0), (1, 1)]}, (2, 0): [(2,)], (3, 0): [(3,)]})
add("dtmc-5", "DTMC, 5 states, at most two successors", saps=[(i, 0) for i in range(5)], N=5, kind="dtmc", quick=False, sups={**{(i, 0): [c for c in subsets(range(5)) if len(c) <= 2] for i in range(3)}, (3, 0): [(3,)], (4, 0): [(4,)]})
for nm, f, k in (("mdp", LARGE_EC, "mdp"), ("dtmc", LARGE_DTMC, "dtmc")):
    f = supports_of(f); n, S = f["n"], f["supports"]; sp = f["saps"] + [(n, 0), (n + 1, 0)]
    sups = dict(zip(sp, S + [[(n,)], [(n + 1,)]]))
    sups[(11, 0)] = sups[(11, 0)] + [(n + 1,), (11,)]; sups[(9, 0)] = sups[(9, 0)] + [(1, n)]; sups[(n, 0)] = [(n,), (2, n)]
    add("large-" + nm, "%s with fourteen states: a few supports of three rows" % nm.upper(), saps=sp, N=n + 2, kind=k, sups=sups, inits=[(0,), (10,)])
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals; positive probabilities are arbitrary reals summing to one"]
