"""Harness body for ReachabilityForm.reduce, shared by C09 (canonical form) and C10 (behaviour preserved)."""
from symx.api import *
from symx.gen import *

def check_canonical(ctx, rf, N, initial_label, tl="rf_target", fl="rf_fail"):
    m = rf.system
    C2, N2 = m.P.shape
    ctx.check((m.C, m.N) == (C2, N2), "shape attributes")
    lab = m.states_by_label
    ctx.check(set(lab[tl]) == {N2 - 2}, "target label must be on the last but one state only")
    ctx.check(set(lab[fl]) == {N2 - 1}, "fail label must be on the last state only")
    ctx.check(len(lab[initial_label]) == 1, "exactly one initial state")
    sap = m.index_by_state_action
    ctx.check(sorted(sap.values()) == list(range(C2)), "state-action indices are 0..C-1")
    if sorted(sap.values()) != list(range(C2)): return None
    ctx.check(sap.inv[C2 - 2][0] == N2 - 2 and sap.inv[C2 - 1][0] == N2 - 1, "target and fail rows are the last two")
    ctx.check([s for s, a in sap.keys()].count(N2 - 2) == 1 and [s for s, a in sap.keys()].count(N2 - 1) == 1, "target and fail have one action")
    ctx.check({s for s, a in sap.keys()} == set(range(N2)), "every state has an action")
    rows = {i: {} for i in range(C2)}
    for (i, j), p in m.P.items():
        if p > 0: rows[i][j] = p
        else: ctx.check(p >= 0, "negative probability")
    ctx.check(set(rows[C2 - 2]) == {N2 - 2}, "target is absorbing")
    ctx.check(set(rows[C2 - 1]) == {N2 - 1}, "fail is absorbing")
    for i in range(C2):
        s = 0
        for p in rows[i].values():
            s = s + p
            ctx.check(p <= 1 + 1e-9, "probability above one")
        ctx.eq(s, 1, "row sums to one", tol=Fraction(2, 10**9))
    succ = {}
    for (s, a), i in sap.items(): succ.setdefault(s, set()).update(rows[i])
    fwd = closure(succ, lab[initial_label])
    ctx.check(fwd >= set(range(N2 - 1)), "every state but fail is reachable from the initial state")
    bwd = backward(succ, {N2 - 2})
    ctx.check(bwd == set(range(N2 - 1)), "every state but fail reaches the target")
    return rows

def reduce_body(ctx, part, saps, N, inits, targets, kind, noise=False, rewards=False, labels=True, maxk=None, supports=None, again=None):
    nz = ctx.real("noise", Fraction(-4, 10**10), Fraction(4, 10**10)) if noise else None
    rows = []
    for i in range(len(saps)): rows.append(row(ctx, "r%d" % i, N, noise=nz, maxk=maxk, supports=supports[i] if isinstance(supports, dict) else supports))
    init = ctx.choice("init", inits)
    T = set(ctx.choice("targets", targets))
    lts = {"init": {init}, "goal": set(T)}
    if again: lts["other"] = {again[2]}; again = again[:2]
    if labels: lts["l0"] = {0, N - 1}; lts["l1"] = {1}; lts["l2"] = set()
    # an action may carry several labels, also ones that states have
    lta = {"al": {saps[0]}, "be": set(saps), "l1": {saps[-1]}, "init": {saps[0], saps[-1]}} if labels and kind == "mdp" else None
    rv = None
    if rewards:
        rv = ctx.np.array([ctx.real("rew%d" % i, 0, 100) for i in range(len(saps))] if rewards != "ints" else [3, 0, 2, 5, 1][:len(saps)])
    m = build(ctx, rows, saps, N, lts, lta, rv, kind=kind)
    model = ctx.load("switss.model")
    succ = succ_map(rows, saps)
    fwd = closure(succ, {init}, block=T)
    kept = fwd & backward(succ, T)
    snapshot = {k: v for k, v in m.P.items()}
    if again is not None and ctx.choice("reduced before", [False, True]):
        # the same model reduced from another initial state, or towards another target, says nothing about this reduction
        ctx.call(model.ReachabilityForm.reduce, m, *again)
    ok, r = ctx.call(model.ReachabilityForm.reduce, m, "init", "goal")
    ctx.check({l: set(m.states_by_label[l]) for l in lts} == lts and all({l for l in m.labels_by_state[s]} == {l for l in lts if s in lts[l]} for s in range(N)), "reduction changed the labels of the original system")
    if lta: ctx.check({l: set(m.actions_by_label[l]) for l in lta} == lta, "reduction changed the action labels of the original system")
    if not (fwd & T):
        # no target reachable: nothing is promised but an honest failure
        ctx.cover("target unreachable")
        return
    ctx.cover("target reachable")
    if not ok:
        ctx.fail("reduction failed with %s" % type(r).__name__); return
    rf, smap, samap = r
    rfrows = check_canonical(ctx, rf, N, "init") if True else None
    if rfrows is None: return
    n2 = rf.system.N - 2
    # original probability lost to removed states, per kept row
    if part == "C09":
        sap = rf.system.index_by_state_action
        for i, (s, a) in enumerate(saps):
            if s not in kept or s in T: continue
            lost = [c for c in rows[i] if c not in kept]
            if (s, a) in samap:
                ni = sap[samap[(s, a)]]
                if lost: ctx.cover("lost"); ctx.check(n2 + 1 in rfrows[ni], "lost probability does not lead to fail")
                else: ctx.check(n2 + 1 not in rfrows[ni], "fail has an incoming transition although no probability is lost")
        ok, e = ctx.call(model.ReachabilityForm.assert_consistency, rf.system, "init", "rf_target", "rf_fail")
        ctx.check(ok, "assert_consistency rejects the reduced system")
        ctx.check({k: v for k, v in m.P.items()}.keys() == snapshot.keys(), "reduction changed the original system")
        ctx.check(rf.initial == smap[init], "initial state of the form")
        return
    # ---- C10
    dead = {(t, 0) for t in T & kept if t not in succ}      # targets without actions get one
    if dead: ctx.cover("target without actions")
    ctx.check(set(smap.keys()) == kept, "state map covers the wrong states")
    ctx.check(len(set(smap.values())) == len(smap) and set(smap.values()) == set(range(n2)), "state map is not a bijection onto the inner states")
    ctx.check(set(samap.keys()) == {sa for sa in saps if sa[0] in kept} | dead, "state-action map covers the wrong pairs")
    ctx.check(len(set(samap.values())) == len(samap), "state-action map is not injective")
    if set(smap.keys()) != kept or set(samap.keys()) != {sa for sa in saps if sa[0] in kept} | dead: return
    S = rf.system
    sap = S.index_by_state_action
    ctx.check(set(samap.values()) | {sap.inv[S.C - 2], sap.inv[S.C - 1]} == set(sap.keys()), "state-action map misses pairs of the form")
    for i, (s, a) in enumerate(saps):
        if s not in kept: continue
        ctx.check(samap[(s, a)][0] == smap[s], "state-action map and state map disagree")
        if samap[(s, a)] not in sap: ctx.fail("unmapped pair"); return
        ni = sap[samap[(s, a)]]
        if s in T:
            ctx.cover("kept target")
            ctx.eq(S.P[ni, n2], 1, "a kept target moves to the new target with probability one", tol=1e-9)
        else:
            lost = 0
            for c in range(N):
                p = rows[i].get(c, 0)
                if c in kept: ctx.eq(S.P[ni, smap[c]], p, "transition probability changed", tol=1e-12)
                else: lost = lost + p
            ctx.eq(S.P[ni, n2], 0, "a non-target moves to the new target", tol=1e-12)
            ctx.eq(S.P[ni, n2 + 1], lost, "lost probability must go to fail", tol=1e-8 if noise else 1e-12)
        if lta: ctx.check(set(S.labels_by_action[samap[(s, a)]]) == set(m.labels_by_action[(s, a)]), "action labels changed")
        if rv is not None: ctx.eq(S.reward_vector[ni], rv[i], "rewards changed", tol=1e-12)
    for t, a in sorted(dead):
        ctx.check(samap[(t, a)][0] == smap[t], "state-action map and state map disagree")
        if samap[(t, a)] not in sap: ctx.fail("unmapped pair"); return
        ctx.eq(S.P[sap[samap[(t, a)]], n2], 1, "a kept target moves to the new target with probability one", tol=1e-9)
        if rv is not None: ctx.eq(S.reward_vector[sap[samap[(t, a)]]], 0, "rewards changed")
    if rv is not None:
        ctx.eq(S.reward_vector[S.C - 2], 0, "target has a reward"); ctx.eq(S.reward_vector[S.C - 1], 0, "fail has a reward")
    for s in kept:
        ctx.check(set(S.labels_by_state[smap[s]]) == {l for l, ss in lts.items() if s in ss}, "state labels changed")
    for l in lts:
        ctx.check(set(S.states_by_label[l]) == {smap[s] for s in lts[l] if s in kept}, "states by label changed")
    ctx.check(type(S) is type(m), "model type changed")
    ctx.observe("P", sorted([[list(k), v] for k, v in S.P.items()], key=lambda t: t[0]))
    ctx.observe("maps", [sorted(smap.items()), sorted(samap.items())])

def reduce_harnesses(part):
    H = []
    def add(name, bounds, must=("target reachable", "target unreachable"), **k):
        q = k.pop("quick", True); b = k.pop("budget", 60); lost = k.pop("lost", True)
        h = Harness(name, reduce_body, bounds, params=dict(part=part, **k), quick=q, budget=b, samples=24)
        h.must_reach = must + (("kept target",) if part == "C10" else ("lost",) if lost else ()); H.append(h)
    add("dtmc-3", "DTMC, 3 states, every support, symbolic probabilities, every initial state and target set", saps=[(0, 0), (1, 0), (2, 0)], N=3, inits=[0, 1, 2],
        targets=subsets(range(3)), kind="dtmc", budget=50)
    add("mdp-2x4", "MDP, 2 states with 2 actions each (rows interleaved), every support, initial state and target set, rewards, labels", lost=False, saps=[(1, 0), (0, 1), (0, 0), (1, 5)], N=2,
        inits=[0, 1], targets=subsets(range(2)), kind="mdp", rewards=True)
    add("mdp-3x4", "MDP, 3 states and 4 pairs with at most 2 successors, rows not in state order", saps=[(2, 0), (0, 3), (1, 1), (0, 0)], N=3, inits=[0], targets=[(1,), (2,), (1, 2)], kind="mdp", maxk=2)
    add("dtmc-3-noise", "DTMC, 3 states, row sums off by up to 4e-10, initial state 1", saps=[(0, 0), (1, 0), (2, 0)], N=3, inits=[1], targets=[(0,), (0, 2)], kind="dtmc", noise=True)
    add("mdp-2x3-noise", "MDP, 2 states and 3 pairs, row sums off by up to 4e-10", saps=[(0, 0), (1, 0), (0, 1)], N=2, inits=[0, 1], targets=[(0,), (1,)], kind="mdp", noise=True, must=("target reachable", "target unreachable"), lost=False)
    add("mdp-4-noaction", "MDP, 4 states of which two have no action, 3 pairs, at most 2 successors, targets with and without actions, rewards", saps=[(2, 0), (0, 12), (0, 1)], N=4, inits=[0], targets=[(1,), (1, 3), (2,), (2, 3)], kind="mdp", maxk=2, rewards=True)
    add("mdp-3x4-noise", "MDP, 3 states and 4 pairs, row sums off by up to 4e-10", saps=[(0, 0), (1, 0), (0, 1), (2, 0)], N=3, inits=[0], targets=[(1,)], kind="mdp", noise=True, supports=[(1,), (0, 2), (2,), (0, 1, 2)])
    add("mdp-4x5-noise", "MDP, 4 states, an action that loses all its probability to two removed states, row sums off by up to 4e-10", saps=[(0, 0), (0, 1), (1, 0), (2, 0), (3, 0)], N=4, inits=[0], targets=[(1,)], kind="mdp",
        noise=True, supports={0: [(1,), (0, 1)], 1: [(2, 3), (2,), (1, 2, 3)], 2: [(1,)], 3: [(2,), (2, 3)], 4: [(3,), (2, 3)]}, must=("target reachable",))
    add("mdp-3x5", "MDP, 3 states and 5 pairs, every support", saps=[(2, 0), (0, 3), (1, 1), (0, 0), (2, 2)], N=3, inits=[0], targets=[(1,), (2,), (1, 2)], kind="mdp", rewards=True, quick=False, budget=100)
    add("dtmc-4", "DTMC, 4 states, at most 2 successors", saps=[(3, 0), (0, 0), (1, 0), (2, 0)], N=4, inits=[0, 2], targets=[(1,), (3,), (1, 3)], kind="dtmc", maxk=2, quick=False, budget=100)
    add("twice", "MDP, 3 states and 4 pairs, reduced from another initial state before", saps=[(0, 0), (1, 0), (0, 1), (2, 0)], N=3, inits=[0], targets=[(1,), (2,), (1, 2)], kind="mdp", must=("target reachable",), again=("other", "goal", 1), budget=20,
        supports={0: [(1, 2), (0, 1)], 1: [(1,), (0, 2)], 2: [(2,)], 3: [(0, 1), (2,)]})
    add("twice-target", "MDP, 3 states and 4 pairs, reduced towards another target before", saps=[(0, 0), (1, 0), (0, 1), (2, 0)], N=3, inits=[0], targets=[(1,), (2,), (1, 2)], kind="mdp", must=("target reachable",), again=("init", "other", 2), budget=20,
        supports={0: [(1, 2), (0, 1)], 1: [(1,), (0, 2)], 2: [(2,)], 3: [(0, 1), (2,)]})
    add("lost-3", "MDP, 5 states of which three are removed, two actions of a state lose probability to them", saps=[(0, 0), (0, 1), (1, 0), (2, 0), (3, 0), (4, 0)], N=5, inits=[0], targets=[(1,)], kind="mdp", budget=20, must=("target reachable",),
        supports={0: [(1, 2, 3), (1,), (1, 2, 3, 4)], 1: [(1, 4), (0, 1), (2, 3, 4), (1, 2)], 2: [(1,)], 3: [(2,)], 4: [(3,)], 5: [(4,), (3,)]})
    add("integers", "deterministic MDP given by an integer matrix, 3 states and 4 pairs, integer rewards", saps=[(2, 0), (0, 3), (1, 1), (0, 0)], N=3, inits=[0, 1], targets=[(1,), (2,), (1, 2)], kind="mdp", maxk=1, ints=True, rewards="ints", budget=20)
    for nm, f, k in (("mdp", LARGE_EC, "mdp"), ("dtmc", LARGE_DTMC, "dtmc")):
        f = supports_of(f); n = f["n"]
        add("large-" + nm, "%s with sixteen states, one graph, symbolic probabilities and rewards" % nm.upper(), saps=[(n + 3, 0)] + f["saps"] + [(n + 1, 0), (n, 0), (n + 2, 0)], N=n + 4, inits=[0], targets=[(n,), (5, n), (10,)], kind=k, rewards=True, must=("target reachable",),
            supports=dict(enumerate([[(0, n + 3)]] + f["supports"] + [[(n + 1,)], [(n + 1,)], [(3, n + 2)]])))
    return H
