"""What a reachability form reports about its end components."""
from symx.api import *
from symx.gen import *

def body(ctx, n, saps, kind="mdp", init=0, supports=None, maxk=None, reduced=False):
    rows = rf_structure(ctx, n, saps, init=init, supports=supports, maxk=maxk)
    if reduced:
        # the form is obtained by reduction: state n is the goal, n + 1 cannot reach it
        mod = ctx.load("switss.model")
        full = rows + [{n: ctx.q(1)}, {n + 1: ctx.q(1)}]
        m = build(ctx, full, list(saps) + [(n, 0), (n + 1, 0)], n + 2, {"init": {init}, "goal": {n}}, None, kind=kind)
        ok, r = ctx.call(mod.ReachabilityForm.reduce, m, "init", "goal")
        if not ok: ctx.fail("reduction failed with %s" % type(r).__name__); return
        rf, smap, _ = r
        if not ctx.check(set(smap) == set(range(n + 1)), "the kept states"): return
    else:
        rf, m = rf_build(ctx, rows, saps, n, init=init, kind=kind)
        smap = {s: s for s in range(n)}
    E = mecs(rows, saps, range(n))
    inner = sorted(smap)
    own = {s: next((i for i, T in enumerate(E) if s in T), None) for s in inner}
    n2 = rf.system.N - 2
    ctx.cover("end component" if E else "none")
    if len(E) > 1: ctx.cover("two end components")
    ctx.check(bool(rf.is_ec_free) == (not E), "is_ec_free says whether there are proper end components besides target and fail")
    ctx.check(rf.nr_of_proper_mecs == len(E), "the number of proper end components")
    ctx.check(rf.nr_of_mecs == len(E) + sum(1 for s in inner if own[s] is None), "the number of components")
    f = rf.state_to_mec
    if not ctx.check(len(f) == n2, "one component per inner state"): return
    for s in inner:
        ctx.check(bool(rf.in_proper_ec(smap[s])) == (own[s] is not None), "in_proper_ec says whether a state lies in a proper end component")
        ctx.check(bool(rf.proper_mecs[f[smap[s]]]) == (own[s] is not None), "the component of a state is marked proper exactly when it is an end component")
        for t in inner: ctx.check((f[smap[s]] == f[smap[t]]) == (s == t or (own[s] is not None and own[s] == own[t])), "two states share a component exactly when they lie in the same maximal end component")

H = []
def add(name, bounds, must=("end component", "none"), **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    h = Harness(name, body, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
add("dtmc-2", "DTMC form with two inner states, every support", n=2, saps=[(1, 0), (0, 0)], kind="dtmc", must=("none",))
add("mdp-1x2", "one inner state with two actions, every support", n=1, saps=[(0, 3), (0, 0)])
add("mdp-2x3", "two inner states and three pairs, every support", n=2, saps=[(1, 0), (0, 0), (0, 1)])
add("mdp-2x4", "two inner states with two pairs each (rows not in state order), at most two successors", n=2, saps=[(1, 7), (0, 0), (1, 0), (0, 1)], maxk=2, must=("end component", "none", "two end components"))
add("mdp-3x5", "three inner states and five pairs, selected supports", n=3, init=1, saps=[(2, 0), (0, 0), (1, 1), (1, 0), (0, 2)], must=("end component", "none", "two end components"),
    supports=[[(2, 3), (0,), (1, 4)], [(0,), (1,), (0, 2)], [(1,), (0, 1), (0, 2)], [(2, 3), (0,)], [(3,), (2,), (1, 4)]])
add("reduced-2x3", "forms obtained by reduction: two states and three pairs, every support", n=2, saps=[(1, 0), (0, 0), (0, 1)], reduced=True)
add("integers", "deterministic forms given by integer matrices", n=2, saps=[(1, 7), (0, 0), (1, 0), (0, 1)], maxk=1, ints=True, must=("end component", "none", "two end components"))
add("mdp-3x6", "three inner states with two pairs each, at most two successors", n=3, saps=[(2, 0), (0, 0), (1, 1), (1, 0), (0, 2), (2, 1)], quick=False, budget=240,
    supports={**{i: [c for c in subsets(range(5)) if len(c) <= 2] for i in (1, 2)}, 0: [(2, 3), (0,), (1, 4)], 3: [(1,), (0, 3), (2,)], 4: [(3,), (2,), (1, 4)], 5: [(2,), (0, 1), (3,)]})
for nm, f, k in (("mdp", LARGE, "mdp"), ("ec", LARGE_EC, "mdp"), ("dtmc", LARGE_DTMC, "dtmc")):
    add("large-" + nm, "one form with twelve inner states (%s), symbolic probabilities" % nm, must=("end component",) if nm == "ec" else ("none",), kind=k, **supports_of(f))
HARNESSES = H
ASSUMPTIONS = ["positive probabilities are arbitrary reals summing to one; the graph kernel runs natively on the graph of each path (its own correctness for every graph up to a bound is C01 to C06)"]
