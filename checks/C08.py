"""Saving and loading a model is lossless."""
import os, tempfile, shutil
from symx.api import *
from symx.gen import *

LABELS = ["init", "a b", "x=1", "deadlock(2)", "goal"]
def roundtrip(ctx, kind, saps, N, maxk=None, lab=None, free=1, ring=False):
    rows = [row(ctx, "r%d" % i, N, maxk=maxk, supports=[sorted({(i + 1) % N, (i * 3) % N})] if ring else None) for i in range(len(saps))]
    names = LABELS[:lab] if lab is not None else LABELS
    lts = {}
    for k, n in enumerate(names if not ring else []):
        # the first labels range over every set of states, the others are fixed
        lts[n] = set(ctx.choice("lab%d" % k, subsets(range(N), nonempty=False))) if k < free else set(range(k % (N + 1)))
    if ring:
        names = ["l%d" % k for k in range(12)]
        lts = {n: {k, (k * 5 + 1) % N, 3} for k, n in enumerate(names)}
    m = build(ctx, rows, saps, N, lts, None, kind=kind)
    cls = getattr(ctx.load("switss.model"), "DTMC" if kind == "dtmc" else "MDP")
    d = tempfile.mkdtemp(prefix="c08_")
    try:
        ok, r = ctx.call(m.save, os.path.join(d, "model.v1"))
        if not ok: ctx.fail("saving failed with %s" % type(r).__name__); return
        tra, labf = r
        ctx.check(os.path.exists(tra) and os.path.exists(labf), "the returned paths exist")
        ok, l = ctx.call(cls.from_file, labf, tra)
        if not ok: ctx.fail("loading a saved model failed with %s" % type(l).__name__); return
        ctx.cover("loaded")
        # saving a second model over the first one leaves only the second
    finally: shutil.rmtree(d)
    ctx.check(l.N == N and l.C == len(saps), "number of states or state-action pairs changed")
    ctx.check(set(l.index_by_state_action.keys()) == set(saps), "state-action pairs changed")
    if not (l.N == N and l.C == len(saps) and set(l.index_by_state_action.keys()) == set(saps)): return
    for i, sa in enumerate(saps):
        for j in range(N):
            ctx.eq(l.P[l.index_by_state_action[sa], j], rows[i].get(j, 0), "transition probability changed", tol=Fraction(1, 10**9))
    for s in range(N):
        ctx.check(set(l.labels_by_state[s]) == {n for n, ss in lts.items() if s in ss}, "state labels changed")
    for n, ss in lts.items(): ctx.check(set(l.states_by_label[n]) == ss, "label set changed")
    ctx.check({n for n, ss in l.states_by_label.items() if len(ss) > 0} == {n for n, ss in lts.items() if ss}, "labels appeared or vanished")

H = []
def add(name, bounds, must=("loaded",), **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    h = Harness(name, roundtrip, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
add("dtmc-2", "DTMC, 2 states, every support, symbolic probabilities, one label over every set of states", kind="dtmc", saps=[(0, 0), (1, 0)], N=2)
add("dtmc-2-permuted", "DTMC, 2 states whose matrix rows are swapped, two labels over every set of states", kind="dtmc", saps=[(1, 0), (0, 0)], N=2, free=2)
add("dtmc-3", "DTMC, 3 states, every support", kind="dtmc", saps=[(1, 0), (2, 0), (0, 0)], N=3, free=0)
add("dtmc-nolabels", "DTMC without labels", kind="dtmc", saps=[(0, 0), (1, 0)], N=2, lab=0)
add("dtmc-1", "DTMC with one state", kind="dtmc", saps=[(0, 0)], N=1)
add("mdp-2x4", "MDP, 2 states with 2 actions each, rows not in state order", kind="mdp", saps=[(1, 17), (0, 1), (0, 0), (1, 0)], N=2)
add("mdp-3x3", "MDP, 3 states of which one has no action", kind="mdp", saps=[(2, 0), (0, 3), (0, 1)], N=3, free=0)
add("mdp-nolabels", "MDP without labels", kind="mdp", saps=[(0, 0), (1, 0)], N=2, lab=0)
add("dtmc-12", "DTMC with 12 states and 12 labels, one state with all of them (two-digit numbers), fixed graph, symbolic probabilities", kind="dtmc", saps=[(i, 0) for i in range(12)], N=12, ring=True)
add("mdp-12", "MDP with 12 states, action numbers of two digits, 12 labels, fixed graph, symbolic probabilities", kind="mdp", saps=[(i, 0) for i in range(12)] + [(i, 40 + 9 * i) for i in range(3)], N=12, ring=True)
add("mdp-3x5", "MDP, 3 states and 5 pairs, at most two successors", kind="mdp", saps=[(2, 0), (0, 3), (0, 1), (1, 1), (1, 0)], N=3, maxk=2, free=1, quick=False)
add("dtmc-4", "DTMC, 4 states, at most two successors", kind="dtmc", saps=[(i, 0) for i in range(4)], N=4, maxk=2, free=0, quick=False)
HARNESSES = H
ASSUMPTIONS = ["floating point numbers are treated as reals; number formatting is modelled exactly for magnitudes in [1e-4,10), printing at least 16 significant digits as lossless",
    "label names contain neither double quotes nor line breaks", "file system calls work"]
