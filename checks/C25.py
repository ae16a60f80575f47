"""Models imported from storm agree with the source model."""
from symx.api import *
from symx.gen import *
from C13 import D

class _O:
    def __init__(self, **k): self.__dict__.update(k)
def storm(rows, N, slabels, alabels, model_type):
    """stand-in with stormpy's SparseModel interface; rows[s] = list of distributions"""
    offs, c = [], 0
    for s in range(N): offs.append(c); c += len(rows[s])
    def mk(s):
        acts = []
        for a, dist in enumerate(rows[s]):
            tr = [_O(column=d, value=(lambda p=p: p)) for d, p in sorted(dist.items())]
            acts.append(_O(id=a, transitions=tr))
        return _O(id=s, actions=acts, labels=set(slabels[s]), __int__=lambda: s)
    return _O(nr_states=N, nr_choices=c, states=[mk(s) for s in range(N)], labeling=_O(get_labels_of_state=lambda s: set(slabels[int(s)]), get_labels=lambda: set().union(*slabels), get_states=lambda l: [s for s in range(N) if l in slabels[s]]),
              choice_labeling=_O(get_labels_of_choice=lambda c: set(alabels[c])), get_choice_index=lambda s, a: offs[int(s)] + a, model_type=model_type,
              has_choice_labeling=lambda: True, initial_states=[0]), offs

def body(ctx, N, acts, kind, sups, labels, alabs, choice=(False,)):
    rows, k = [], 0
    for s in range(N):
        rows.append([])
        for a in range(acts[s]):
            rows[s].append(row(ctx, "p%d_%d" % (s, a), N, supports=sups[k] if isinstance(sups, dict) else sups)); k += 1
    C = k
    if ctx.choice("names", [False, True]):
        # arbitrary label names, known only up to equality
        nm = [ctx.key("l%d" % i) for i in range(2)]
        ctx.assume(Not(nm[0].t == nm[1].t) if ctx.mode == "sym" else True)
    else: nm = ["x", "y"]
    sl = [{nm[i] for i in c} for c in ctx.choice("state labels", labels)]
    al = [{nm[i] for i in c} for c in ctx.choice("action labels", alabs)]
    sm, offs = storm(rows, N, sl, al, "ModelType.DTMC" if kind == "dtmc" else "ModelType.MDP")
    mod = ctx.load("switss.model")
    cls = mod.DTMC if kind == "dtmc" else mod.MDP
    ch = ctx.choice("choice model", choice)
    ok, m = ctx.call((lambda: cls.from_stormpy(sm, choice_model=True)) if ch else (lambda: cls.from_stormpy(sm)))
    if not ok: ctx.fail("the import failed with %s" % type(m).__name__); return
    P = m.P.tocsr()
    isa = dict(m.index_by_state_action)
    def dist(s, a):
        i = isa[(s, a)]
        return [P[i, d] for d in range(m.P.shape[1])]
    if not ch:
        ctx.check(m.N == N and m.C == C, "numbers of states and choices")
        ctx.check(set(isa) == {(s, a) for s in range(N) for a in range(acts[s])} and sorted(isa.values()) == list(range(C)), "state-action pairs")
        if m.N != N or m.C != C or len(isa) != C: return
        for s in range(N):
            for a in range(acts[s]):
                d = dist(s, a)
                for t in range(N): ctx.eq(d[t], rows[s][a].get(t, 0), "transition probabilities", tol=1e-12)
        for l in nm:
            for s in range(N):
                ctx.check((l in sl[s]) == (s in m.states_by_label[l]) == (l in m.labels_by_state[s]), "state labels")
                if kind == "mdp":
                    for a in range(acts[s]): ctx.check((l in al[offs[s] + a]) == ((s, a) in m.actions_by_label[l]) == (l in m.labels_by_action[(s, a)]), "action labels")
        return
    ctx.cover("choice model")
    ctx.check(m.N == N + C and m.C == 2 * C, "one extra state per choice")
    if m.N != N + C or m.C != 2 * C: return
    by = {}
    for (s, a), i in isa.items(): by.setdefault(s, []).append(a)
    entered = {}
    for s in range(N):
        ctx.check(sorted(by.get(s, [])) == list(range(acts[s])), "actions of the original states")
        if sorted(by.get(s, [])) != list(range(acts[s])): return
        for a in range(acts[s]):
            d = dist(s, a)
            # the choice state of (s, a): the second C states correspond to the choices in order
            c = N + offs[s] + a
            for t in range(N + C): ctx.eq(d[t], 1 if t == c else 0, "choices are entered with probability one from their origin", tol=1e-12)
            ctx.check(len(by.get(c, [])) == 1, "one action per choice state")
            if len(by.get(c, [])) != 1: return
            d = dist(c, by[c][0])
            for t in range(N + C): ctx.eq(d[t], rows[s][a].get(t, 0) if t < N else 0, "choices leave with their distribution", tol=1e-12)
            for l in nm: ctx.check((l in al[offs[s] + a]) == (c in m.states_by_label[l]) == (l in m.labels_by_state[c]), "choice states carry the labels of their choice")
        for l in nm: ctx.check((l in sl[s]) == (s in m.states_by_label[l]), "labels of the original states")
    for l in ("state", "choice"):
        want = set(range(N)) if l == "state" else set(range(N, N + C))
        ctx.check(set(m.states_by_label[l]) == want, "the labels that tell states from choices")

H = []
def add(name, fn, bounds, must=(), **k):
    q = k.pop("quick", True); b = k.pop("budget", 60)
    h = Harness(name, fn, bounds, params=k, quick=q, budget=b, samples=24); h.must_reach = must; H.append(h)
SL3 = [[(), (), ()], [(0,), (0, 1), (1,)], [(), (0,), ()], [(1,), (), (0,)]]
add("mdp-2x3", body, "storm MDP with two states and three choices, every support, symbolic probabilities, label patterns with arbitrary names; plain and choice model", must=("choice model",), N=2, acts=[1, 2], kind="mdp", sups=[(0,), (1,), (0, 1)],
    labels=[[(0,), (0, 1)], [(), (1,)]], alabs=[[(0,), (1,), ()], [(), (0,), (0, 1)], [(1,), (), (0,)]], choice=(False, True))
add("mdp-3x5", body, "storm MDP with three states and five choices", must=("choice model",), N=3, acts=[2, 1, 2], kind="mdp", sups={0: [(0,), (1, 2)], 1: [(0, 1, 2)], 2: [(0,), (1,)], 3: [(0, 2)], 4: [(1, 2), (2,)]}, labels=SL3,
    alabs=[[(), (0,), (1,), (), (0, 1)], [(0,), (), (), (1,), ()], [(1,), (0,), (0,), (0,), (1,)]], choice=(False, True))
add("dtmc-3", body, "storm DTMC with three states, every support", N=3, acts=[1, 1, 1], kind="dtmc", sups=[(0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)], labels=SL3[:2], alabs=[[(), (), ()]])
add("mdp-3x6", body, "storm MDP with three states and six choices", N=3, acts=[3, 1, 2], kind="mdp", sups=[(0,), (1, 2), (0, 1, 2)], labels=SL3, alabs=[[(), (0,), (1,), (), (0, 1), (0,)]], choice=(False, True), quick=False)
LN = 11
LSUP = [(0, 5, 10), (2,), (1, 10), (3, 4), (9, 10), (0, 7), (6,), (8, 9), (0, 1), (5, 6), (10,), (4,), (3, 7), (2, 8)]
for nm, acts in (("mdp", [1, 2, 1, 1, 1, 2, 1, 1, 1, 1, 2]), ("dtmc", [1] * LN)):
    n = sum(acts)
    add("large-" + nm, body, "%s with eleven states (two-digit indices), symbolic probabilities" % nm.upper(), must=("choice model",) if nm == "mdp" else (), N=LN, acts=acts, kind=nm, sups={i: [LSUP[i % len(LSUP)]] for i in range(n)},
        labels=[[(0,) if s in (2, 10) else (1,) if s == 1 else () for s in range(LN)]], alabs=[[(0,) if nm == "mdp" and c in (10, 12) else (1,) if nm == "mdp" and c == 1 else () for c in range(n)]], choice=(False, True) if nm == "mdp" else (False,))
HARNESSES = H
ASSUMPTIONS = ["storm is not installed: a stand-in with stormpy's model interface (states, actions, transitions, labelings, choice indices) is imported", "state and action labels of the storm model are not called 'state' or 'choice'"]
