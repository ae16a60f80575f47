"""Reachability masks: the kernel and the model method executed symbolically over all transition structures."""
from gsx import graphs as G
from gsx.run import GHarness
PRELOAD = True
def jobs(tier):
    out = []
    for d in ("forward", "backward"):
        for N, A in ((1, 1), (2, 2), (3, 2)):
            for F in G.fsets(N): out.append({"N": N, "A": A, "F": F, "dir": d, "order": "row"})
        for F in G.fsets(4): out.append({"N": 4, "A": 1, "F": F, "dir": d, "order": "row"})
        for o in ("col", "rev"):
            for F in G.fsets(3): out.append({"N": 3, "A": 1, "F": F, "dir": d, "order": o})
    return sorted(out, key=lambda j: -j["N"] * 10 - j["A"])
def jobs_deep(tier):
    return [{"N": 4, "A": 2, "F": F, "B": Bs, "dir": d, "order": "row"} for d in ("forward", "backward") for F in G.fsets(4) for Bs in [[]] + G.fsets(4)] + \
           [{"N": 5, "A": 1, "F": F, "B": Bs, "dir": d, "order": "row"} for d in ("forward", "backward") for F in ([0], [0, 2], [1, 3, 4]) for Bs in ([], [1], [2], [0, 4], [3, 1])]
HARNESSES = [
    GHarness("kernel", jobs, G.sym_reach, G.conc_reach, "every transition structure with up to 3 states x 2 actions and 4 states x 1 action (every transition present or absent, symbolic), every non-empty start set, every blocklist (symbolic), both directions, three orders of the matrix entries"),
    GHarness("sequence", lambda t: [{"N": N, "A": 1, "F": F, "dir": d, "order": "row"} for d in ("forward", "backward") for N in (2, 3) for F in G.fsets(N)], G.sym_reach_seq, G.conc_reach_seq, "three queries in a row on the same graph, with and without the default blocklist; up to 3 states x 1 action"),
    GHarness("kernel-deep", jobs_deep, G.sym_reach, G.conc_reach, "4 states x 2 actions with every start set and blocklist; 5 states x 1 action with selected ones", quick=False, budget=100),
]
