"""Maximal end components: the kernel executed symbolically over all transition structures."""
from gsx import graphs as G
from gsx.run import GHarness
PRELOAD = True
RANDS = ("zero", "inc", "dec", "mix", "pairs")
def jobs(tier):
    out = [{"N": 3, "A": 2, "rand": r, "order": "row"} for r in RANDS]
    out += [{"N": 4, "A": 1, "rand": r, "order": "row"} for r in RANDS]
    out += [{"N": 3, "A": 2, "rand": "mix", "order": o} for o in ("col", "rev")]
    out += [{"N": N, "A": A, "rand": r, "order": "row"} for N, A in ((1, 1), (1, 2), (2, 2), (2, 3)) for r in RANDS]
    return out
HARNESSES = [
    GHarness("kernel", jobs, G.sym_mec, G.conc_mec, "every transition structure (each transition present or absent, symbolic) with up to 3 states x 2 actions, 4 x 1, 2 x 3; five fixed sequences of treap priorities (all equal, increasing, decreasing, two mixed); three orders of the matrix entries", must_reach=("several components", "proper and improper")),
    GHarness("kernel-parts", lambda t: G.parts([(4, 2, 12, 16), (5, 1, 10, 12), (3, 3, 10, 12)], "mix"), G.sym_mec, G.conc_mec, "4 states x 2 actions, 5 x 1 and 3 x 3: 16, 12 and 12 subspaces of 2^20, 2^15 and 2^17 transition structures each (the remaining transitions fixed pseudo-randomly)", thorough=False),
    GHarness("kernel-shapes", lambda t: G.shapes([(3, 1, 1), (1, 3, 1), (1, 1, 3), (4, 1, 1), (1, 2, 3), (3, 2, 1)], "mix") + G.shapes([(1, 1, 2), (2, 1, 3)], "inc", "rev") + G.shapes([(1, 2, 1, 1), (2, 1, 1, 1)][:2 if t == "thorough" else 0], "mix"), G.sym_mec, G.conc_mec,
             "every transition structure of 3 states with different numbers of actions (up to four at one state)"),
    GHarness("kernel-5x1", lambda t: G.splits(5, 1, 8, "mix"), G.sym_mec, G.conc_mec, "every transition structure with 5 states x 1 action (2^25)", quick=False, budget=100),
    GHarness("kernel-3x3", lambda t: G.splits(3, 3, 9, "mix"), G.sym_mec, G.conc_mec, "every transition structure with 3 states x 3 actions (2^27)", quick=False, budget=60),
    GHarness("kernel-4x2", lambda t: G.splits(4, 2, 10, "mix"), G.sym_mec, G.conc_mec, "4 states x 2 actions: as many of the 1024 subspaces of 2^22 structures as the time allows", quick=False, budget=60),
]
