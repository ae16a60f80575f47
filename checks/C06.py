"""Memory safety of the kernel: accesses, initialisation and lifetime of every block, over all transition structures."""
from gsx import mem as M, graphs as G
from gsx.run import GHarness
PRELOAD = True
RANDS = ("zero", "inc", "dec", "mix", "pairs")
def jobs(tier):
    out = [{"N": 3, "A": 2, "rand": r, "order": "row", "q": "mec"} for r in RANDS]
    out += [{"N": 4, "A": 1, "rand": r, "order": "row", "q": "mec"} for r in RANDS]
    out += [{"N": 3, "A": 2, "rand": r, "order": "row", "q": "scc"} for r in ("zero", "mix")]
    out += [{"N": 4, "A": 1, "rand": "mix", "order": "row", "q": "scc"}]
    out += [{"N": 3, "A": 1, "rand": "mix", "order": "row", "q": q} for q in ("reachf+reachb", "reachb+reachf")]
    out += [{"N": 2, "A": 2, "rand": r, "order": o, "q": "mec+scc+reachf+adj+mec+reachb+scc"} for r in ("zero", "mix") for o in ("row", "col")]
    out += [{"N": N, "A": A, "rand": r, "order": "row", "q": "mec+scc"} for N, A in ((1, 1), (1, 2), (2, 3)) for r in ("mix", "pairs")]
    out += [{"N": 0, "A": 1, "rand": "mix", "order": "row", "q": "mec+scc"}]
    out += [{"N": 3, "A": 2, "rand": "mix", "order": "row", "q": "adj"}]
    return out
def outside(tier):
    return [{"N": N, "A": A, "rand": "mix", "order": "row", "q": q, "lo": -2, "hi": N + 2} for N, A in ((1, 1), (2, 1)) for q in ("reachf", "reachb", "adj")]
def tjobs(tier):
    return [{"n": n, "K": K, "prios": D} for n, K, D in ((1, 2, 2), (2, 2, 2), (3, 3, 3), (4, 3, 4), (4, 4, 4))]
HARNESSES = [
    GHarness("queries", jobs, M.sym_mem, M.conc_mem, "construction, queries (components, end components, reachability with every initial set and blocklist, neighbours) and destruction on every transition structure with up to 3 states x 2 actions, 4 x 1, 2 x 3, none; five sequences of treap priorities; queries repeated on the same graph", samples=2),
    GHarness("queries-deep", lambda t: [dict(j, q=q) for q in ("mec", "scc", "adj") for j in G.parts([(4, 2, 12, 12), (5, 1, 12, 8), (3, 3, 10, 8)], "mix")], M.sym_mem, M.conc_mem, "4 states x 2 actions, 5 x 1 and 3 x 3: subspaces of 2^20, 2^13 and 2^17 structures", quick=False, budget=300, samples=1),
    GHarness("outside", outside, M.sym_mem, M.conc_mem, "reachability from and blocked by any subset of {-2..N+1}, neighbours of state -2..N+1, graphs of up to 2 states", samples=1),
    GHarness("treap", tjobs, M.sym_treapmem, M.conc_treapmem, "every sequence of up to 4 insertions of keys from 4 values with every relative order of the priorities, then destruction", samples=1),
]
for h in HARNESSES: h.watchdog = 200
