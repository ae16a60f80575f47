"""The treap: every key sequence, every outcome of the random priorities, ties included."""
from gsx import treap as T
from gsx.run import GHarness
PRELOAD = True
def jobs(tier):
    return [{"n": n, "K": K, "prios": D, "fromarr": fa} for n, K, D, fa in ((1, 2, 2, True), (2, 2, 2, True), (3, 3, 3, True), (4, 3, 4, False), (4, 4, 4, False))]
def deep(n, K, D, k):
    import itertools
    names = ["key0.0", "key1.0", "prio0.0", "prio1.0", "key0.1", "key1.1", "prio0.1", "prio1.1"][:k]
    return lambda tier: [dict({"n": n, "K": K, "prios": D, "fromarr": False}, **{"fix." + a: b for a, b in zip(names, v)}) for v in itertools.product((False, True), repeat=k)]
HARNESSES = [
    GHarness("sequences", jobs, T.sym_set, T.conc_set, "every sequence of up to 4 insertions of keys from 4 values, every relative order of the priorities (4 symbolic priorities of 4 values), membership asked for every key; building from an array up to 3 keys"),
    GHarness("sequences-5", deep(5, 4, 4, 6), T.sym_set, T.conc_set, "every sequence of 5 insertions of keys from 4 values, priorities from 4 values", quick=False, budget=100),
]
