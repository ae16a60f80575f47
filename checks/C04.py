from gsx import graphs as G
from gsx.run import GHarness
PRELOAD = True
def jobs(tier):
    return [{"N": N, "A": A, "order": o} for N, A in ((3, 2), (4, 1), (2, 3), (2, 2), (1, 2)) for o in ("row", "col", "rev")]
HARNESSES = [GHarness("kernel", jobs, G.sym_adj, G.conc_adj, "every transition structure with up to 3 states x 2 actions, 4 x 1, 2 x 3; matrix entries listed by row, by column and in reverse; all action filters, one of them matching nothing; probabilities kept as symbols of double precision")]
