SYM = "path-forking symbolic execution of the Python sources over z3 (every feasible path within the bounds; assertions refuted by the solver; counterexamples replayed on the real code)"
GSX = "guarded (state-merging) symbolic execution of the Cython kernel sources, parsed with Cython's own parser: symbolic transition structures, byte-level heap model; BDD guards, obligations discharged by z3; counterexamples and sampled runs replayed on the compiled extension"
TABLE = {
 "C01": {"technique": GSX, "note": "bounded: all transition structures up to 4 states x 1 action / 3 x 2 (thorough 5 states), every start set and blocklist, both directions"},
 "C02": {"technique": GSX, "note": "bounded: all transition structures with up to 3 states x 2 actions, 4 x 1, 2 x 3; parts of 4 x 2, 5 x 1, 3 x 3 (thorough: all of 5 x 1 and 3 x 3); five sequences of treap priorities (C05 covers all)"},
 "C03": {"technique": GSX, "note": "bounded: all transition structures with up to 3 states x 2 actions, 4 x 1 (thorough 5 x 1)"},
 "C04": {"technique": GSX, "note": "bounded: all transition structures with up to 3 states x 2 actions, 4 x 1, 2 x 3; every order of insertion of three; probabilities symbolic"},
 "C05": {"technique": GSX, "note": "bounded: every sequence of up to 4 insertions (thorough 5) of 4 keys under every relative order of the priorities"},
 "C06": {"technique": GSX, "note": "bounded: as C01-C05, plus indices outside the graph; counterexamples replayed under valgrind; malloc never fails in the model"},
 "C07": {"technique": SYM, "note": "bounded: matrices up to 3x2/2x3 (thorough 4x2, 3x3), arbitrary real entries"},
 "C08": {"technique": SYM, "note": "bounded: up to 3 states / 4 pairs, symbolic probabilities, rewards and label sets; numbers of the file symbolic through the real parser/writer"},
 "C09": {"technique": SYM, "note": "bounded: up to 3 states / 4 pairs (thorough 4 states, 5 pairs), every support, symbolic probabilities, row-sum noise up to 4e-10"},
 "C10": {"technique": SYM, "note": "bounded: same harness family as C09"},
 "C11": {"technique": SYM, "note": "bounded: systems of up to 4 states with symbolic probabilities, supports and row noise"},
 "C12": {"technique": SYM, "note": "bounded: forms with up to 3 inner states, symbolic probabilities, thresholds and call histories"},
 "C13": {"technique": SYM, "note": "bounded: up to 3 inner states / 4 pairs; the LP solver is replaced by an exact symbolic-LP contract"},
 "C14": {"technique": SYM, "note": "bounded: as C13, symbolic vectors"},
 "C15": {"technique": SYM, "note": "bounded: up to 2-3 inner states, certificate entries any reals"},
 "C16": {"technique": SYM, "note": "bounded: up to 2-3 inner states, symbolic thresholds"},
 "C17": {"technique": SYM, "note": "bounded: up to 3 inner states, all label assignments of the generator, symbolic thresholds; MILP solver by contract"},
 "C18": {"technique": SYM, "note": "bounded: as C17, up to 3 heuristic iterations, any solver answer meeting the LP contract"},
 "C19": {"technique": SYM, "note": "bounded: up to 3 inner states, every certificate support"},
 "C23": {"technique": SYM, "note": "bounded: up to 3 inner states, symbolic rewards and probabilities"},
 "C20": {"technique": SYM, "note": "bounded: histories of up to 3-4 operations on up to 3 variables, arbitrary real coefficients, every answer of the back end; PuLP itself is executed"},
 "C21": {"technique": SYM, "note": "bounded: same histories on both back ends; gurobipy is a recording stand-in"},
 "C22": {"technique": SYM, "note": "bounded: histories of up to 3-4 operations, keys known only up to equality"},
 "C24": {"technique": SYM, "note": "bounded: up to 3 inner states, every grouping, symbolic result vectors"},
 "C25": {"technique": SYM, "note": "bounded: storm models of up to 3 states / 4 choices with symbolic probabilities; stormpy is a stand-in"},
 "C26": {"technique": SYM, "note": "bounded: up to 3 constants/labels/states, symbolic constant values and label sets; the prism process is a stand-in"},
 "C27": {"technique": SYM, "note": "bounded: up to 12 thresholds, up to 2 results per threshold with arbitrary values, times and statuses, 4 step widths"},
 "C28": {"technique": SYM, "note": "bounded: forms of up to 2 inner states, any threshold, any solver answers, both methods and modes; bin/switss itself is executed symbolically, files are real"},
 "C29": {"technique": SYM, "note": "bounded: up to 3 states / 4 pairs (one fixed graph of 12 states), every support, symbolic probabilities and certificates"},
    "C31": {"technique": SYM, "note": "bounded: up to 4 inner states / 6 pairs, every support (and reductions to such forms), symbolic probabilities"},
}
NOT_APPLICABLE = {
 "C30": "the method needs the compiled tree_decomp extension (graph_tool, dd and LAPACK headers are absent, so switss.utils.tree_decomp cannot be built or replayed) and its inner step is a floating-point LU solve over enumerated subsets; no encoding can be validated against a running implementation here",
}
