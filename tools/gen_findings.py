"""Writes known_findings.json: recorded defects (kind finding) and repaired ones (fixed: lines)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOFIX = " (not repaired: the file lies in a folder called benchmarks, which repairs may not touch here)"
T = "exactly the thresholds from start to end are visited"
FINDINGS = [
 dict(id="C27-end-one", property="C27", kind="finding", harness="finding-end-one", label=T, inputs={}, what="benchmarks.run(from_thr=0.5, to_thr=1, step=0.25) does not solve the end value 1: np.arange excludes min(1, to_thr+step)" + NOFIX),
 dict(id="C27-beyond-end", property="C27", kind="finding", harness="finding-beyond-end", label=T, inputs={}, what="benchmarks.run(from_thr=0.125, to_thr=0.3125, step=0.125) also solves 0.375, beyond the end value" + NOFIX),
 dict(id="C27-mode-string", property="C27", kind="finding", harness="finding-mode-string", label="the run succeeds", inputs={}, what="benchmarks.run([m1, m2], mode='min') iterates over the letters of the mode and fails" + NOFIX),
 dict(id="C27-mode-list", property="C27", kind="finding", harness="finding-mode-list", label="the run succeeds", inputs={}, what="benchmarks.run(m, mode=['min','max']) passes the whole list to the method and fails" + NOFIX),
]
# subject of the fix commit -> (property, what failed)
FIXED = [
 ("invalid row sums and negative", "C07", "invalid row sums and negative rewards raised TypeError/NameError"),
 ("saved models keep full precision", "C08", "probabilities were rounded when a model was saved"),
 ("reduction no longer invents", "C09", "reduction added transitions to fail for rounding errors in row sums"),
 ("consistency check rejects", "C11", "forms whose initial state is the target or fail state were accepted"),
 ("Farkas systems returned earlier", "C12", "systems returned earlier changed with later calls"),
 ("max_y_state is the sum", "C14", "max_y_state added one at the initial state"),
 ("certificate conditions of proper", "C15", "proper end components and nonnegativity were not checked"),
 ("certificate conditions of proper", "C16", "generated certificates ignored proper end components"),
 ("labels of the target or fail state", "C17", "labels on the target or fail state made minimization fail"),
 ("inverse reachability weights", "C18", "an empty group made the heuristic fail"),
 ("inverse reachability weights", "C24", "weights were not defined for empty groups"),
 ("subsystems keep action labels", "C19", "action labels of subsystems were lost or changed meaning"),
 ("reward forms provide what", "C23", "reward forms lacked what witnesses and certificates need"),
 ("reward form reduction", "C23", "the given target label was ignored"),
 ("reward forms can be built", "C23", "reward forms could not be built from a system in reachability form"),
 ("the latest objective replaces", "C20", "objectives were mixed up, constraints could not be removed, unused variables had no value"),
 ("repeated variables in an expression", "C20", "repeated variables did not add up; empty constraints were lost"),
 ("feasible solutions of unfinished", "C20", "unproven incumbents were reported as optimal"),
 ("LP class, problems without", "C20", "LP class, problems without objective and binary bounds failed"),
 ("gurobi back end", "C21", "the gurobi back end built other problems than the default one"),
 ("invertible dictionaries", "C22", "dictionaries created from one another shared their sets"),
 ("storm imports", "C25", "DTMC imports failed and choice labels were off by one"),
 ("PRISM interface", "C26", "dictionaries were rejected, label text ran together, label files with blank lines failed"),
 ("command line tool passes the mode", "C28", "minimize and subsystem always failed"),
 ("strongly connected components can be queried", "C03", "the query always failed (no such attribute)"),
 ("transition probabilities in double precision", "C04", "probabilities were truncated to single precision"),
 ("treap_from_arr terminates", "C05", "building a treap from an array never ended"),
 ("free the state array of every subgraph", "C06", "maximal_end_components leaked the state array of each subgraph"),
 ("already in a treap leaks no node", "C06", "inserting a key twice leaked a node"),
 ("maximal end components of a graph without states", "C06", "null pointer dereference for a graph without states"),
 ("graph queries reject state indices", "C06", "indices outside the graph accessed memory outside the allocations"),
 ("explicitly stored zeros", "C29", "explicitly stored zeros were drawn (and treated) as transitions"),
 ("reduction keeps target states without actions", "C10", "a target state without actions was dropped by the reduction, its probability went to fail"),
 ("certificate values of DTMC", "C29", "certificate values were drawn at the wrong states"),
]
def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    fixed = []
    for sub, pid, what in FIXED + EXTRA:
        h = [l.split()[0] for l in log if sub in l]
        assert h, sub
        fixed.append("fixed: property=%s %s %s" % (pid, h[-1], what))
    json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
EXTRA = [
 ("z-systems of integer transition matrices", "C12", "the threshold of the z-system was cut down to an integer for models given by integer matrices"),
 ("z-systems of integer rewards", "C23", "the threshold of the z-system was cut down to an integer for integer rewards"),
 ("leaves the dictionaries of action styles", "C29", "drawing a subsystem changed the dictionaries that the action style returned"),
 ("state styles without a label", "C29", "drawing a subsystem failed for state styles without a label"),
]
if __name__ == "__main__": main()
