#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
G="switss/utils/graph.pyx"; T="switss/utils/treaps.pyx"; S="switss/utils/stack.pyx"
AM="switss/model/amdp.py"; MDP="switss/model/mdp.py"; DT="switss/model/dtmc.py"
RF="switss/model/reachability_form.py"; RR="switss/model/reward_reachability_form.py"
CE="switss/certification/certificates.py"; FO="switss/problem/formulations.py"
ME="switss/problem/milpexact.py"; QS="switss/problem/qsheur.py"; QP="switss/problem/qsheurparams.py"
SU="switss/problem/subsystem.py"; MI="switss/solver/milp.py"; ID="switss/utils/invertible_dict.py"
PR="switss/prism/prism.py"; BE="switss/benchmarks/benchmarks.py"; CLI="bin/switss"
props=[]
def P(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    props.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],
        "mechanism":[{"name":n,"where":w} for n,w in mech],
        "observe_at":observe or [], "hook_needed":None}})

P("C01","Reachability masks are exact",
  "For every model, every non-empty start set, both directions and every blocklist, the reachability mask marks exactly the states that a path of positive-probability transitions connects to the start set (start states included; forward: reachable from it, backward: able to reach it). A blocklisted state that is reached is itself marked, but the search never continues through it.",
  ["inputs"],"every transition graph (up to the bound), start set, direction and blocklist",
  "No test looks at a mask; the tests that reduce models use a handful of fixed graphs and mostly fixed start sets.",
  [G,S,AM],[("stack-based search with reach/instack/block masks","Graph.reachable"),("adjacency construction","Graph.add_successor")],
  ["AbstractMDP.reachable_mask"])
P("C02","Maximal end components and their proper flags are exact",
  "For every model, two states get the same component index exactly when some end component contains both, every state gets an index in 0..count-1 and every index is used. A component is flagged proper exactly when a scheduler can stay in it forever with probability one (a state without any action, which is never left, counts as one that stays); a single state that cannot stay is its own improper component.",
  ["inputs"],"every MDP/DTMC transition graph up to the bound",
  "Two tests look at two hand-drawn graphs; refinement of components (actions that leave, nested components, several actions per state) needs all graphs.",
  [G,T,S],[("iterative SCC refinement over state sets","Graph.maximal_end_components"),("Tarjan on a sub-MDP","Graph.strongconnect")],
  ["AbstractMDP.maximal_end_components"])
P("C03","Strongly connected components are exact",
  "For every model, the strongly connected component query succeeds and returns an index per state and the number of components such that two states share an index exactly when each can reach the other by positive-probability transitions.",
  ["inputs"],"every transition graph up to the bound","No test calls it.",
  [G,AM],[("Tarjan's algorithm","Graph.strongly_connected_components / strongconnect")],["AbstractMDP.strongly_connected_components"])
P("C04","Successor and predecessor queries list exactly the transitions",
  "For every model and state, the successor query yields each (successor, action, probability) of the transition matrix exactly once and nothing else, the predecessor query yields exactly the reversed triples, and an action filter selects exactly that action's triples. The probabilities are the numbers stored in the transition matrix, with full precision.",
  ["inputs"],"every transition structure up to the bound and every probability value",
  "Tests never compare the lists with the matrix, and probabilities are only ever used as 'positive'.",
  [G,AM],[("adjacency construction in both directions","Graph.add_successor"),("iteration","Graph.successors/predecessors")],
  ["AbstractMDP.successors","AbstractMDP.predecessors"])
P("C05","The treap behaves as a set whatever its random priorities",
  "For every sequence of inserted keys (duplicates included) and every outcome of the random priorities, ties included, membership answers exactly whether the key was inserted, the size is the number of distinct keys, and flattening yields each key exactly once.",
  ["inputs","histories"],"every insertion sequence up to the bound and every priority outcome",
  "The test runs four insertion sequences under 21 seeds; a split that goes wrong for one priority order can be missed.",
  [T],[("split/insert by heap key","treaps.insert, split_treap"),("size maintenance","update_size_from_successors")],["treaps.add_to_treap, in_treap, treap_to_arr"])
P("C06","The native graph kernel is memory safe and releases what it allocates",
  "For every model and every sequence of queries (start sets, blocklists and state indices outside the graph included), the native code never reads or writes outside an allocation, through a null or freed pointer, or uses an uninitialised value, and never frees twice. Once the graph is destroyed, everything that was allocated by building it and by its queries has been released; no query leaks memory.",
  ["inputs","histories"],"every transition graph and query up to the bound",
  "Tests run without sanitizers on a few graphs and cannot observe leaks or silent out-of-bounds accesses.",
  [G,T,S],[("malloc/free pairing","Graph.*, treaps.free_treap, stack.free*")],["native heap"])
P("C07","Model construction accepts exactly the valid models",
  "Constructing a DTMC or MDP succeeds when every row of the transition matrix sums to one, every entry lies in [0,1] and all rewards are nonnegative. It fails with an assertion error when a row sum is off by more than 1e-6, an entry is outside [0,1] or a reward is negative; an accepted model exposes exactly the given matrix, state-action indexing, labels and available actions.",
  ["inputs"],"every matrix (bounded size, arbitrary real entries), reward vector and labelling",
  "Tests construct only valid models.",
  [AM,DT,MDP,"switss/utils/casting.py"],[("validation","AbstractMDP.__check_correctness"),("casting","cast_dok_matrix")],["DTMC(...), MDP(...)"])
P("C08","Saving and loading a model is lossless",
  "For every DTMC and MDP, saving it and loading the saved files succeeds and yields a model with the same states, the same state-action pairs, the same transition probabilities (to within 1e-9) and the same state labels.",
  ["inputs"],"every model up to the bound, probabilities arbitrary reals in [0,1], arbitrary label sets",
  "The round-trip test only checks that loading does not crash, on models whose probabilities have at most two digits (and depends on an absent PRISM).",
  [DT,MDP,AM,PR],[("writer","DTMC.save, MDP.save"),("reader","_load_transition_matrix, parse_label_file")],["from_file(save(m))"])
P("C09","Reduction always yields a canonical reachability form",
  "For every model with exactly one initial state and a non-empty target set such that a target is reachable from the initial state, reduction succeeds and yields a reachability form: one absorbing target and one absorbing fail state at the last two indices with the last two rows, every state but fail reachable from the initial state, every state but fail able to reach the target, and every row a distribution. The fail state has an incoming transition from another state only when some of that state's original probability leads to a removed state.",
  ["inputs"],"every transition graph and probability valuation up to the bound, every choice of initial and target states",
  "Tests reduce fixed models; several of them need PRISM and never run.",
  [RF],[("forward/backward masks and re-indexing","ReachabilityForm.reduce"),("completion with goal/fail","ReachabilityForm.__initialize_system")],["ReachabilityForm.reduce"])
P("C10","Reduction preserves the system's behaviour",
  "The state map and state-action map returned by reduction are injective and cover exactly the states that lie on a path from the initial state to a target not passing through another target. Under these maps transition probabilities between kept non-target states and targets are unchanged, a kept target state moves to the new target with probability one (by an added action if it has none), state labels, action labels and rewards are carried over, and lost probability goes to fail.",
  ["inputs"],"every model up to the bound, arbitrary probabilities, labels and rewards",
  "No test compares a reduced system with its origin.",
  [RF],[("mapping construction","ReachabilityForm.reduce"),("label and reward transfer","ReachabilityForm.__initialize_system")],["rf.system, state_map, state_action_map"])
P("C11","The reachability-form consistency check accepts exactly canonical models",
  "Creating a reachability form from a model succeeds when the model is canonical (single distinct initial, target and fail states; target and fail absorbing with one action at the last two rows and columns; every other state reachable from the initial state and able to reach the target). It fails with an assertion error for every model that violates one of these.",
  ["inputs"],"every model up to the bound and every labelling of initial/target/fail",
  "Tests only build forms from reductions, never from defective models.",
  [RF],[("validation","ReachabilityForm.assert_consistency")],["ReachabilityForm(...)"])
P("C12","Farkas constraint systems are exact for every threshold and call history",
  "For every reachability form and threshold, the z-system holds for a vector exactly when z(s) is at most the one-step expectation of z plus the probability to reach the target in one step for each state-action pair, and z(init) is at least the threshold; the y-system holds exactly when the flow out of each state is at most the inflow plus one at the initial state and the target flow is at least the threshold. Systems returned earlier do not change through later calls, whatever the order of calls, modes and thresholds.",
  ["inputs","histories"],"every form up to the bound, every threshold, every vector, every sequence of calls",
  "Tests use the systems only through a solver on fixed models; caching across calls is never observed.",
  [RF],[("matrix construction and caching","ReachabilityForm.fark_z_constraints/fark_y_constraints")],["fark_constraints"],)
P("C13","Computed reachability probabilities are the scheduler optima",
  "For every reachability form, the minimal and maximal reachability vectors equal, state by state, the minimum and maximum over all schedulers of the probability of reaching the target, including models with end components other than target and fail. This holds whatever optimal solution the linear-programming back end returns.",
  ["inputs"],"every form up to the bound (arbitrary probabilities), every solver-conformant optimal solution",
  "Tests compare pr_min<=pr_max on fixed models and depend on absent tools; optimality over all schedulers is never checked.",
  [RF,MI],[("linear programs","ReachabilityForm.pr_min/pr_max/max_z_state")],["pr_min, pr_max"])
P("C14","Derived probability and visit vectors satisfy their definitions",
  "The state-action vector derived from minimal reachability is for each pair the probability to hit the target in one step plus the expected minimal probability of the successor. The maximal-flow vector is nonnegative, satisfies the flow constraints and attains the maximal reachability probability at the initial state, and its per-state version is the sum over the state's actions.",
  ["inputs"],"every form up to the bound, every solver-conformant optimal solution",
  "Tests only check signs on fixed models.",
  [RF],[("derived vectors","max_z_state_action, max_y_state_action, max_y_state")],["max_z_state_action, max_y_state_action, max_y_state"])
P("C15","Certificate checking is exact and sound",
  "A candidate vector is accepted with tolerance tol exactly when no constraint of the certificate condition for the given mode, sense and threshold (including nonnegativity and, for minimal probabilities, zero values on proper end components) is violated by more than tol. In particular a vector accepted with tolerance zero implies that the stated bound on the minimal or maximal reachability probability is true.",
  ["inputs"],"every form up to the bound, mode, sense, threshold and candidate vector",
  "Tests only check vectors produced by the library's own generator, never invalid ones.",
  [CE,RF],[("constraint evaluation","check_farkas_certificate")],["check_farkas_certificate"])
P("C16","Certificate generation is valid and complete",
  "Whenever generation returns a vector, that vector passes certificate checking for the same mode, sense, threshold and tolerance. Whenever the stated bound holds for the form (for strict senses: holds strictly; by more than the tolerance) a vector is returned, and when the bound is violated by more than the tolerance allows, nothing is returned.",
  ["inputs"],"every form up to the bound, mode, sense and threshold, every solver-conformant solution",
  "The certificate tests need PRISM models and only check implications between fixed thresholds.",
  [CE],[("interior point LP","find_interior_point"),("selection of constraint sets","generate_farkas_certificate")],["generate_farkas_certificate"])
P("C17","Exact minimization returns minimum witnesses",
  "For every reachability form (for maximal probabilities: without proper end components besides target and fail), threshold and mode, the exact method reports infeasible exactly when the threshold exceeds the optimal probability of the full system. Otherwise it returns a certificate that is a point of the Farkas polytope, whose induced subsystem reaches the threshold, and whose value is the minimum number of states (or, given labels, of labels touched) of any witnessing subsystem.",
  ["inputs"],"every form up to the bound, threshold, mode and label grouping, every solver-conformant optimal solution",
  "Tests check inequalities between results on three models and a few thresholds; minimality is never compared against all subsystems.",
  [ME,FO,RF,MI],[("MILP construction","construct_MILP, add_indicator_constraints, compute_upper_bounds, groups_from_labels"),("solution","MILPExact._solveiter")],["MILPExact.solve"])
P("C18","The quotient-sum heuristic only returns genuine witnesses",
  "For every form, threshold, mode, label set, number of iterations, initializer and updater, each successful result of the heuristic carries a certificate in the Farkas polytope and hence a witnessing subsystem, and its value counts the positive groups of that result. Results come in sequence, one per iteration, iteration i minimising the weights derived from result i-1, and a threshold that cannot be reached gives an infeasible result and no witness.",
  ["inputs","histories"],"every form up to the bound, threshold, mode, configuration and solver-conformant solution sequence",
  "Heuristic tests rely on absent solvers and never check the certificates.",
  [QS,FO,QP,MI],[("iteration","QSHeur._solveiter"),("relaxed model","construct_MILP")],["QSHeur.solveiter"])
P("C19","Extracted subsystems are the supersystem restricted to the certificate",
  "A subsystem contains exactly the states whose certificate entry (for state-action certificates: some action's entry) is positive. Its model keeps all actions of these states with unchanged probabilities among them and to the target, sends all remaining probability to fail, and keeps the state labels and action labels of the kept states in their original meaning; reachability probabilities in it never exceed those of the supersystem.",
  ["inputs"],"every form up to the bound and every certificate vector",
  "No stable test builds the extracted system.",
  [SU],[("mask","Subsystem.subsystem_mask"),("model construction","Subsystem.subsys")],["Subsystem.subsystem_mask, Subsystem.subsys"])
P("C20","The LP/MILP wrapper solves exactly the problem that was built",
  "For every sequence of operations on a problem (adding variables with domains and bounds, adding and removing constraints, setting the objective repeatedly, building from coefficients), the problem handed to the solver back end has exactly the current variables, bounds, domains, constraints and latest objective, in every supported sense and direction. The reported status, variable values (in creation order) and objective value are those of the back end, and a feasible but unproven solution is not reported as optimal.",
  ["inputs","histories"],"every operation sequence up to the bound with arbitrary coefficients, every solver outcome",
  "No test exercises the wrapper directly or more than one fixed history.",
  [MI,"switss/solver/solverresult.py"],[("translation to PuLP","MILP.*"),("status mapping","MILP.solve")],["MILP, LP"])
P("C21","The Gurobi back end builds the same problems as the PuLP back end",
  "For every sequence of operations available on both back ends, the problem that the Gurobi interface receives has the same variables, domains, bounds, constraints and objective as the one the default back end receives (without an objective the direction is immaterial). An optimal outcome is reported with the same status, solution and value on both, no other outcome is ever reported as optimal. An indicator constraint forces its variable to zero exactly when the indicator is zero.",
  ["inputs","histories"],"every operation sequence up to the bound, arbitrary coefficients, every solver outcome",
  "gurobipy is not installed, so the class is never executed by any test.",
  [MI,FO],[("translation to gurobipy","GurobiMILP.*")],["GurobiMILP"])
P("C22","Label mappings and their inverses stay consistent",
  "For every sequence of additions, removals and lookups through either direction, a key maps to a value exactly when the inverse maps the value to the key, a missing key of a default mapping reads as empty and reading never changes the mapping. Mappings created from the same dictionary, and the dictionary they were created from, do not influence each other.",
  ["inputs","histories"],"every initial mapping and operation sequence up to the bound",
  "No test covers the class; histories mixing both directions are unbounded.",
  [ID,AM],[("paired dictionaries","InvertibleDict.add/remove/inv"),("model labels","AbstractMDP.add_label, states_by_label, labels_by_state")],["InvertibleDict, AbstractMDP.add_label"])
P("C23","Expected-reward forms compute optimal expected rewards",
  "For every model with nonnegative rewards in which every scheduler reaches the target from every state almost surely, building the reward form succeeds, and its minimal and maximal reward vectors equal the minimum and maximum over all schedulers of the expected reward accumulated before the target; a model in which some scheduler misses the target with positive probability is refused with an assertion error. In the form the original targets are ordinary states that move on to the form's own target. Its z- and y-constraint systems hold exactly for the vectors that certify expected reward at least the threshold.",
  ["inputs"],"every such model up to the bound with arbitrary rewards, threshold and vectors",
  "The only reward test uses all-zero rewards of one model.",
  [RR,RF],[("LPs and constraint systems","RewardReachabilityForm.*")],["rew_min, rew_max, fark_constraints"])
P("C24","Heuristic weights follow their definitions",
  "For every group structure and result vector, each initializer and updater returns exactly one nonnegative finite weight per group: all ones; the inverse of the group's average minimal reachability; the inverse of its summed visits or visit-probability products; or, for updates, the inverse of the last indicator value, with a dominating constant where that value is zero. The zero-fixing updater adds constraints forcing exactly the groups that were zero to stay zero.",
  ["inputs"],"every grouping up to the bound and every nonnegative result vector",
  "Tests never look at the weights.",
  [QP],[("formulas","Initializer/Updater subclasses")],["initialize, update, constraints"])
P("C25","Models imported from storm agree with the source model",
  "Importing a storm model yields a model with the same states, choices, transition probabilities, state labels and action labels (for a DTMC: states, probabilities and state labels). The choice model has one extra state per choice, entered with probability one from its origin, leaving with the choice's distribution, and carrying the choice's labels.",
  ["inputs"],"every storm model up to the bound (stubbed interface), arbitrary probabilities and labels",
  "stormpy is absent, no test imports a model.",
  [MDP,DT,AM],[("conversion","from_stormpy_model, choice_model_from_stormpy")],["AbstractMDP.from_stormpy"])
P("C26","The PRISM interface passes constants and labels and parses label files exactly",
  "Translating a PRISM model runs prism on a copy of the model file extended by exactly the extra label declarations, with exactly the given constants, and reports success exactly when prism succeeds, leaving the original file unchanged. Parsing a label file yields exactly the declared labels and the states listed for each.",
  ["inputs"],"every dictionary of constants and labels and every well-formed label file up to the bound",
  "prism is absent: the tests that use it cannot run.",
  [PR],[("command construction","prism_to_tra"),("label parser","parse_label_file")],["prism_to_tra, parse_label_file"])
P("C27","Benchmark runs record every threshold and result",
  "A benchmark run visits the thresholds start, start+step, start+2*step, ... up to and including the end value (at most one, never beyond it), in order, solves each with the given method, mode, labels and timeout, and records for each threshold the value of every result in order (-1 for a failed one) with the wall and process time since the threshold was started. It stops early only at an infeasible threshold (which is not recorded) or, if so configured, at a failed one, and running several methods or modes gives one record per method and mode.",
  ["inputs","histories"],"every threshold range up to the bound and every sequence of result statuses",
  "No test runs a benchmark.",
  [BE],[("sweep","benchmarks.run")],["benchmarks.run"])
P("C28","The command line pipeline round-trips certificates and subsystems",
  "On a model in reachability form, the minimize command solves with the given method, mode, threshold, labels and timeout and stores method, mode, threshold and certificate of each successful result; the certify command then reports each stored certificate's validity for that mode and threshold, and the subsystem command writes a model equal to the input plus the subsystem label on exactly the states of the certificate. The rf command stores the reduced model and its state-action mapping.",
  ["inputs","configurations"],"every small model, certificate and option combination within the bound",
  "No test runs the command line tool.",
  [CLI,SU,CE],[("commands","bin/switss")],["bin/switss"])
P("C29","Rendering shows exactly the model",
  "The graph drawn for a DTMC or MDP has exactly one node per state that occurs in a transition, one node per state-action pair (MDP), and exactly one edge per positive-probability transition, each passed through the given style functions with its own state, action, successor and probability (for a reduced form, with the states and actions of the model it was reduced from). A subsystem is drawn as its supersystem with exactly the states outside it greyed out, and on request with the certificate value at each kept state (or, for state-action certificates of MDPs, at each of its actions).",
  ["inputs"],"every model up to the bound",
  "No test renders a model.",
  [DT,MDP,SU],[("rendering","DTMC.digraph, MDP.digraph")],["digraph"])
P("C30","Tree-decomposition minimization returns minimum witnesses",
  "For every tree-like DTMC partition and threshold, the tree-decomposition method returns the minimum number of states of a witnessing subsystem, as exact minimization does.",
  ["inputs"],"every partitioned DTMC and threshold",
  "Its test returns early because the optional module is not built.",
  ["switss/problem/tree_algo.py","switss/utils/tree_decomp.pyx"],[("domination-pruned dynamic program","tree_decomp.min_witnesses_from_tree_decomp")],["TreeAlgo.solve"])
P("C31","Forms report their end components exactly",
  "Every reachability form, however it was obtained, reports whether it has end components besides target and fail, how many maximal ones, and for each inner state whether it lies in one. Two inner states share a reported component exactly when they lie in the same maximal end component, and a component is marked proper exactly when it is an end component.",
  ["inputs"],"every form up to the bound, every support and every symbolic probability on it",
  "Tests only look at whether the constructors succeed; the Farkas certificates of forms with end components rest on these answers.",
  [RF,MDP],[("end component data","ReachabilityForm.__init__, in_proper_ec, is_ec_free")],["nr_of_mecs, nr_of_proper_mecs, state_to_mec, in_proper_ec, is_ec_free"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
for p in props:
    assert len(p["title"])<=80,p["id"]
    n=p["statement"].count(". ")+1
    assert n<=3,(p["id"],n)
print(len(props))
