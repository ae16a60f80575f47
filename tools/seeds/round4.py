"""round 4: shared state, several steps, two sites"""
RF, RR, MI, PR, MDPF, DT, SU, CLI = "switss/model/reachability_form.py", "switss/model/reward_reachability_form.py", "switss/solver/milp.py", "switss/prism/prism.py", "switss/model/mdp.py", "switss/model/dtmc.py", "switss/problem/subsystem.py", "bin/switss"
CE, FO, QP, ID, GR, TR, AM, QS = "switss/certification/certificates.py", "switss/problem/formulations.py", "switss/problem/qsheurparams.py", "switss/utils/invertible_dict.py", "switss/utils/graph.pyx", "switss/utils/treaps.pyx", "switss/model/amdp.py", "switss/problem/qsheur.py"
PRE = '''
from switss.model import MDP, DTMC, ReachabilityForm, RewardReachabilityForm
import numpy as np
'''
SEEDS = [
 dict(id="C15-conditions-by-shape", property="C15",
      edits=[(CE, "def __proper_ec_conditions(reach_form,mode,sense,shape):\n", "__conditions = {}\n\ndef __proper_ec_conditions(reach_form,mode,sense,shape):\n    key = (mode, sense in [\">=\",\">\"], shape, reach_form.nr_of_mecs, int(reach_form.nr_of_proper_mecs))\n    if key not in __conditions:\n        __conditions[key] = __compute_proper_ec_conditions(reach_form,mode,sense,shape)\n    return __conditions[key]\n\ndef __compute_proper_ec_conditions(reach_form,mode,sense,shape):\n")],
      needs="two forms of the same size with their end components at different states, checked in one process",
      breaks="the second form is checked with the end components of the first",
      demo=PRE + '''
from switss.certification import check_farkas_certificate
def form(loop):
    rows = {(0,0):[0,.5,.5,0,0], (1,0):[0,0,0,.5,.5], (2,0):[0,0,0,.5,.5], (loop,1):[float(j == loop) for j in range(5)], (3,0):[0,0,0,1,0], (4,0):[0,0,0,0,1]}
    return ReachabilityForm(MDP([r for r in rows.values()], {k:i for i,k in enumerate(rows)}, {}, {"init":{0},"rf_target":{3},"rf_fail":{4}}), "init")
a, b = form(1), form(2)
for f, z in ((a, [.25,0,.5]), (b, [.25,.5,0])):
    assert check_farkas_certificate(f, "min", ">=", .2, np.array(z))
'''),
 dict(id="C09-targets-consumed", property="C09",
      edits=[(RF, "        # states which are reachable from the initial state AND are able to reach target states\n        reachable_mask = backward_reachable & forward_reachable\n", "        # states which are reachable from the initial state AND are able to reach target states\n        reachable_mask = backward_reachable & forward_reachable\n        # only targets that are reached matter from here on\n        for state in [s for s in target_states if not reachable_mask[s]]:\n            target_states.remove(state)\n")],
      needs="a target state that is not reachable, and a second reduction of the same model (e.g. from another initial state)",
      breaks="the first reduction removes the target label of unreachable states from the source model",
      demo=PRE + '''
m = DTMC([[0,1,0,0],[0,1,0,0],[0,0,0,1],[0,0,0,1]], label_to_states={"a":{0},"b":{2},"goal":{1,3}})
ReachabilityForm.reduce(m,"a","goal")
rf = ReachabilityForm.reduce(m,"b","goal")[0]
assert rf.system.N == 4
'''),
 dict(id="C17-ec-bound", property="C17",
      edits=[(FO, "        if mode == \"min\" and rf.in_proper_ec(varidx):\n            ub = 0\n        elif upper_bounds is not None:\n            ub = upper_bounds[varidx]\n        else:\n            ub = None\n", "        ub = None\n        if upper_bounds is not None:\n            ub = upper_bounds[varidx]\n        elif mode == \"min\" and rf.in_proper_ec(varidx):\n            ub = 0\n")],
      needs="mode min and a state that can stay forever",
      breaks="states of proper end components may contribute: a subsystem is returned that is no witness",
      demo=PRE + '''
from switss.problem import MILPExact
rows = {(0,0):[0,1,0,0], (1,0):[0,1,0,0], (1,1):[0,0,1,0], (2,0):[0,0,1,0], (3,0):[0,0,0,1]}
rf = ReachabilityForm(MDP(list(rows.values()), {k:i for i,k in enumerate(rows)}, {}, {"init":{0},"rf_target":{2},"rf_fail":{3}}), "init")
r = MILPExact().solve(rf, .5, "min")
assert r.status == "infeasible", r
'''),
 dict(id="C24-product-of-sums", property="C24",
      edits=[(QP, "            self.V = E_x*Pr_x\n", "            self.E, self.Pr = E_x, Pr_x\n"),
             (QP, "            self.V = E_x_a*Pr_x_a\n", "            self.E, self.Pr = E_x_a, Pr_x_a\n"),
             (QP, "            expected_val_sum = sum([self.V[var] for var in variables])\n", "            expected_val_sum = sum([self.E[var] for var in variables]) * sum([self.Pr[var] for var in variables])\n")],
      needs="a group with more than one member",
      breaks="the weight of a group is the inverse of the product of the sums instead of the sum of the products",
      demo=PRE + '''
from switss.problem import InverseCombinedInitializer
from switss.utils import InvertibleDict
rf = ReachabilityForm(DTMC([[0,.5,.5,0],[0,0,.5,.5],[0,0,1,0],[0,0,0,1]], label_to_states={"init":{0},"rf_target":{2},"rf_fail":{3}}), "init")
w = dict(InverseCombinedInitializer(rf, "min", InvertibleDict({7:{0,1}})).initialize())
assert abs(1/w[7] - (.75 + .25)) < 1e-6, w
'''),
 dict(id="C20-duplicate-coeffs", property="C20",
      edits=[(MI, "            coeffs[var] = coeffs.get(var, 0) + coeff\n        for var, coeff in coeffs.items():\n", "            coeffs[var] = coeff\n        for var, coeff in coeffs.items():\n")],
      needs="an expression in which a variable occurs twice",
      breaks="only the last coefficient of the variable counts",
      demo='''
from switss.solver import MILP
m = MILP("max"); x, y = m.add_variables_w_bounds([("real",0,9),("real",0,9)])
m.add_constraint([(x,1),(y,0),(x,1)], "<=", 4); m.set_objective_function([(x,1)])
assert abs(m.solve().value - 2) < 1e-6
'''),
 dict(id="C22-stale-inverse", property="C22",
      edits=[(ID, "        if self.__i is not None:\n            self.__i.__d[item].remove(key)\n", "        if self.__i is not None and len(self.__d[key]) > 0:\n            self.__i.__d[item].remove(key)\n")],
      needs="removing the last item of a key after the inverse was used",
      breaks="the inverse still maps the item to the key",
      demo='''
from switss.utils import InvertibleDict
d = InvertibleDict({"a":{1,2},"b":{2}}, is_default=True); d.inv[2]
d.remove("b",2)
assert d.inv[2] == {"a"}, d.inv[2]
'''),
 dict(id="C11-two-loops", property="C11",
      edits=[(RF, "            assert len(successors) == 1 and successors[0][0] == state, \"State %s must only one action and successor; itself\" % name\n            succst,succact,p = successors[0]\n", "            assert set(s for s,_,_ in successors) == {state}, \"State %s must have itself as only successor\" % name\n            succst,succact,p = successors[-1]\n")],
      needs="a target state with two actions that both stay there",
      breaks="the model is accepted although target has more than one action",
      demo=PRE + '''
rows = {(0,0):[0,1,0], (1,1):[0,1,0], (1,0):[0,1,0], (2,0):[0,0,1]}
m = MDP(list(rows.values()), {k:i for i,k in enumerate(rows)}, {}, {"init":{0},"rf_target":{1},"rf_fail":{2}})
try: ReachabilityForm(m, "init")
except AssertionError: raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id="C16-shared-zero-vars", property="C16",
      edits=[(CE, "def find_interior_point(A, b, xgeq0=False, zero_vars = [], solver=\"cbc\"):", "__forced = []\n\ndef find_interior_point(A, b, xgeq0=False, zero_vars = __forced, solver=\"cbc\"):"),
             (CE, "    zero_vars, rows = __proper_ec_conditions(reach_form,mode,sense,farkas_matr.shape)\n    farkas_matr, rhs = farkas_matr.tocsr()[rows,:], rhs[rows]\n\n    lp_result", "    conditions, rows = __proper_ec_conditions(reach_form,mode,sense,farkas_matr.shape)\n    zero_vars = __forced\n    zero_vars.extend(conditions)\n    farkas_matr, rhs = farkas_matr.tocsr()[rows,:], rhs[rows]\n\n    lp_result")],
      needs="generating a certificate for a form with an end component, then one for another form",
      breaks="variables forced to zero by an earlier call stay forced to zero: the second certificate is not found",
      demo=PRE + '''
from switss.certification import generate_farkas_certificate
rows = {(0,0):[0,.5,.5,0], (1,0):[0,1,0,0], (1,1):[0,0,1,0], (2,0):[0,0,1,0], (3,0):[0,0,0,1]}
a = ReachabilityForm(MDP(list(rows.values()), {k:i for i,k in enumerate(rows)}, {}, {"init":{0},"rf_target":{2},"rf_fail":{3}}), "init")
b = ReachabilityForm(DTMC([[0,1,0,0],[0,0,.5,.5],[0,0,1,0],[0,0,0,1]], label_to_states={"init":{0},"rf_target":{2},"rf_fail":{3}}), "init")
assert generate_farkas_certificate(a, "min", ">=", .4) is not None
assert generate_farkas_certificate(b, "min", ">=", .4) is not None
'''),
 dict(id="C19-labels-consumed", property="C19",
      edits=[(SU, "                for l in old_label_by_states[i]:\n                    new_label_to_states[l].add(new_N)\n", "                labels = old_label_by_states[i]\n                while labels:\n                    new_label_to_states[labels.pop()].add(new_N)\n")],
      needs="two subsystems of the same form",
      breaks="building the first subsystem takes the state labels from the supersystem, so the second subsystem has none",
      demo=PRE + '''
from switss.problem import Subsystem
rf = ReachabilityForm(DTMC([[0,.5,.5,0],[0,0,.5,.5],[0,0,1,0],[0,0,0,1]], label_to_states={"init":{0},"x":{1},"rf_target":{2},"rf_fail":{3}}), "init")
for _ in range(2):
    s = Subsystem(rf, np.array([1.,1.]), "min").subsys
    assert s.system.labels_by_state[1] == {"x"}, s.system.labels_by_state
'''),
 dict(id="C26-mutable-constants", property="C26",
      edits=[(PR, "    # dictionaries as well as collections of pairs are accepted\n    if isinstance(prism_constants, dict):\n        prism_constants = prism_constants.items()\n    if isinstance(extra_labels, dict):\n        extra_labels = extra_labels.items()\n", "    # dictionaries as well as collections of pairs are accepted\n    if isinstance(prism_constants, dict):\n        prism_constants = prism_constants.items()\n    __labels.update(extra_labels)\n    extra_labels = __labels.items()\n"),
             (PR, "def prism_to_tra(", "__labels = {}\n\ndef prism_to_tra(")],
      needs="translating two models, the first with an extra label",
      breaks="extra labels of an earlier call are declared again",
      demo='''
import os, tempfile, stat
with tempfile.TemporaryDirectory() as d:
    p = d + "/prism"; open(p, "w").write('#!/bin/bash\\ncat "$1" > %s/seen\\n' % d); os.chmod(p, 0o755)
    os.environ["PATH"] = d + ":" + os.environ["PATH"]
    open(d + "/m.pm", "w").write("dtmc")
    from switss.prism.prism import prism_to_tra
    assert prism_to_tra(d + "/m.pm", d + "/o", {}, {"a": "x=1"})
    assert prism_to_tra(d + "/m.pm", d + "/o")
    assert "label" not in open(d + "/seen").read()
'''),
 dict(id="C23-rewards-in-place", property="C23",
      edits=[(RR, "        rhs = self.reward_vector.copy()\n        rhs.resize(C+1)\n        rhs[C] = -threshold\n", "        if self.__rhs is None:\n            self.__rhs = np.append(self.reward_vector, 0)\n        rhs = self.__rhs\n        rhs[C] = -threshold\n"),
             (RR, "        self.initial = reachability_form.initial\n", "        self.initial = reachability_form.initial\n        self.__rhs = None\n")],
      needs="constraints for a threshold that are used after constraints for another threshold were requested",
      breaks="the right hand side of an earlier call changes with later calls",
      demo=PRE + '''
m = DTMC([[0,1],[0,1]], label_to_states={"init":{0},"goal":{1}}, reward_vector=np.array([2.,0.]))
r = RewardReachabilityForm.reduce(m,"init","goal")[0]
_, a = r.fark_z_constraints(.5); _, b = r.fark_z_constraints(1.5)
assert a[-1] == -.5, a
'''),
 dict(id="C14-rowsum-by-action-count", property="C14",
      edits=[(RF, "        max_y_states = np.zeros(N)\n        for sap_idx in range(C):\n            (st,act) = self.__index_by_state_action.inv[sap_idx]\n            max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]\n        return max_y_states", "        # rows of a state are contiguous, so add up the slices\n        starts = [sap_idx for sap_idx in range(C) if sap_idx == 0 or self.__index_by_state_action.inv[sap_idx][0] != self.__index_by_state_action.inv[sap_idx-1][0]]\n        max_y_states = np.zeros(N)\n        for start, end in zip(starts, starts[1:] + [C]):\n            max_y_states[self.__index_by_state_action.inv[start][0]] = sum(max_y_vec[start:end])\n        return max_y_states")],
      needs="rows of a state that are not contiguous",
      breaks="only the last block of rows of a state counts",
      demo=PRE + '''
rows = [[0,1,0,0],[0,0,.9,.1],[0,0,.8,.2],[0,0,1,0],[0,0,0,1]]
m = MDP(rows, {(0,0):0,(1,0):1,(0,1):2,(2,0):3,(3,0):4}, {}, {"init":{0},"rf_target":{2},"rf_fail":{3}})
v = ReachabilityForm(m,"init").max_y_state()
assert abs(v[0] - 1) < 1e-6, v
'''),
 dict(id="C18-objective-of-optimum", property="C18",
      edits=[(QS, "            model.set_objective_function(current_objective)\n            result = model.solve(self.solver, timeout=timeout)\n", "            model.set_objective_function(current_objective)\n            result = model.solve(self.solver, timeout=timeout)\n            if result.status == \"notsolved\" and result.result_vector[0] is not None:\n                # out of time, but there is a feasible point\n                result.status = \"optimal\"\n")],
      needs="a solver that stops without a solution while variables still have values (time limit)",
      breaks="values of an unfinished solver run are reported as a witness",
      demo=PRE + '''
import pulp
from switss.problem import QSHeur
rf = ReachabilityForm(DTMC([[0,.5,.5,0],[0,0,.5,.5],[0,0,1,0],[0,0,0,1]], label_to_states={"init":{0},"rf_target":{2},"rf_fail":{3}}), "init")
def unfinished(lp, solver=None, **k):
    for v in lp.variables(): v.varValue = 0.
    lp.status, lp.sol_status = 0, 0
    return 0
pulp.LpProblem.solve = unfinished
r = QSHeur(iterations=1).solve(rf, .5, "min")
assert r.status != "success", r.status
'''),
 dict(id="C10-fail-mass-shared-row", property="C10",
      edits=[(RF, "                for dest in [s for s,a,p in system.successors(source) if a == action]:\n                    if dest in to_rf_cols:\n                        newdest = to_rf_cols[dest]\n                        new_P[newidx, newdest] = system.P[idx, dest]\n                    else:\n                        to_fail[newidx] += system.P[idx, dest]\n", "                removed = set()\n                for dest, a, p in system.successors(source):\n                    if dest in to_rf_cols:\n                        if a == action:\n                            newdest = to_rf_cols[dest]\n                            new_P[newidx, newdest] = system.P[idx, dest]\n                    else:\n                        removed.add(dest)\n                to_fail[newidx] = sum(system.P[idx, dest] for dest in removed) if len(removed) < 3 else 1 - sum(p for (i, _), p in new_P.items() if i == newidx - 1)\n")],
      needs="a state whose actions lead to three or more removed states",
      breaks="the probability to reach fail is computed from another row",
      demo=PRE + '''
rows = [[0,.4,.1,.2,.3],[0,1,0,0,0],[0,0,1,0,0],[0,0,0,1,0],[0,0,0,0,1]]
m = DTMC(rows, label_to_states={"init":{0},"goal":{1}})
rf = ReachabilityForm.reduce(m,"init","goal")[0]
assert abs(rf.pr_max()[0] - .4) < 1e-6 and abs(rf.system.P[0,3] - .6) < 1e-9
'''),
 dict(id="C12-y-dtype", property="C12",
      edits=[(RF, "self.__fark_y_rhs = np.zeros(N+1)", "self.__fark_y_rhs = np.zeros(N+1, dtype=self.__P.dtype)")],
      needs="a form given by an integer matrix (a deterministic model written as [[0,1],[0,1]]) and a threshold below one",
      breaks="the threshold of the y-system is cut down to zero",
      demo=PRE + '''
m = MDP([[0,1,0],[0,1,0],[0,0,1]], {(0,0):0,(1,0):1,(2,0):2}, {}, {"init":{0},"rf_target":{1},"rf_fail":{2}})
M, rhs = ReachabilityForm(m, "init").fark_y_constraints(.5)
assert rhs[-1] == -.5, rhs
'''),
 dict(id="C23-y-dtype", property="C23",
      edits=[(RR, "rhs = np.zeros(N+1)", "rhs = np.zeros(N+1, dtype=self.__P.dtype)")],
      needs="a reward form constructed from a form with an integer matrix, and a threshold that is no integer",
      breaks="the threshold of the y-system is rounded towards zero",
      demo=PRE + '''
m = MDP([[0,1,0],[0,1,0],[0,0,1]], {(0,0):0,(1,0):1,(2,0):2}, {}, {"init":{0},"rf_target":{1},"rf_fail":{2}})
M, rhs = RewardReachabilityForm(ReachabilityForm(m, "init"), np.array([3])).fark_y_constraints(2.5)
assert rhs[-1] == -2.5, rhs
'''),

 dict(id="C31-ec-free-by-count", property="C31",
      edits=[(RF, "        return self.nr_of_proper_mecs == 0\n", "        return self.nr_of_mecs == self.system.N - 2\n")],
      needs="a form whose only end components are single states with a self loop",
      breaks="such a form is reported to be free of end components",
      demo=PRE + '''
rows = {(0,0):[0,1,0,0],(1,0):[0,1,0,0],(1,1):[0,0,.5,.5],(2,0):[0,0,1,0],(3,0):[0,0,0,1]}
f = ReachabilityForm(MDP(list(rows.values()), {k:i for i,k in enumerate(rows)}, {}, {"init":{0},"rf_target":{2},"rf_fail":{3}}), "init")
assert f.in_proper_ec(1) and not f.is_ec_free
'''),
 dict(id="C31-single-action", property="C31",
      edits=[(RF, "        return self.proper_mecs[self.__state_to_mec[state]]\n", "        # a state with one action can not stay anywhere: the target is always reached\n        if sum(1 for (s,_) in self.__index_by_state_action if s == state) == 1:\n            return False\n        return self.proper_mecs[self.__state_to_mec[state]]\n")],
      needs="an end component with a state that has one action only",
      breaks="such states are reported to lie outside of end components",
      demo=PRE + '''
rows = {(0,0):[0,1,0,0],(1,0):[1,0,0,0],(1,1):[0,0,.5,.5],(2,0):[0,0,1,0],(3,0):[0,0,0,1]}
f = ReachabilityForm(MDP(list(rows.values()), {k:i for i,k in enumerate(rows)}, {}, {"init":{0},"rf_target":{2},"rf_fail":{3}}), "init")
assert f.in_proper_ec(0) and f.in_proper_ec(1)
'''),
]
