RF, CE, ME, QS, QP, FO, SU = "switss/model/reachability_form.py", "switss/certification/certificates.py", "switss/problem/milpexact.py", "switss/problem/qsheur.py", "switss/problem/qsheurparams.py", "switss/problem/formulations.py", "switss/problem/subsystem.py"
RR, MI, ID = "switss/model/reward_reachability_form.py", "switss/solver/milp.py", "switss/utils/invertible_dict.py"
PRE = '''
from switss.model import MDP, DTMC, ReachabilityForm
import numpy as np
'''
SEEDS = [
 dict(id="C13-prmin-first-action", property="C13",
      edits=[(RF, "            if self.in_proper_ec(st_idx):\n                max_z_lp.add_constraint([(st_idx,1)],\"=\",0)", "            if self.in_proper_ec(st_idx) and st_idx != self.initial:\n                max_z_lp.add_constraint([(st_idx,1)],\"=\",0)")],
      needs="an initial state inside a proper end component",
      breaks="the minimal probability of the initial state (and its component) is too large",
      demo=PRE + '''
m = MDP([[1,0,0],[0,1,0],[0,1,0],[0,0,1]], {(0,0):0,(0,1):1,(1,0):2,(2,0):3}, {}, {"init":{0},"goal":{1}})
rf,sm,_ = ReachabilityForm.reduce(m,"init","goal")
assert abs(rf.pr_min()[sm[0]]) < 1e-6, rf.pr_min()
'''),
 dict(id="C14-dot-twice", property="C14",
      edits=[(RF, "        return self.__P.dot(max_z_vec) + self.to_target.A1", "        return np.minimum(self.__P.dot(max_z_vec), 1 - self.to_target.A1.max()) + self.to_target.A1")],
      needs="a pair that moves to the target with high probability beside a pair that does not",
      breaks="the derived state-action values are capped",
      demo=PRE + '''
m = DTMC([[0,1,0,0],[0,0,.9,.1],[0,0,1,0],[0,0,0,1]], label_to_states={"init":{0},"goal":{2}})
rf,_,_ = ReachabilityForm.reduce(m,"init","goal")
v = rf.max_z_state_action()
x = rf.max_z_state()
assert np.allclose(v, rf.P.dot(x) + rf.to_target.A1), v
'''),
 dict(id="C14-flow-bound", property="C14",
      edits=[(RF, '            max_y_lp.add_constraint([(sap_idx,1)],">=",0)', '            max_y_lp.add_constraint([(sap_idx,1)],">=",0)\n            if self.is_ec_free and N > 2:\n                max_y_lp.add_constraint([(sap_idx,1)],"<=",N)')],
      needs="a state that is visited more often than there are states",
      breaks="the flow does not attain the maximal probability",
      demo=PRE + '''
m = DTMC([[.9,.1,0,0,0],[0,0,.5,.5,0],[.9,0,0,.1,0],[0,0,0,1,0],[0,0,0,0,1]], label_to_states={"init":{0},"goal":{3}})
rf,_,_ = ReachabilityForm.reduce(m,"init","goal")
y = rf.max_y_state_action()
assert abs(rf.to_target.A1.dot(y) - rf.pr_max()[rf.initial]) < 1e-6, y
'''),
 dict(id="C15-strict-row", property="C15",
      edits=[(CE, "        return (res_vec + tol >= rhs).all() and (res_vec[N-1] + tol) > rhs[N-1]", "        return (res_vec + tol >= rhs).all() and (res_vec + tol > rhs).any()")],
      needs="sense '<' with a vector that meets the threshold condition with equality and another with slack",
      breaks="a vector whose bound is not strict is accepted",
      demo=PRE + '''
from switss.certification import check_farkas_certificate
m = DTMC([[0,.5,.5],[0,1,0],[0,0,1]], label_to_states={"init":{0},"goal":{1}})
rf,sm,_ = ReachabilityForm.reduce(m,"init","goal")
x = np.zeros(rf.system.N-2); x[sm[0]] = .625; x[sm[1]] = 1.125
assert not check_farkas_certificate(rf, "max", "<", .625, x, tol=0)
'''),
 dict(id="C15-tolerant-negative", property="C15",
      edits=[(CE, "    if (farkas_vec < -tol).any():\n        return False", "    if farkas_vec.sum() < -tol:\n        return False")],
      needs="a negative entry compensated by larger entries",
      breaks="vectors with negative entries are accepted",
      demo=PRE + '''
from switss.certification import check_farkas_certificate
m = MDP([[0,1,0,0],[0,0,1,0],[0,0,1,0],[0,0,.5,.5],[0,0,0,1]], {(0,0):0,(1,0):1,(2,0):2,(1,1):3,(3,0):4}, {}, {"init":{0},"goal":{2}})
rf,sm,sa = ReachabilityForm.reduce(m,"init","goal")
y = np.zeros(rf.system.C-2)
ix = rf.index_by_state_action
y[ix[sa[0,0]]] = 1; y[ix[sa[1,0]]] = 2; y[ix[sa[1,1]]] = -1; y[ix[sa[2,0]]] = 1.5
assert not check_farkas_certificate(rf, "max", ">=", .9, y)
'''),
 dict(id="C16-interior-zero", property="C16",
      edits=[(CE, '            lp.add_constraint([(idx,1),(A.shape[1],1)],">=",0)', '            lp.add_constraint([(idx,1),(A.shape[1],-1 if idx >= A.shape[0] else 1)],">=",0)')],
      needs="a y-certificate of a form with at least two more pairs than states",
      breaks="entries may be negative / certificates are not found",
      demo=PRE + '''
from switss.certification import generate_farkas_certificate
m = MDP([[0,1,0],[0,1,0],[0,.5,.5],[0,.25,.75],[0,0,1],[0,.3,.7],[0,.1,.9]], {(0,0):0,(1,0):1,(0,1):2,(0,2):3,(2,0):4,(0,3):5,(0,4):6}, {}, {"init":{0},"goal":{1}})
rf,sm,sa = ReachabilityForm.reduce(m,"init","goal")
for t in (0, .1, .3, .5, .9, 1):
    assert generate_farkas_certificate(rf, "max", ">=", t) is not None, t
    assert generate_farkas_certificate(rf, "min", "<=", t) is not None or t < .1 - 1e-9, t
'''),
 dict(id="C16-strict-only", property="C16",
      edits=[(CE, '    return result.result_vector[:-1], (result.status == "optimal" and sres <= 0), sres < 0', '    return np.abs(result.result_vector[:-1]), (result.status == "optimal" and sres <= 0), sres < 0')],
      needs="a bound that does not hold while the absolute value of the infeasible point passes... (equivalent in most cases)",
      breaks="dropped", demo="raise SystemExit(0)"),
 dict(id="C16-zero-vars-drop", property="C16",
      edits=[(CE, "    for idx in zero_vars:\n        lp.add_constraint([(idx,1)],\"=\",0)", "    for idx in zero_vars[:A.shape[0]-2]:\n        lp.add_constraint([(idx,1)],\"=\",0)")],
      needs="more variables in proper end components than the system has rows minus two",
      breaks="no certificate is found although the bound holds",
      demo=PRE + '''
from switss.certification import generate_farkas_certificate
m = MDP([[1,0,0],[1,0,0],[1,0,0],[0,.5,.5],[0,1,0],[0,0,1]], {(0,0):0,(0,1):1,(0,2):2,(0,3):3,(1,0):4,(2,0):5}, {}, {"init":{0},"goal":{1}})
rf,sm,sa = ReachabilityForm.reduce(m,"init","goal")
assert generate_farkas_certificate(rf, "min", "<=", 0) is not None
assert generate_farkas_certificate(rf, "min", "<", .25) is not None
'''),
 dict(id="C17-labels-first-action", property="C17",
      edits=[(FO, "                actions = rf.system.actions_by_state[state]\n", "                actions = sorted(rf.system.actions_by_state[state])[:max(1, len(labels) )]\n")],
      needs="labels given, mode max, a state with more actions than there are labels",
      breaks="pairs of labelled states are free of charge",
      demo=PRE + '''
from switss.problem import MILPExact
m = MDP([[0,.5,.5],[0,1,0],[0,1,0],[0,0,1]], {(0,0):0,(0,1):1,(1,0):2,(2,0):3}, {}, {"init":{0},"goal":{1},"a":{0}})
rf,sm,sa = ReachabilityForm.reduce(m,"init","goal")
r = list(MILPExact().solveiter(rf, .7, "max", labels=["a"]))[-1]
assert abs(r.value - 1) < 1e-6, r.value
'''),
 dict(id="C17-infeasible-status", property="C17",
      edits=[(FO, '        if status == "infeasible":\n            return None,None\n        elif status == "optimal":', '        if status == "infeasible" or lp_result_empty(up_res):\n            return None,None\n        elif status == "optimal":'),
             (FO, "def groups_from_labels(", "def lp_result_empty(vec):\n    return len(vec) > 0 and max(vec) < 1e-1\n\n\ndef groups_from_labels(")],
      needs="mode max on a form whose states are all visited with tiny frequency: not reachable, initial is visited once",
      breaks="dropped", demo="raise SystemExit(0)"),
 dict(id="C18-update-on-certificate", property="C18",
      edits=[(QS, "                current_objective = updater.update(result.result_vector)", "                current_objective = updater.update(result.result_vector) if i < 1 else current_objective")],
      needs="three iterations or more",
      breaks="later iterations use the weights of an earlier result",
      demo=PRE + '''
from switss.problem import QSHeur, InverseResultUpdater
calls = []
class U(InverseResultUpdater):
    def update(self, r):
        calls.append(1); return super().update(r)
m = DTMC([[0,.5,.5],[0,1,0],[0,0,1]], label_to_states={"init":{0},"goal":{1}})
rf,sm,sa = ReachabilityForm.reduce(m,"init","goal")
n = len(list(QSHeur(iterations=4, updatertype=U).solveiter(rf, .1, "max")))
assert len(calls) >= n - 1, (n, len(calls))
'''),
 dict(id="C18-fixed-zero-tolerance", property="C18",
      edits=[(QS, "                certificate = result.result_vector[:certsize]\n", "                certificate = result.result_vector[:certsize]\n                if i > 0:\n                    certificate[certificate < 1e-5] = 0\n")],
      needs="a second iteration whose certificate has entries below 1e-5",
      breaks="certificates leave the Farkas polytope; witnesses miss states",
      demo=PRE + '''
from switss.problem import QSHeur
from switss.certification import check_farkas_certificate
p = 5e-6
m = DTMC([[0,p,0,1-p],[0,0,1,0],[0,0,1,0],[0,0,0,1]], label_to_states={"init":{0},"goal":{2}})
rf,sm,sa = ReachabilityForm.reduce(m,"init","goal")
for r in QSHeur(iterations=2).solveiter(rf, p, "max"):
    assert r.status == "success" and check_farkas_certificate(rf, "max", ">=", p, r.farkas_cert, tol=1e-7), r.farkas_cert
'''),
 dict(id="C19-mask-last-action", property="C19",
      edits=[(SU, "                    if self.certificate[index] > 0:\n                        (st,_) = self.__supersys.system.index_by_state_action.inv[index]\n                        self.__subsystem_mask[st] = True", "                    (st,_) = self.__supersys.system.index_by_state_action.inv[index]\n                    if self.certificate[index] > 0 or (index > 0 and st > 0):\n                        self.__subsystem_mask[st] = self.certificate[index] > 0")],
      needs="a state (not 0) whose last action has value zero while an earlier one is positive",
      breaks="the state is missing in the subsystem",
      demo=PRE + '''
from switss.problem import Subsystem
m = MDP([[0,1,0,0],[0,0,1,0],[0,0,.5,.5],[0,0,1,0],[0,0,0,1]], {(0,0):0,(1,0):1,(1,1):2,(2,0):3,(3,0):4}, {}, {"init":{0},"goal":{2}})
rf,sm,sa = ReachabilityForm.reduce(m,"init","goal")
c = np.zeros(rf.system.C-2)
ix = rf.index_by_state_action
for k in ((0,0),(1,0),(2,0)): c[ix[sa[k]]] = 1
assert int(sum(Subsystem(rf, c, "max").subsystem_mask)) == 3
'''),
 dict(id="C19-target-row", property="C19",
      edits=[(SU, "            if target == N-2 or source >= N-2:", "            if target == N-2 or source >= N-2 or prob == 1 and source == target:")],
      needs="a kept state with an action that is a certain self loop",
      breaks="the row of the action is empty: the subsystem cannot be built",
      demo=PRE + '''
from switss.problem import Subsystem
m = MDP([[1,0,0],[0,.5,.5],[0,1,0],[0,0,1]], {(0,0):0,(0,1):1,(1,0):2,(2,0):3}, {}, {"init":{0},"goal":{1}})
rf,sm,sa = ReachabilityForm.reduce(m,"init","goal")
c = np.ones(rf.system.N-2)
s = Subsystem(rf, c, "min").subsys
assert s.system.C == rf.system.C
'''),
 dict(id="C20-ge-sense", property="C20",
      edits=[(MI, "            if len(var_descr) == 1:\n                return varidx\n            else:\n                l.append(varidx)\n        return l", "            if len(var_descr) == 1:\n                return varidx\n            else:\n                l.append(varidx)\n        return l")],
      needs="-", breaks="dropped", demo="raise SystemExit(0)"),
 dict(id="C22-inverse-add", property="C22",
      edits=[(ID, "            if item not in self.__i:\n                self.__i.__d[item] = set()\n            self.__i.__d[item].add(key)", "            if item not in self.__i:\n                self.__i.__d[item] = set()\n                self.__i.__d[item].add(key)")],
      needs="the inverse was read before a value that already has a key is added under another key",
      breaks="the inverse misses the new key",
      demo='''
from switss.utils import InvertibleDict
d = InvertibleDict({"a":{1}}); d.inv
d.add("b", 1)
assert d.inv[1] == {"a","b"}
'''),
 dict(id="C22-remove-empty", property="C22",
      edits=[(ID, "        self.__d[key].remove(item)\n\n        if self.__i is not None:", "        self.__d[key].remove(item)\n        if len(self.__d[key]) == 0:\n            del self.__d[key]\n            return\n\n        if self.__i is not None:")],
      needs="the last value of a key is removed after the inverse was read",
      breaks="the inverse still maps the value to the key",
      demo='''
from switss.utils import InvertibleDict
d = InvertibleDict({"a":{1},"b":{1}}, is_default=True); d.inv
d.remove("a", 1)
assert d.inv[1] == {"b"}
'''),
 dict(id="C22-default-read", property="C22",
      edits=[(ID, "        if self.__is_default and key not in self.__d:\n            return set()", "        if self.__is_default and key not in self.__d:\n            return self.__d.setdefault(key, set()) if self.__i is not None else set()")],
      needs="a missing key of a default mapping is read after the inverse was computed",
      breaks="reading adds the key",
      demo='''
from switss.utils import InvertibleDict
d = InvertibleDict({"a":{1}}, is_default=True); d.inv
d["x"]
assert "x" not in d and list(d.keys()) == ["a"]
'''),
 dict(id="C24-frequency-zero", property="C24",
      edits=[(QP, "        C = np.min([np.max([0,1e8] + [1/last_result[group] for group in self.groups if last_result[group] != 0]),1e9])", "        C = np.min([np.max([0,1e8] + [1/last_result[group] for group in self.groups if last_result[group] != 0]),1e6])")],
      needs="an indicator value below 1e-6 beside a zero one",
      breaks="removed groups do not get the dominating weight",
      demo=PRE + '''
from switss.problem import QSHeur, InverseResultUpdater
from switss.utils import InvertibleDict
u = InverseResultUpdater(None, "min", InvertibleDict({0:{0},1:{1}}))
w = dict(u.update(np.array([1e-7, 0])))
assert w[1] >= 1e7 - 1, w
'''),
 dict(id="C24-fixed-nearly-zero", property="C24",
      edits=[(QP, "            if last_result[group] == 0:\n                constraint", "            if last_result[group] <= min(1e-9, np.mean([last_result[g] for g in self.groups])):\n                constraint")],
      needs="a positive indicator value of at most 1e-9",
      breaks="a group that was positive is forced to zero",
      demo=PRE + '''
from switss.problem import InverseResultFixedZerosUpdater
from switss.utils import InvertibleDict
u = InverseResultFixedZerosUpdater(None, "min", InvertibleDict({0:{0},1:{1}}))
assert u.constraints(np.array([1e-10, 1.])) == []
'''),
 dict(id="C24-average-of-groups", property="C24",
      edits=[(QP, "            expected_val_sum = sum([self.V[var] for var in variables])", "            expected_val_sum = sum([self.V[var] for var in variables if self.V[var] <= 1])")],
      needs="a group with a state whose visits times probability exceed one",
      breaks="the weight ignores the state",
      demo=PRE + '''
from switss.problem import InverseCombinedInitializer
from switss.utils import InvertibleDict
m = DTMC([[.5,.5,0],[0,1,0],[0,0,1]], label_to_states={"init":{0},"goal":{1}})
rf,sm,sa = ReachabilityForm.reduce(m,"init","goal")
w = dict(InverseCombinedInitializer(rf, "min", InvertibleDict({7:set(range(rf.system.N-2))})).initialize())
v = sum(rf.max_y_state() * rf.max_z_state())
assert abs(w[7] - 1/v) < 1e-6, (w, v)
'''),
]
SEEDS = [s for s in SEEDS if s["breaks"] != "dropped"]
