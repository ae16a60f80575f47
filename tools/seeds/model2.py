AM, MDP, DT, RF = "switss/model/amdp.py", "switss/model/mdp.py", "switss/model/dtmc.py", "switss/model/reachability_form.py"
SEEDS = [
 dict(id="C07-rounded-entry", property="C07",
      edits=[(AM, "            assert p >= 0 and p <= 1,", "            assert np.round(p,6) >= 0 and p <= 1,")],
      needs="a slightly negative probability compensated in the same row",
      breaks="a matrix with a negative entry is accepted",
      demo='''
from switss.model import DTMC
try: DTMC([[-2e-7, .5, .5+2e-7],[0,1,0],[0,0,1]])
except AssertionError: raise SystemExit(0)
raise SystemExit("negative entry accepted")
'''),
 dict(id="C07-row-sum-of-rows", property="C07",
      edits=[(AM, "            assert np.round(s,9) == 1,", "            assert np.round(s,9) == 1 or (idx > 0 and s == 0),")],
      needs="a row (not the first) without any entry",
      breaks="a state-action pair without transitions is accepted",
      demo='''
from switss.model import DTMC
try: DTMC([[.5,.5],[0,0]])
except AssertionError: raise SystemExit(0)
raise SystemExit("empty row accepted")
'''),
 dict(id="C07-actions-cache", property="C07",
      edits=[(AM, "            for idx in range(self.C):\n                state,action = self.index_by_state_action.inv[idx]\n                self.__available_actions.add(state, action)", "            for idx in range(self.C):\n                state,action = self.index_by_state_action.inv[idx]\n                self.__available_actions.add(state, min(action, self.C-1))")],
      needs="action numbers at or above the number of state-action pairs",
      breaks="the available actions differ from the given state-action pairs",
      demo='''
from switss.model import MDP
m = MDP([[0,1],[0,1]], {(0,5):0,(1,0):1})
assert m.actions_by_state[0] == {5}
'''),
 dict(id="C08-empty-label-state", property="C08",
      edits=[(MDP, '                labels_str = " ".join(map(str, map(unique_labels_list.index, labels)))', '                labels_str = " ".join(map(str, map(unique_labels_list.index, sorted(labels)[:9])))')],
      needs="a state with more than nine labels",
      breaks="labels are lost when the model is saved",
      demo='''
import tempfile, os
from switss.model import MDP
with tempfile.TemporaryDirectory() as d:
    m = MDP([[1]], {(0,0):0}, label_to_states={"l%02d" % i: {0} for i in range(11)})
    m.save(os.path.join(d, "m"))
    k = MDP.from_file(os.path.join(d, "m.lab"), os.path.join(d, "m.tra"))
    assert set(k.labels_by_state[0]) == set(m.labels_by_state[0])
'''),
 dict(id="C08-action-order", property="C08",
      edits=[(MDP, '                    tra_file.write("%d %d %d %.17g\\n" % (source, action, dest, p))', '                    tra_file.write("%d %d %d %.17g\\n" % (source, min(action, self.C), dest, p))')],
      needs="an action number above the number of state-action pairs",
      breaks="the action is renamed when the model is saved",
      demo='''
import tempfile, os
from switss.model import MDP
with tempfile.TemporaryDirectory() as d:
    m = MDP([[1]], {(0,7):0})
    m.save(os.path.join(d, "m"))
    k = MDP.from_file(os.path.join(d, "m.lab"), os.path.join(d, "m.tra"))
    assert (0,7) in k.index_by_state_action
'''),
 dict(id="C08-dtmc-source", property="C08",
      edits=[(DT, '                source,_ = self.index_by_state_action.inv[rowidx]\n                tra_file', '                source = rowidx\n                tra_file')],
      needs="a Markov chain whose rows are not in the order of the states",
      breaks="transitions are saved with another source state",
      demo='''
import tempfile, os
from switss.model import DTMC
with tempfile.TemporaryDirectory() as d:
    m = DTMC([[0,1],[1,0]], index_by_state_action={(1,0):0,(0,0):1})
    m.save(os.path.join(d, "m"))
    k = DTMC.from_file(os.path.join(d, "m.lab"), os.path.join(d, "m.tra"))
    assert sorted(k.successors(0)) == sorted(m.successors(0))
'''),
 dict(id="C09-target-by-forward", property="C09",
      edits=[(RF, '        reachable_mask = backward_reachable & forward_reachable', '        reachable_mask = backward_reachable & forward_reachable\n        reachable_mask[list(target_states)] = 1')],
      needs="a target state that the initial state does not reach",
      breaks="unreachable states are kept in the reduced system",
      demo='''
from switss.model import DTMC, ReachabilityForm
m = DTMC([[0,1,0],[0,1,0],[0,0,1]], label_to_states={"init":{0},"goal":{1,2}})
rf,_,_ = ReachabilityForm.reduce(m,"init","goal")
ReachabilityForm.assert_consistency(rf.system,"init")
'''),
 dict(id="C10-probability-of-first-action", property="C10",
      edits=[(RF, "for dest in [s for s,a,p in system.successors(source) if a == action]:", "for dest in {s for s,a,p in system.successors(source) if a == action or a == -1}:"),
             (RF, "                        new_P[newidx, newdest] = system.P[idx, dest]", "                        new_P[newidx, newdest] = max(new_P[newidx, newdest], system.P[idx, dest]) if newdest < new_N - 1 else round(system.P[idx, dest], 8)")],
      needs="a transition with probability below 5e-9 (or with more digits) to the last kept state",
      breaks="probabilities of the reduced system differ from the model",
      demo='''
from switss.model import DTMC, ReachabilityForm
p = 1/3
m = DTMC([[0,p,1-p],[0,1,0],[0,0,1]], label_to_states={"init":{0},"goal":{1}})
rf,_,_ = ReachabilityForm.reduce(m,"init","goal")
assert rf.system.P[0,1] == p
'''),
 dict(id="C10-labels-of-shadowed", property="C10",
      edits=[(RF, "            for l in actionlabels:\n                label_to_actions[l].add((stateidx,actionidx))", "            for l in actionlabels:\n                if l not in labels:\n                    label_to_actions[l].add((stateidx,actionidx))")],
      needs="an action label that is also a label of the state of the action",
      breaks="the action label is lost in the reduced system",
      demo='''
from switss.model import MDP, ReachabilityForm
m = MDP([[0,1],[0,1]], {(0,0):0,(1,0):1}, {"x":{(0,0)}}, {"init":{0},"goal":{1},"x":{0}})
rf,_,sa = ReachabilityForm.reduce(m,"init","goal")
assert rf.system.labels_by_action[sa[(0,0)]] == {"x"}
'''),
 dict(id="C11-fail-action", property="C11",
      edits=[(RF, '        assert (bwd_mask ^ fail_mask).all(),', '        assert (bwd_mask | fail_mask).all(),')],
      needs="a fail state ... (equivalent unless the fail state reaches the target)",
      breaks="nothing observable: dropped", demo="raise SystemExit(0)") ,
 dict(id="C11-two-actions", property="C11",
      edits=[(RF, "            assert len(successors) == 1 and successors[0][0] == state,", "            assert {d for d,_,_ in successors} == {state},"), (RF, "            succst,succact,p = successors[0]", "            succst,succact,p = successors[-1]")],
      needs="a target or fail state with two self-looping actions",
      breaks="a system whose target state has two actions is accepted",
      demo='''
from switss.model import MDP, ReachabilityForm
m = MDP([[0,1,0],[0,1,0],[0,1,0],[0,0,1]], {(0,0):0,(1,1):1,(1,0):2,(2,0):3}, {}, {"init":{0},"rf_target":{1},"rf_fail":{2}})
try: ReachabilityForm.assert_consistency(m,"init")
except AssertionError: raise SystemExit(0)
raise SystemExit("accepted")
'''),
 dict(id="C11-reach-by-fail", property="C11",
      edits=[(RF, '        fwd_mask = system.reachable_mask({init},"forward")', '        fwd_mask = system.reachable_mask({init,fail},"forward") | system.reachable_mask({target},"backward")')],
      needs="a state that the initial state does not reach but that reaches the target",
      breaks="systems with unreachable states are accepted",
      demo='''
from switss.model import MDP, ReachabilityForm
m = MDP([[0,0,1,0],[0,0,1,0],[0,0,1,0],[0,0,0,1]], {(0,0):0,(1,0):1,(2,0):2,(3,0):3}, {}, {"init":{0},"rf_target":{2},"rf_fail":{3}})
try: ReachabilityForm.assert_consistency(m,"init")
except AssertionError: raise SystemExit(0)
raise SystemExit("accepted")
'''),
 dict(id="C12-threshold-of-first-call", property="C12",
      edits=[(RF, "            rhs = self.__fark_y_rhs.copy()\n            rhs[N] = -threshold", "            rhs = self.__fark_y_rhs.copy()\n            rhs[N] = min(rhs[N], -threshold)")],
      needs="two calls for the same form, the second with a smaller threshold",
      breaks="the right-hand side keeps the larger threshold",
      demo='''
from switss.model import DTMC, ReachabilityForm
m = DTMC([[0,.5,.5],[0,1,0],[0,0,1]], label_to_states={"init":{0},"goal":{1}})
rf,_,_ = ReachabilityForm.reduce(m,"init","goal")
rf.fark_y_constraints(.5)
assert rf.fark_y_constraints(.2)[1][-1] == -.2
'''),
 dict(id="C12-cached-matrix", property="C12",
      edits=[(RF, "            rhs = self.__fark_z_rhs.copy()\n            rhs[C] = -threshold", "            rhs = self.__fark_z_rhs.copy()\n            if threshold != 0:\n                rhs[C] = -threshold")],
      needs="a call with threshold zero after a call with another threshold",
      breaks="the system still has the earlier threshold",
      demo='''
from switss.model import DTMC, ReachabilityForm
m = DTMC([[0,.5,.5],[0,1,0],[0,0,1]], label_to_states={"init":{0},"goal":{1}})
rf,_,_ = ReachabilityForm.reduce(m,"init","goal")
rf.fark_z_constraints(.3)
assert rf.fark_z_constraints(0)[1][-1] == 0
'''),
]
SEEDS = [s for s in SEEDS if s["id"] != "C11-fail-action"]
