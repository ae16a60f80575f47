SEEDS = [
 dict(id="C07-reward-first-pairs", property="C07",
      edits=[("switss/model/amdp.py", "            for i in range(self.C):\n                assert self.reward_vector[i] >= 0", "            for i in range(self.N):\n                assert self.reward_vector[i] >= 0")],
      needs="an MDP with more state-action pairs than states and a negative reward on a late pair",
      breaks="negative rewards on state-action pairs with an index at or above the number of states are accepted",
      demo='''
from switss.model import MDP
try:
    MDP([[1,0],[0,1],[0,1]], {(0,0):0,(1,0):1,(1,1):2}, {}, {}, reward_vector=[0,1,-1])
except AssertionError: raise SystemExit(0)
raise SystemExit("a negative reward was accepted")
'''),
 dict(id="C09-forward-without-blocking", property="C09",
      edits=[("switss/model/reachability_form.py", 'system.reachable_mask(set([initial]), "forward", blocklist=target_states)', 'system.reachable_mask(set([initial]), "forward", blocklist=target_states if initial not in target_states else set())')],
      needs="a model whose initial state is itself a target state and has further successors that can reach a target",
      breaks="states behind the initial target state are kept although nothing in the reduced system reaches them",
      demo='''
from switss.model import DTMC, ReachabilityForm
m = DTMC([[0,1,0],[0,0,1],[1,0,0]], label_to_states={"init":{0},"goal":{0}})
rf,_,_ = ReachabilityForm.reduce(m,"init","goal")
ReachabilityForm.assert_consistency(rf.system,"init")
'''),
 dict(id="C10-reward-by-new-index", property="C10",
      edits=[("switss/model/reachability_form.py", "reward_vector[idx] = configuration.reward_vector[sys_idx]", "reward_vector[idx] = configuration.reward_vector[idx]")],
      needs="a model with rewards in which a removed state-action pair has a smaller index than a kept one",
      breaks="after reduction the rewards belong to other state-action pairs than in the model",
      demo='''
from switss.model import MDP, ReachabilityForm
m = MDP([[1,0,0],[0,0,1],[0,0,1]], {(0,0):0,(1,0):1,(2,0):2}, {}, {"init":{1},"goal":{2}}, reward_vector=[7,3,0])
rf,_,sa = ReachabilityForm.reduce(m,"init","goal")
assert rf.system.reward_vector[rf.system.index_by_state_action[sa[(1,0)]]] == 3
'''),
]
