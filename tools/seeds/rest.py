RR, MI, PR, MDPF, DT, SU, CLI = "switss/model/reward_reachability_form.py", "switss/solver/milp.py", "switss/prism/prism.py", "switss/model/mdp.py", "switss/model/dtmc.py", "switss/problem/subsystem.py", "bin/switss"
PRE = '''
from switss.model import MDP, DTMC, ReachabilityForm, RewardReachabilityForm
import numpy as np
'''
STORM = '''
class T:
    def __init__(self, c, v): self.column, self._v = c, v
    def value(self): return self._v
class A:
    def __init__(self, i, ts): self.id, self.transitions = i, [T(*t) for t in ts]
class S:
    def __init__(self, i, acts): self.id, self.actions = i, [A(k, a) for k, a in enumerate(acts)]
class M:
    def __init__(self, states, slabels, clabels):
        self.states = [S(i, a) for i, a in enumerate(states)]; self.nr_states = len(states); self.nr_choices = sum(map(len, states))
        self.first = [sum(map(len, states[:i])) for i in range(len(states))]
        self.labeling = self.choice_labeling = self; self.sl, self.cl = slabels, clabels
    def get_choice_index(self, s, a): return self.first[s] + a
    def get_labels_of_state(self, s): return self.sl.get(s, set())
    def get_labels_of_choice(self, c): return self.cl.get(c, set())
'''
GRB = '''
import sys, types
class Expr:
    def __init__(self, c=None): self.c = dict(c or {})
    def __add__(self, o): 
        r = dict(self.c)
        for k, v in as_expr(o).c.items(): r[k] = r.get(k, 0) + v
        return Expr(r)
    __radd__ = __add__
    def __mul__(self, k): return Expr({n: v*k for n, v in self.c.items()})
    __rmul__ = __mul__
    def __le__(self, b): return [self, "<=", b]
    def __ge__(self, b): return [self, ">=", b]
    def __eq__(self, b): return [self, "=", b]
    __hash__ = object.__hash__
class Var(Expr):
    def __init__(self, name, lb, ub, vtype): Expr.__init__(self, {name: 1.}); self.name, self.lb, self.ub, self.vtype = name, lb, ub, vtype
def as_expr(o): return o if isinstance(o, Expr) else Expr()
class Model:
    def __init__(self): self.vars, self.constrs, self.obj = [], [], None; Model.last = self
    def setParam(self, *a): pass
    def addVar(self, lb=0., ub=1e100, vtype="C", name=""): self.vars.append(Var(name, lb, ub, vtype)); return self.vars[-1]
    def addConstr(self, c, name=None): self.constrs.append(c); return c
    def remove(self, c): self.constrs = [d for d in self.constrs if d is not c]
    def setObjective(self, e, sense): self.obj = (e, sense)
gp = types.ModuleType("gurobipy"); gp.Model, gp.LinExpr = Model, Expr
gp.GRB = types.SimpleNamespace(MINIMIZE=1, MAXIMIZE=-1, BINARY="B", CONTINUOUS="C", INTEGER="I", INFINITY=1e100, OPTIMAL=2, LOADED=1, INFEASIBLE=3, UNBOUNDED=5)
sys.modules["gurobipy"] = gp
from switss.solver.milp import GurobiMILP
import numpy as np
'''
CLIPRE = PRE + '''
import os, sys, json, tempfile, subprocess
def run(d, *args):
    return subprocess.run([sys.executable, os.path.join(os.getcwd(), "bin/switss"), *args], cwd=d, env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
def form(d):
    m = MDP([[0,.6,.4,0,0,0],[0,0,0,.5,.5,0],[0,0,0,0,.2,.8],[0,0,0,0,.9,.1],[0,0,0,0,1,0],[0,0,0,0,0,1]], {(0,0):0,(1,0):1,(2,0):2,(3,0):3,(4,0):4,(5,0):5}, {}, {"init":{0},"goal":{4}})
    ReachabilityForm.reduce(m,"init","goal")[0].system.save(d + "/m")
'''
SEEDS = [
 dict(id="C20-empty-rows", property="C20",
      edits=[(MI, "            model.add_constraint(lhs, sense, b[constridx,0])\n\n        return model\n\n    def __repr__(self):\n        return str(self.__pulpmodel)", "            if len(lhs) > 0:\n                model.add_constraint(lhs, sense, b[constridx,0])\n\n        return model\n\n    def __repr__(self):\n        return str(self.__pulpmodel)")],
      needs="a row without coefficients whose right hand side makes it unsatisfiable",
      breaks="an infeasible problem is solved as if it were feasible",
      demo='''
from switss.solver import MILP
import numpy as np
m = MILP.from_coefficients(np.array([[1,0],[0,0]]), np.array([1,-1]), np.array([1,1]), ["real","real"], objective="max", bounds=[(0,1),(0,1)])
assert m.solve().status == "infeasible"
'''),
 dict(id="C20-integer-bounds", property="C20",
      edits=[(MI, '            var = pulp.LpVariable("x%d" % varidx, lowBound=lb, upBound=ub, cat=cat)', '            if domain == "integer" and ub is not None:\n                ub = int(ub)\n            var = pulp.LpVariable("x%d" % varidx, lowBound=lb, upBound=ub, cat=cat)')],
      needs="an integer variable with a negative fractional upper bound",
      breaks="the bound is rounded up",
      demo='''
from switss.solver import MILP
m = MILP("max"); x = m.add_variables_w_bounds([("integer",-5,-.5)])
m.set_objective_function([(x,1)])
r = m.solve(); assert r.value == -1, r
'''),
 dict(id="C20-value-of-minimum", property="C20",
      edits=[(MI, "        value = self.__pulpmodel.objective.value()\n", "        value = self.__pulpmodel.objective.value()\n        if value is not None:\n            value = float('%.6g' % value)\n")],
      needs="an objective value with more than six digits",
      breaks="the reported value is not that of the back end",
      demo='''
from switss.solver import MILP
m = MILP("max"); x = m.add_variables_w_bounds([("integer",0,1234567)])
m.set_objective_function([(x,1)])
r = m.solve(); assert abs(r.value - 1234567) < 1e-3, r
'''),
 dict(id="C20-names-by-count", property="C20",
      edits=[(MI, '        constridx = len( self.__constraints )\n        name = "c%d" % constridx\n', '        constridx = len( self.__constraints )\n        name = "c%d" % (constridx % 1000)\n')],
      needs="more than a thousand constraints",
      breaks="adding the 1001st constraint fails",
      demo='''
from switss.solver import MILP
m = MILP("max"); x, y = m.add_variables_w_bounds([("real",0,1),("real",0,1)])
for i in range(1001): m.add_constraint([(x,1),(y,1)], "<=", 1)
m.set_objective_function([(x,1)])
assert m.solve().status == "optimal"
'''),
 dict(id="C20-lp-sense", property="C20",
      edits=[(MI, '        return super().from_coefficients(A,b,opt,["real"]*cast_dok_matrix(A).shape[1],sense=sense,objective=objective)', '        return super().from_coefficients(A,b,opt,["real"]*cast_dok_matrix(A).shape[1],sense=sense if objective == "max" else ">=",objective=objective)')],
      needs="an LP that minimises under upper bounds",
      breaks="the constraints of minimisation problems are always lower bounds",
      demo='''
from switss.solver import LP
import numpy as np
r = LP.from_coefficients(np.array([[1,0],[-1,0],[0,1],[0,-1]]), np.array([3,-2,4,-1]), np.array([1,1]), objective="min", sense="<=").solve()
assert r.status == "optimal" and abs(r.value - 3) < 1e-6, r
'''),
 dict(id="C21-remove-shifts", property="C21",
      edits=[(MI, "        self.__model.remove(self.__constraints[constridx])\n        self.__constraints[constridx] = None", "        self.__model.remove(self.__constraints.pop(constridx))")],
      needs="removing a constraint after an earlier one has been removed",
      breaks="the wrong constraint is removed",
      demo=GRB + '''
m = GurobiMILP("min"); x, y = m.add_variables(["real","real"])
cs = [m.add_constraint([(x,1)], "<=", k) for k in (1,2,3)]
m.remove_constraint(cs[0]); m.remove_constraint(cs[1])
assert [c[2] for c in Model.last.constrs] == [3], Model.last.constrs
'''),
 dict(id="C21-falsy-bounds", property="C21",
      edits=[(MI, "            model.add_variables_w_bounds([(domains[idx], bounds[idx][0], bounds[idx][1]) for idx in range(A.shape[1])])", "            model.add_variables_w_bounds([(domains[idx], bounds[idx][0] or 0, bounds[idx][1] or None) for idx in range(A.shape[1])])")],
      needs="a problem built from coefficients with an upper bound of zero or without a lower bound",
      breaks="the bounds of the variable differ from those given",
      demo=GRB + '''
m = GurobiMILP.from_coefficients(np.array([[1.,1.]]), np.array([1.]), np.array([1.,1.]), ["real","real"], bounds=[(None,3.),(-1.,0.)])
x, y = Model.last.vars
assert x.lb == -1e100 and y.ub == 0., (x.lb, y.ub)
'''),
 dict(id="C21-indicator-at-one", property="C21",
      edits=[(MI, "(self.__variables[rhs_varidx] == 0), name)", "(self.__variables[rhs_varidx] <= 0), name)")],
      needs="an indicator constraint over a variable that may be negative",
      breaks="the variable may stay negative while the indicator is zero",
      demo=GRB.replace("    __hash__ = object.__hash__", "    __hash__ = object.__hash__") + '''
class L(list):
    def __rshift__(self, o): return ("ind", self, o)
Var.__eq__ = lambda self, b: L([self, "=", b]); Var.__le__ = lambda self, b: L([self, "<=", b]); Var.__hash__ = object.__hash__
m = GurobiMILP("min"); x, y = m.add_variables(["binary","real"])
m.add_indicator_constraint(x, y)
k, a, b = Model.last.constrs[-1]
assert a[1] == "=" and b[1] == "=" and a[2] == b[2] == 0, (a, b)
'''),
 dict(id="C21-status-limit", property="C21",
      edits=[(MI, '        status = "undefined"\n        if self.__model.status in status_dict:\n            status = status_dict[self.__model.status]', '        status = "undefined"\n        if self.__model.status in status_dict:\n            status = status_dict[self.__model.status]\n        elif self.__model.SolCount > 0:\n            status = "optimal"')],
      needs="a run that stops at its time limit with a feasible solution",
      breaks="an unproven solution is reported as optimal",
      demo=GRB + '''
m = GurobiMILP("min"); x, y = m.add_variables(["real","real"])
M = Model.last; M.status, M.SolCount, M.objVal = 9, 1, 5.
for v in M.vars: v.x = 0.; v.X = 0.
Model.optimize = lambda self: None
assert m.solve(timeout=1).status != "optimal"
'''),
 dict(id="C23-initial-first", property="C23",
      edits=[(RR, "        delta = np.zeros(N)\n        delta[self.initial] = 1\n", "        delta = np.zeros(N)\n        delta[0] = 1\n")],
      needs="a model whose initial state is not state 0",
      breaks="the z-constraints demand the threshold at state 0",
      demo=PRE + '''
m = MDP([[0,0,1],[1,0,0],[0,0,1]], {(0,0):0,(1,0):1,(2,0):2}, {}, {"init":{1},"goal":{2}}, reward_vector=np.array([1,2,0]))
rf,_,_ = RewardReachabilityForm.reduce(m,"init","goal")
M, rhs = rf.fark_z_constraints(2.5)
x = rf.rew_min(); assert (M.dot(x) <= rhs + 1e-6).all(), x
'''),
 dict(id="C23-last-action", property="C23",
      edits=[(RR, "            max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]", "            max_y_states[st] = max(max_y_states[st], max_y_vec[sap_idx])")],
      needs="a maximal flow that uses two actions of one state",
      breaks="the flow of the state is that of one of its actions only",
      demo=PRE + '''
m = MDP([[0,1,0],[0,.5,.5],[0,.5,.5],[0,0,1]], {(0,0):0,(1,0):1,(1,1):2,(2,0):3}, {}, {"init":{0},"goal":{2}}, reward_vector=np.array([0,1,1,0]))
rf,sm,_ = RewardReachabilityForm.reduce(m,"init","goal")
rf.max_y_state_action = lambda solver="cbc": np.array([1,1.,1.,1])
v = rf.max_y_state(); assert abs(v[rf.index_by_state_action.inv[1][0]] - 2) < 1e-9, v
'''),
 dict(id="C23-fail-tolerated", property="C23",
      edits=[(RR, '        assert (bwd_mask == fail_mask).all(), ', '        assert (bwd_mask[~fail_mask].sum() < reachform.system.N-2), ')],
      needs="a model where only some states can miss the target",
      breaks="a reward form is built although a scheduler misses the target",
      demo=PRE + '''
m = MDP([[0,1,0,0],[0,0,.5,.5],[0,0,1,0],[1,0,0,0],[0,0,0,1]], {(0,0):0,(1,0):1,(2,0):2,(0,1):3,(3,0):4}, {}, {"init":{0},"goal":{2}}, reward_vector=np.array([1,1,0,1,0]))
m = DTMC([[0,.5,.5,0],[0,0,1,0],[0,0,1,0],[0,0,0,1]], label_to_states={"init":{0},"goal":{2}}, reward_vector=np.array([1,1,0,0]))
from scipy.sparse import dok_matrix
m = DTMC([[0,1,0,0],[0,0,.5,.5],[0,0,1,0],[0,0,0,1]], label_to_states={"init":{0},"goal":{2}}, reward_vector=np.array([1,1,0,0]))
m = MDP([[0,.5,.5,0,0],[0,0,0,.5,.5],[0,0,0,1,0],[0,0,0,1,0],[0,0,0,0,1]], {(0,0):0,(1,0):1,(2,0):2,(3,0):3,(4,0):4}, {}, {"init":{0},"goal":{3}}, reward_vector=np.array([1,1,1,0,0]))
try: RewardReachabilityForm.reduce(m,"init","goal")
except AssertionError: pass
else: raise SystemExit("accepted")
'''),
 dict(id="C25-first-choice-label", property="C25",
      edits=[(MDPF, "                for alabel in actionlabels:\n                    label_to_actions[alabel].add((sid,aid))", "                for alabel in sorted(actionlabels)[:1]:\n                    label_to_actions[alabel].add((sid,aid))")],
      needs="a choice with two labels",
      breaks="only one of the labels is imported",
      demo=STORM + '''
from switss.model import MDP
p = MDP.from_stormpy_model(M([[[(0,.5),(1,.5)],[(1,1.)]],[[(1,1.)]]], {0:{"init"}}, {0:{"a","b"}}))
assert p["label_to_actions"]["a"] == {(0,0)} and p["label_to_actions"]["b"] == {(0,0)}, p["label_to_actions"]
'''),
 dict(id="C25-tiny-transition", property="C25",
      edits=[(DT, "                for transition in action.transitions:\n                    P[sid,transition.column] = transition.value()", "                for transition in action.transitions:\n                    if transition.value() > 1e-10:\n                        P[sid,transition.column] = transition.value()")],
      needs="a transition of very small probability",
      breaks="the transition is missing from the imported model",
      demo=STORM + '''
from switss.model import DTMC
p = DTMC.from_stormpy_model(M([[[(0,1-1e-11),(1,1e-11)]],[[(1,1.)]]], {0:{"init"}}, {}))
assert p["P"][0,1] == 1e-11, p["P"]
'''),
 dict(id="C25-choice-of-choice", property="C25",
      edits=[(MDPF, "                for transition in action.transitions:\n                    P[C+index,transition.column] = transition.value()", "                for transition in action.transitions:\n                    P[C+(index if aid else stormpy_cid),transition.column] = transition.value()\n                if len(action.transitions) == 1:\n                    P[C+index,sid] = P[C+index,sid]")],
      needs="never (kept out)", breaks="dropped", demo="raise SystemExit(0)"),
 dict(id="C26-label-digits", property="C26",
      edits=[(PR, 'mark_regexp = re.compile(r"([0-9]+)=\\"(.*?)\\"")', 'mark_regexp = re.compile(r"([0-9])=\\"(.*?)\\"")')],
      needs="a label file with more than ten labels",
      breaks="labels from the eleventh on are mixed up",
      demo='''
import tempfile, os
from switss.prism.prism import parse_label_file
with tempfile.TemporaryDirectory() as d:
    p = d + "/m.lab"
    open(p, "w").write(" ".join('%d="l%d"' % (i,i) for i in range(12)) + "\\n0: 0 11\\n1: 10\\n")
    s, _, _ = parse_label_file(p)
    assert s["l11"] == {0} and s["l10"] == {1} and s["l0"] == {0}, s
'''),
 dict(id="C26-constant-format", property="C26",
      edits=[(PR, '''[','.join([C+"="+str(i) for (C,i) in prism_constants])]''', '''[','.join(["%s=%g" % (C,i) for (C,i) in prism_constants])]''')],
      needs="a constant of more than six digits",
      breaks="prism is run with another constant",
      demo='''
import tempfile, os, stat
from switss.prism.prism import prism_to_tra
with tempfile.TemporaryDirectory() as d:
    open(d + "/prism", "w").write("#!/bin/sh\\necho \\"$@\\" > %s/args\\n" % d); os.chmod(d + "/prism", 0o755)
    open(d + "/m.pm", "w").write("dtmc\\n")
    os.environ["PATH"] = d + ":" + os.environ["PATH"]
    assert prism_to_tra(d + "/m.pm", d + "/out", {"N": 12345678})
    assert "N=12345678 " in open(d + "/args").read(), open(d + "/args").read()
'''),
 dict(id="C26-shared-state-set", property="C26",
      edits=[(PR, '                states_by_label[label].add(stateidx)', '                if stateidx not in states_by_label[label]:\n                    states_by_label[label] = states_by_label[label] | {stateidx} if len(states_by_label[label]) < 256 else {stateidx}')],
      needs="a label of more than 256 states",
      breaks="the earlier states of the label are lost",
      demo='''
import tempfile
from switss.prism.prism import parse_label_file
with tempfile.TemporaryDirectory() as d:
    p = d + "/m.lab"
    open(p, "w").write('0="a"\\n' + "".join("%d: 0\\n" % i for i in range(300)))
    s, _, _ = parse_label_file(p)
    assert s["a"] == set(range(300))
'''),
 dict(id="C28-tolerance", property="C28",
      edits=[(CLI, 'check = check_farkas_certificate(rf, minfo["mode"], ">=", threshold, certificate, tol=args.tolerance)', 'check = check_farkas_certificate(rf, minfo["mode"], ">=", threshold, certificate)')],
      needs="a certificate that is valid within the given tolerance only",
      breaks="the certify command ignores the tolerance",
      demo=CLIPRE + '''
with tempfile.TemporaryDirectory() as d:
    form(d)
    r = run(d, "minimize", "dtmc" if False else "mdp", "m", "-m", "MILPExact", "mode=min", "-s", "threshold=.3", "-c", "c.json"); assert r.returncode == 0, r.stdout
    i = json.load(open(d + "/c.json")); i["instances"][0]["certificate"] = [x*1.001 + (.001 if x else 0) for x in i["instances"][0]["certificate"]]; json.dump(i, open(d + "/c.json", "w"))
    outs = [run(d, "certify", "mdp", "m", "-c", "c.json", "-tol", t).stdout for t in ("1e-6", ".5")]
    assert "INVALID" in outs[0] and "INVALID" not in outs[1] and "VALID" in outs[1], outs
'''),
 dict(id="C28-models-shared", property="C28",
      edits=[(CLI, "        sys = load_model(args)\n        for s,inss", "        sys = model\n        for s,inss")],
      needs="two stored certificates, the second one of a smaller or different subsystem",
      breaks="states of earlier subsystems carry the label in later ones",
      demo=CLIPRE + '''
with tempfile.TemporaryDirectory() as d:
    form(d)
    json.dump({"method": {"mode": "min"}, "instances": [{"iteration": 0, "threshold": .1, "certificate": [.5,.5,.5,.5,.5]}, {"iteration": 1, "threshold": .1, "certificate": [.1,.2,0,0,0]}]}, open(d + "/c.json", "w"))
    r = run(d, "subsystem", "mdp", "m", "-c", "c.json"); assert r.returncode == 0, r.stdout
    for i, want in ((0, {0,1,2,3,4}), (1, {0,1})):
        s = MDP.from_file(d + "/m-subsys-%d.lab" % i, d + "/m-subsys-%d.tra" % i).states_by_label["subsystem"]
        assert s == want, (i, s)
'''),
 dict(id="C28-whole-model", property="C28",
      edits=[(CLI, "        vprint(\"solved instance %s with", "        if sum(result.subsystem.subsystem_mask) == rf.system.N-2 and len(args.solve_iter) > 0:\n            return\n        vprint(\"solved instance %s with")],
      needs="an iterative run with an instance whose subsystem is the whole model",
      breaks="the certificate of the instance is not stored",
      demo=CLIPRE + '''
with tempfile.TemporaryDirectory() as d:
    form(d)
    r = run(d, "minimize", "mdp", "m", "-m", "QSHeur", "mode=min", "iterations=2", "-si", "threshold=.62", "-c", "c.json"); assert r.returncode == 0, r.stdout
    assert len(json.load(open(d + "/c.json"))["instances"]) == 2, r.stdout
'''),
 dict(id="C29-node-names", property="C29",
      edits=[(MDPF, 'action_node_name = "%s-%s" % (source,action)', 'action_node_name = "a%s%s" % (source,action)')],
      needs="states and actions with indices of two digits",
      breaks="two state-action pairs share a node",
      demo=PRE + '''
P = np.zeros((14,13)); P[range(13), [12]*13] = 1; P[13,12] = 1
idx = {(s,0):s for s in range(13)}; del idx[(11,0)]; idx[(1,11)] = 13; idx[(11,1)] = 11
g = MDP(P, idx, {}, {}).digraph()
n = [l.split(" [")[0].strip() for l in g.body if "->" not in l]
assert len(set(n)) == len(n) == 13 + 14, (len(set(n)), len(n))
'''),
 dict(id="C29-subsystem-index", property="C29",
      edits=[(SU, "                index = self.supersys.system.index_by_state_action[(sourceidx, action)]\n", "                index = self.subsys.system.index_by_state_action[(int(self.subsystem_mask[:sourceidx].sum()), action)]\n")],
      needs="a max-certificate whose subsystem leaves out a state before a kept one",
      breaks="the value of another state-action pair is drawn",
      demo=PRE + '''
from switss.problem.subsystem import Subsystem
m = MDP([[0,.5,.5,0,0],[0,0,0,1,0],[0,0,0,.5,.5],[0,0,0,1,0],[0,0,0,0,1]], {(0,0):0,(1,0):1,(2,0):2,(3,0):3,(4,0):4}, {}, {"init":{0},"goal":{3}})
rf,_,_ = ReachabilityForm.reduce(m,"init","goal")
c = np.array([.4,0,.3,.2])
g = Subsystem(rf, c, "max").digraph()
assert any("c[2]=0.30000" in l and l.strip().startswith('"2-0"') for l in g.body), g.body
'''),
 dict(id="C29-drawn-edges", property="C29",
      edits=[(DT, "            dg.edge(str(source), str(dest), **trans_setting)", "            if (source, dest) not in drawn and (dest, source) not in drawn or source == dest or p != self.P[self.index_by_state_action[(dest,0)], source]:\n                dg.edge(str(source), str(dest), **trans_setting)\n            drawn.add((source, dest))"),
             (DT, "        existing_nodes = set({})\n", "        existing_nodes = set({})\n        drawn = set({})\n")],
      needs="two states that reach each other with the same probability",
      breaks="only one of the two edges is drawn",
      demo=PRE + '''
g = DTMC([[.5,.5],[.5,.5]]).digraph()
assert len([l for l in g.body if "->" in l]) == 4, g.body
'''),
]
SEEDS = [s for s in SEEDS if s["breaks"] != "dropped"]
