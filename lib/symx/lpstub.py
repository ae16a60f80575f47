"""Stand-in for the LP/MILP solver back ends behind PuLP.

The problem object is PuLP's own (with symbolic coefficients); solving it hands the problem
to the harness's handler, which answers according to the solver contract."""
import types
import pulp as _pulp
from fractions import Fraction
from .core import *

class Prob:
    """the problem as PuLP holds it"""
    def __init__(self, lp, solver):
        self.lp, self.solver = lp, solver if solver is not None else lp.solver
        self.sense = lp.sense       # 1 min, -1 max
        cons = list(lp.constraints.values())
        seen, vs = set(), []
        def addv(v):
            if id(v) not in seen: seen.add(id(v)); vs.append(v)
        if lp.objective is not None:
            for v in lp.objective.keys(): addv(v)
        for c in cons:
            for v in c.keys(): addv(v)
        def key(v):
            # creation order, which is the order of the code's own variable indices
            q = getattr(v, "_symx_seq", None)
            n = v.name
            return (0, q, n) if q is not None else (1, int(n[1:]), n) if n[:1] == "x" and n[1:].isdigit() else (2, 0, n)
        self.vars = sorted(vs, key=key)
        self.idx = {v: i for i, v in enumerate(self.vars)}
        self.obj = [(self.idx[v], c) for v, c in (lp.objective.items() if lp.objective is not None else [])]
        self.objconst = lp.objective.constant if lp.objective is not None else 0
        self.cons = [([(self.idx[v], a) for v, a in c.items()], c.sense, -c.constant) for c in cons]
        self.lb = [v.lowBound for v in self.vars]
        self.ub = [v.upBound for v in self.vars]
        self.cat = [v.cat for v in self.vars]
    def row(self, r, x):
        s = Fraction(0)
        for i, a in r: s = s + a * x[i]
        return s
    def objective(self, x): return self.row(self.obj, x)
    def feasible(self, x):
        """conjunction of all constraints, bounds and domains at point x"""
        cs = []
        for r, sense, b in self.cons:
            l = self.row(r, x)
            cs.append(l <= b if sense == -1 else l >= b if sense == 1 else l == b)
        for i in range(len(self.vars)):
            if self.lb[i] is not None: cs.append(x[i] >= self.lb[i])
            if self.ub[i] is not None: cs.append(x[i] <= self.ub[i])
            if self.cat[i] == _pulp.LpInteger: cs.append(_isint(x[i]))
        return And(cs)
    def better_eq(self, x, y):
        """x at least as good as y"""
        a, b = self.objective(x), self.objective(y)
        return a <= b if self.sense == 1 else a >= b
def _isint(v):
    if isinstance(v, SymReal): return mkbool(z3.IsInt(v.e))
    return Fraction(v).denominator == 1

class StubSolver(_pulp.LpSolver):
    name = "stub"
    def __init__(self, *a, **k):
        self.args, self.kw = a, k
        kw = {}
        if "mip" in k: kw["mip"] = k["mip"]
        if "timeLimit" in k: kw["timeLimit"] = k["timeLimit"]
        super().__init__(**kw)
    def available(self): return True
    def actualSolve(self, lp, **k):
        h = Engine.cur.lp_handler
        if h is None: raise Inconclusive("an LP was solved but this harness has no solver model")
        Engine.cur.lp_calls = getattr(Engine.cur, "lp_calls", 0) + 1
        p = Prob(lp, self)
        for f in getattr(Engine.cur, "lp_taps", []): f(p)
        return answer(lp, p, *h(p))
STATUS = {"optimal": (1, 1), "infeasible": (-1, -1), "unbounded": (-2, -2), "undefined": (-3, 0), "notsolved": (0, 0), "feasible": (1, 2)}
def answer(lp, p, status, x=None):
    st, sol = STATUS[status]
    if x is not None:
        for v, val in zip(p.vars, x): v.varValue = val
    E = Engine.cur
    if E is not None: E.stubs.setdefault("lp", []).append((status, list(x) if x is not None else None, [v.name for v in p.vars]))
    lp.assignStatus(st, sol)
    return st

class PulpProxy(types.ModuleType):
    def __getattr__(self, n): return getattr(_pulp, n)
pulp_proxy = PulpProxy("pulp")
_seq = [0]
class _Var(_pulp.LpVariable):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        _seq[0] += 1; self._symx_seq = _seq[0]
_Var.__name__ = "LpVariable"
pulp_proxy.LpVariable = _Var
def _mk(nm):
    return type(nm, (StubSolver,), {"name": nm})
for _n in ("PULP_CBC_CMD", "COIN_CMD", "GLPK_CMD", "GUROBI_CMD", "CPLEX_PY", "CPLEX_CMD", "GUROBI", "HiGHS", "HiGHS_CMD", "GLPK", "CPLEX"):
    setattr(pulp_proxy, _n, _mk(_n))

def freshvec(p, hint="sol"):
    E = Engine.cur
    out = []
    for i in range(len(p.vars)):
        if p.cat[i] == _pulp.LpInteger and p.lb[i] == 0 and p.ub[i] == 1:
            b = E.fresh("bool", hint)
            out.append(SymReal(z3.If(b, z3.RealVal(1), z3.RealVal(0)), grid=[Fraction(0), Fraction(1)]))
        else: out.append(SymReal(E.fresh("real", hint)))
    return out
