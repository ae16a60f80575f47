"""Stand-in for gurobipy (not installed here): holds a problem exactly as it was built and
hands it to the harness when it is optimized."""
import types
from fractions import Fraction

class GRB:
    MINIMIZE, MAXIMIZE = 1, -1
    CONTINUOUS, BINARY, INTEGER = "C", "B", "I"
    INFINITY = 1e100
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF, ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL = range(1, 14)
    LESS_EQUAL, GREATER_EQUAL, EQUAL = "<", ">", "="
    Status = None
GRB.Status = GRB
class GurobiError(Exception): pass

def lin(v):
    if isinstance(v, LinExpr): return v
    if isinstance(v, Var): return LinExpr([(v, 1)])
    return LinExpr([], v)
class _Ops:
    def __add__(a, b):
        a, b = lin(a), lin(b); return LinExpr(a.terms + b.terms, a.const + b.const)
    __radd__ = __add__
    def __neg__(a): return a * -1
    def __sub__(a, b): return lin(a) + (lin(b) * -1)
    def __rsub__(a, b): return lin(b) + (lin(a) * -1)
    def __mul__(a, k):
        if isinstance(k, (Var, LinExpr)): raise GurobiError("quadratic expressions are not modelled")
        a = lin(a); return LinExpr([(v, c * k) for v, c in a.terms], a.const * k)
    __rmul__ = __mul__
    def __le__(a, b): return TempConstr(lin(a) - lin(b), -1)
    def __ge__(a, b): return TempConstr(lin(a) - lin(b), 1)
    def __eq__(a, b): return TempConstr(lin(a) - lin(b), 0)
    __array_ufunc__ = None
class Var(_Ops):
    __hash__ = object.__hash__
    def __init__(self, m, lb, ub, vtype, name):
        self.m, self.LB, self.UB, self.VType, self.VarName = m, lb, ub, vtype, name
        self._x = None
    @property
    def X(self):
        if self._x is None: raise AttributeError("Unable to retrieve attribute 'x'")
        return self._x
    x = X
    lb = property(lambda s: s.LB, lambda s, v: setattr(s, "LB", v))
    ub = property(lambda s: s.UB, lambda s, v: setattr(s, "UB", v))
class LinExpr(_Ops):
    __hash__ = object.__hash__
    def __init__(self, a=0, b=None):
        if isinstance(a, Var): a, b = [(a, 1)], 0
        elif isinstance(a, list):
            if b is not None and isinstance(b, list): a, b = list(zip(b, a)), 0
        else:
            e = lin(a) if isinstance(a, LinExpr) else None
            a, b = (list(e.terms), e.const) if e else ([], a)
        self.terms, self.const = list(a), 0 if b is None else b
    def addTerms(self, cs, vs):
        if isinstance(vs, Var): cs, vs = [cs], [vs]
        self.terms += list(zip(vs, cs))
    def add(self, e, mult=1):
        e = lin(e) * mult; self.terms += e.terms; self.const = self.const + e.const
class TempConstr:
    def __init__(self, e, sense): self.e, self.sense = e, sense
    def __rshift__(self, o):
        if self.sense != 0 or len(self.e.terms) != 1 or not isinstance(o, TempConstr): raise GurobiError("Indicator constraint must be of the form (x == b) >> (linear constraint)")
        v, c = self.e.terms[0]
        return GenConstr(v, -self.e.const if c == 1 else -self.e.const / c, o)
    def __bool__(self): raise GurobiError("Constraint has no bool value (are you trying \"lb <= expr <= ub\"?)")
class GenConstr:
    def __init__(self, var, val, tc): self.var, self.val, self.tc = var, val, tc
class Constr:
    def __init__(self, tc, name): self.tc, self.ConstrName = tc, name
HANDLER = [None]
class Model:
    def __init__(self, name="", env=None):
        self._vars, self._cons, self._gen, self._obj, self._sense, self._par = [], [], [], LinExpr(), 1, {}
        self._status, self._val = GRB.LOADED, None
    def setParam(self, n, v): self._par[n] = v
    def addVar(self, lb=0.0, ub=GRB.INFINITY, obj=0.0, vtype="C", name="", column=None):
        v = Var(self, lb, ub, vtype, name); self._vars.append(v)
        if not (isinstance(obj, float) and obj == 0.0): self._obj = self._obj + v * obj
        return v
    def addConstr(self, c, name=""):
        if isinstance(c, GenConstr): c.name = name; self._gen.append(c); return c
        if not isinstance(c, TempConstr): raise GurobiError("Constraint has no effect: %r" % (c,))
        c = Constr(c, name); self._cons.append(c); return c
    addLConstr = addConstr
    def addGenConstrIndicator(self, binvar, binval, lhs, sense=None, rhs=None, name=""):
        tc = lhs if isinstance(lhs, TempConstr) else TempConstr(lin(lhs) - rhs, {"<": -1, "=": 0, ">": 1}[sense[0]])
        return self.addConstr(GenConstr(binvar, binval, tc), name)
    def chgCoeff(self, c, v, val): c.tc.e.terms = [(w, a) for w, a in c.tc.e.terms if w is not v] + [(v, val)]
    def remove(self, c):
        for l in (self._cons, self._gen, self._vars):
            for k, d in enumerate(l):
                if d is c: del l[k]; return
        raise GurobiError("Item to be removed not in model")
    def setObjective(self, e, sense=None):
        self._obj = lin(e)
        if sense is not None: self._sense = sense
    def update(self): pass
    def getVars(self): return list(self._vars)
    def getConstrs(self): return list(self._cons)
    def optimize(self, cb=None):
        p = Prob(self)
        st, x = HANDLER[0](p)
        self._status = st
        for i, v in enumerate(self._vars): v._x = None if x is None else x[i]
        self._val = None if x is None else p.objconst + p.row(p.obj, x)
    status = property(lambda s: s._status)
    Status = status
    @property
    def objVal(self):
        if self._val is None: raise AttributeError("Unable to retrieve attribute 'objVal'")
        return self._val
    ObjVal = objVal
    ModelSense = property(lambda s: s._sense, lambda s, v: setattr(s, "_sense", v))
    SolCount = property(lambda s: 0 if s._val is None else 1)
class Prob:
    """the problem as the back end holds it (same interface as lpstub.Prob)"""
    def __init__(self, m):
        self.params = dict(m._par)
        self.vars = list(m._vars)
        self.idx = {id(v): i for i, v in enumerate(self.vars)}
        self.sense = m._sense
        ev = lambda e: [(self.idx[id(v)], a) for v, a in e.terms]
        self.obj, self.objconst = ev(m._obj), m._obj.const
        self.cons = [(ev(c.tc.e), c.tc.sense, 0 - c.tc.e.const) for c in m._cons]
        self.ind = [(self.idx[id(g.var)], g.val, ev(g.tc.e), g.tc.sense, 0 - g.tc.e.const) for g in m._gen]
        inf = lambda v: isinstance(v, (int, float)) and abs(v) >= 1e20
        self.lb, self.ub, self.cat = [], [], []
        for v in self.vars:
            lb, ub = (None if inf(v.LB) else v.LB), (None if inf(v.UB) else v.UB)
            if v.VType == "B":
                from .core import Min, Max
                lb, ub = (0 if lb is None else Max([lb, 0])), (1 if ub is None else Min([ub, 1]))
            self.lb.append(lb); self.ub.append(ub)
            self.cat.append("Continuous" if v.VType == "C" else "Integer")
    def row(self, r, x):
        s = Fraction(0)
        for i, a in r: s = s + a * x[i]
        return s

def module():
    m = types.ModuleType("gurobipy")
    m.GRB, m.Model, m.LinExpr, m.Var, m.Constr, m.TempConstr, m.GurobiError, m.GenConstr = GRB, Model, LinExpr, Var, Constr, TempConstr, GurobiError, GenConstr
    m.quicksum = lambda xs: sum(xs, LinExpr())
    m.max_, m.min_ = None, None
    return m
