"""Exact model of an LP/MILP back end: the set of answers a correct solver may return.

For problems with concrete coefficients whose right-hand sides depend affinely on at most one
symbolic number t (a threshold), the optimal value is a piecewise linear function of t that is
computed exactly (z3's Optimize over rationals: feasibility intervals and dual cuts for every
assignment of the binary variables).  The answer is then: infeasible iff t lies in no interval,
otherwise ANY feasible point whose objective equals the optimal value."""
import itertools
from fractions import Fraction
import pulp as _pulp
from .core import *
from .lpstub import *

LIM = 8
def _fr(v):
    if isinstance(v, Fraction): return v
    if isinstance(v, (int, float)): return Fraction(v)
    import numpy as np
    if isinstance(v, np.number): return Fraction(v.item())
    raise Inconclusive("the problem has a symbolic coefficient")
def _val(v):
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v): return Fraction(v.as_long())
    return None
def _opt(cons, obj, sense):
    """('infeasible',None) ('unbounded',None) ('optimal',value)"""
    o = z3.Optimize(); o.set("timeout", 20000)
    for c in cons: o.add(c)
    h = o.minimize(obj) if sense > 0 else o.maximize(obj)
    r = o.check()
    if r == z3.unsat: return "infeasible", None
    if r != z3.sat: raise Inconclusive("z3 Optimize gave no answer")
    v = o.lower(h) if sense > 0 else o.upper(h)
    f = _val(v)
    if f is None:
        if "oo" in str(v): return "unbounded", None
        raise Inconclusive("unexpected optimum %s" % v)
    return "optimal", f
def _free(e, out):
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[e.decl().name()] = e
    for c in e.children(): _free(c, out)

class _Sub:
    """one linear program: binaries fixed, rhs affine in t"""
    def __init__(self, n, obj, cons, lb, ub, fixed):
        self.free = [i for i in range(n) if i not in fixed]
        self.const = sum((c * fixed[i] for i, c in obj if i in fixed), Fraction(0))
        self.obj = {i: c for i, c in obj if i not in fixed}
        rows = []
        for r, sense, (b0, b1) in cons:
            # coefficients of fixed variables may be affine in t as well
            k0 = sum((a[0] * fixed[i] for i, a in r if i in fixed), Fraction(0))
            k1 = sum((a[1] * fixed[i] for i, a in r if i in fixed), Fraction(0))
            d = {}
            for i, a in r:
                if i not in fixed: d[i] = d.get(i, Fraction(0)) + a[0]
            rows.append((d, sense, (b0 - k0, b1 - k1)))
        for i in self.free:
            if lb[i] is not None: rows.append(({i: Fraction(1)}, 1, lb[i]))
            if ub[i] is not None: rows.append(({i: Fraction(1)}, -1, ub[i]))
        self.rows = rows
        self.t = z3.Real("t!")
        self.x = {i: z3.Real("lpx!%d" % i) for i in self.free}
    def cons(self, t):
        out = []
        for d, sense, (b0, b1) in self.rows:
            l = z3.Sum([num(a) * self.x[i] for i, a in d.items()] + [z3.RealVal(0)])
            b = num(b0) + num(b1) * t
            out.append(l <= b if sense == -1 else l >= b if sense == 1 else l == b)
        return out
    def interval(self):
        c = self.cons(self.t) + [self.t >= -LIM, self.t <= LIM]
        st, lo = _opt(c, self.t, 1)
        if st == "infeasible": return None
        return lo, _opt(c, self.t, -1)[1]
    def objx(self): return z3.Sum([num(c) * self.x[i] for i, c in self.obj.items()] + [z3.RealVal(0)])
    def value(self, t0, sense): return _opt(self.cons(num(t0)), self.objx(), sense)
    def dual(self, t0, sense):
        """coefficients (a0,a1) of a valid bound a0+a1*t, tight at t0"""
        u = [z3.Real("lpu!%d" % k) for k in range(len(self.rows))]
        s = z3.Optimize(); s.set("timeout", 20000)
        for k, (d, sn, b) in enumerate(self.rows):
            if sn == 1: s.add(u[k] >= 0 if sense > 0 else u[k] <= 0)
            if sn == -1: s.add(u[k] <= 0 if sense > 0 else u[k] >= 0)
        for i in self.free:
            s.add(z3.Sum([num(d[i]) * u[k] for k, (d, sn, b) in enumerate(self.rows) if i in d] + [z3.RealVal(0)]) == num(self.obj.get(i, Fraction(0))))
        bb = z3.Sum([num(b0 + b1 * t0) * u[k] for k, (d, sn, (b0, b1)) in enumerate(self.rows)] + [z3.RealVal(0)])
        if sense > 0: s.maximize(bb)
        else: s.minimize(bb)
        if s.check() != z3.sat: raise Inconclusive("dual of a bounded problem not solved")
        m = s.model()
        uv = [_val(m.eval(x, model_completion=True)) for x in u]
        return sum((b0 * w for (d, sn, (b0, b1)), w in zip(self.rows, uv)), Fraction(0)), sum((b1 * w for (d, sn, (b0, b1)), w in zip(self.rows, uv)), Fraction(0))
    def cuts(self, lo, hi, sense):
        """the optimal value on [lo,hi] as max (min for maximisation) of affine functions; None if unbounded"""
        if not self.obj: return [(self.const, Fraction(0))]
        if self.value(lo, sense)[0] == "unbounded": return None
        cuts, done = [], {}
        ext = max if sense > 0 else min
        while True:
            pts = {lo, hi}
            for (a, b), (c, d) in itertools.combinations(cuts, 2):
                if b != d:
                    t = (c - a) / (b - d)
                    if lo < t < hi: pts.add(t)
            new = False
            for t in sorted(pts):
                if t in done: continue
                if cuts and t not in (lo, hi):
                    cur = ext(a + b * t for a, b in cuts)
                    # only breakpoints of the envelope matter
                    if sum(1 for a, b in cuts if a + b * t == cur) < 2: continue
                st, v = self.value(t, sense)
                if st != "optimal": raise Inconclusive("value function not finite")
                done[t] = v
                if not cuts or ext(a + b * t for a, b in cuts) != v:
                    c = self.dual(t, sense)
                    if c[0] + c[1] * t != v: raise Inconclusive("duality gap")
                    cuts.append(c); new = True
            if not new: break
        return [(a + self.const, b) for a, b in cuts]

_cache = {}
def analyse(n, obj, cons, lb, ub, bins, sense):
    key = repr((n, obj, cons, lb, ub, bins, sense))
    if key in _cache: return _cache[key]
    out = []
    for beta in itertools.product((0, 1), repeat=len(bins)):
        fixed = {i: Fraction(b) for i, b in zip(bins, beta)}
        if any((lb[i] is not None and fixed[i] < lb[i][0]) or (ub[i] is not None and fixed[i] > ub[i][0]) for i in bins): continue
        sub = _Sub(n, obj, cons, lb, ub, fixed)
        iv = sub.interval()
        if iv is None: continue
        out.append((beta, iv, sub.cuts(iv[0], iv[1], sense)))
    if len(_cache) > 4000: _cache.clear()
    _cache[key] = out
    return out

def one(p):
    """LP handler for problems without symbolic numbers: one optimal answer"""
    o = z3.Optimize(); o.set("timeout", 20000)
    xs = [(z3.Int if c == _pulp.LpInteger else z3.Real)("one!%d" % i) for i, c in enumerate(p.cat)]
    lin = lambda r: z3.Sum([num(_fr(a)) * xs[i] for i, a in r] + [z3.RealVal(0)])
    for i, x in enumerate(xs):
        if p.lb[i] is not None: o.add(x >= num(_fr(p.lb[i])))
        if p.ub[i] is not None: o.add(x <= num(_fr(p.ub[i])))
    for r, sense, b in p.cons:
        l, b = lin(r), num(_fr(b))
        o.add(l <= b if sense == -1 else l >= b if sense == 1 else l == b)
    h = o.minimize(lin(p.obj)) if p.sense == 1 else o.maximize(lin(p.obj))
    r = o.check()
    if r == z3.unknown: raise Inconclusive("z3 Optimize gave no answer")
    if r == z3.unsat: return "infeasible", [Fraction(0)] * len(xs)
    m = o.model()
    return "optimal", [_val(m.eval(x, model_completion=True)) for x in xs]
def exact_fold(p): return exact(p, True)
def exact(p, fold=False):
    """LP handler: the exact set of correct answers"""
    E = Engine.cur
    obj = [(i, _fr(c)) for i, c in p.obj]
    lb, ub = list(p.lb), list(p.ub)
    bins = []
    for i, c in enumerate(p.cat):
        if c == _pulp.LpInteger:
            if lb[i] is None or ub[i] is None or lb[i] < 0 or ub[i] > 1: raise Inconclusive("integer variable that is not binary")
            bins.append(i)
    if len(bins) > 10: raise Inconclusive("too many binary variables")
    par, cons = {}, []
    for r, sense, b in p.cons:
        if is_sym(b): _free(ex(b), par)
        for i, a in r:
            if is_sym(a):
                if i not in bins: raise Inconclusive("symbolic coefficient of a continuous variable")
                _free(ex(a), par)
    for b in lb + ub:
        if b is not None and is_sym(b): _free(ex(b), par)
    if len(par) > 1: raise Inconclusive("right-hand sides depend on several symbolic numbers")
    t = next(iter(par.values())) if par else None
    def at(b, v):
        f = _val(z3.simplify(z3.substitute(ex(b), (t, num(v)))))
        if f is None: raise Inconclusive("right-hand side is not affine")
        return f
    def affine(b):
        if not is_sym(b): return (_fr(b), Fraction(0))
        b0, b1, b2 = at(b, Fraction(0)), at(b, Fraction(1)), at(b, Fraction(3))
        if b2 - b0 != 3 * (b1 - b0): raise Inconclusive("right-hand side is not affine")
        return (b0, b1 - b0)
    lb = [None if b is None else affine(b) for b in lb]; ub = [None if b is None else affine(b) for b in ub]
    for r, sense, b in p.cons:
        cons.append(([(i, affine(a)) for i, a in r], sense, affine(b)))
    parts = analyse(len(p.vars), obj, cons, lb, ub, tuple(bins), p.sense)
    T = SymReal(t) if t is not None else Fraction(0)
    if t is not None: E.assume(And(T >= -LIM, T <= LIM))
    inside = [And(T >= lo, T <= hi) for _, (lo, hi), _ in parts]
    if not bool(Or(inside)): return "infeasible", freshvec(p, "junk")
    for (beta, iv, cuts), ins in zip(parts, inside):
        if cuts is None and bool(ins): return "unbounded", freshvec(p, "junk")
    x = freshvec(p)
    E.assume(p.feasible(x))
    o = p.row(p.obj, x)
    for (beta, iv, cuts), ins in zip(parts, inside):
        if cuts is None: continue
        v = (Max if p.sense == 1 else Min)([a + b * T for a, b in cuts])
        E.assume(Implies(ins, o <= v if p.sense == 1 else o >= v))
    if not bins and fold and len(parts) == 1 and parts[0][2] is not None:
        x = _folded(E, p, x, obj, parts[0][2], T)
    return "optimal", x

def _folded(E, p, x, obj, cuts, T):
    """the same answer, with entries that are forced written as constants and one entry expressed
    so that the objective value is affine in the parameter (so later problems can be analysed)"""
    x = list(x)
    m = E.solver.model() if E._check() == z3.sat else None
    for i, e in enumerate(x):
        if m is None or not is_sym(e): continue
        v = _val(m.eval(ex(e), model_completion=True))
        if v is not None and E._check(ex(e) != num(v)) == z3.unsat: x[i] = v
    ks = [(i, c) for i, c in obj if c != 0 and is_sym(x[i])]
    if ks and len(set(i for i, c in ks)) == len(ks):
        lines = [a + b * T for a, b in cuts]
        act = lines[0]
        for l in lines:
            if bool(And([(l >= k if p.sense == 1 else l <= k) for k in lines])): act = l; break
        k, c = ks[-1]
        rest = sum((d * x[i] for i, d in obj if i != k), Fraction(0))
        y = (act - rest) / c
        E.add(ex(x[k]) == ex(y)) if is_sym(y) else None
        x[k] = y
    return x

def contract(points, fallback=exact):
    """LP handler for symbolic coefficients: any feasible point that is at least as good as each
    of the given points that is feasible; if none is, the exact model is tried"""
    def h(p):
        E = Engine.cur
        ps = [q for q in points if len(q) == len(p.vars)]
        feas = [p.feasible(q) for q in ps]
        if not ps or not bool(Or(feas)): return fallback(p)
        x = freshvec(p)
        E.assume(p.feasible(x))
        for q, f in zip(ps, feas): E.assume(Implies(f, p.better_eq(x, q)))
        return "optimal", x
    return h
