"""Path-forking symbolic execution of real Python code over z3.

Symbolic values are ordinary Python objects (SymReal, SymInt, SymBool); the code under
test runs unmodified on them.  A branch on a symbolic condition forks: the path is
re-executed with a recorded decision prefix, and z3 decides which branches are feasible.
"""
import sys, os, math
from fractions import Fraction
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3
import time

class PathAbort(BaseException):
    """path is infeasible / outside the assumptions"""
class Inconclusive(BaseException):
    """solver said unknown, or a shim cannot express something"""

Q_TIMEOUT_MS = int(os.environ.get("SYMX_QUERY_MS", "20000"))

class Engine:
    cur = None
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []     # list of (value, forced)
        self.alternatives = []  # prefixes to explore
        self.solver = z3.Solver()
        self.solver.set("timeout", Q_TIMEOUT_MS)
        self.pc = []
        self.inputs = {}        # name -> (kind, z3 expr)
        self.nq = 0
        self.tq = 0.0
        self.fresh_n = 0
        self.tokens = {}
        self.discharged = 0
        self.obligations = 0
        self.labels = {}
        self.violations = []
        self.observed = []
        self.stubs = {}         # stub outputs recorded for scripted replays
        self.branches = 0
    # ---- solver access
    def _check(self, *assumps):
        t = time.time()
        r = self.solver.check(*assumps)
        self.tq += time.time() - t
        self.nq += 1
        if r == z3.unknown:
            r = self._retry(assumps)
        return r
    def _retry(self, assumps):
        # a second, non-incremental attempt with the nonlinear tactic
        for mk in (lambda: z3.Tactic("qfnra-nlsat").solver(), lambda: z3.Then("simplify", "solve-eqs", "smt").solver()):
            try:
                s = mk()
                s.set("timeout", Q_TIMEOUT_MS)
                for c in self.pc: s.add(c)
                for a in assumps: s.add(a)
                t = time.time()
                r = s.check()
                self.tq += time.time() - t
                self.nq += 1
                if r == z3.unsat: return r
                if r == z3.sat:
                    self._last_model = s.model()
                    return r
            except z3.Z3Exception:
                pass
        raise Inconclusive("solver returned unknown: %s" % self.solver.reason_unknown())
    def add(self, c):
        if isinstance(c, SymBool): c = c.e
        if c is True: return
        if c is False: raise PathAbort()
        self.pc.append(c)
        self.solver.add(c)
    def assume(self, c):
        if isinstance(c, SymBool): c = c.e
        if c is True: return
        if c is False: raise PathAbort()
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathAbort()
        self.add(c)
        if self.pos >= len(self.prefix):
            if self._check() == z3.unsat: raise PathAbort()
    def fork(self, e):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        self.branches += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(v)
            self.add(e if v else z3.Not(e))
            return v
        self.pos += 1
        t = self._check(e)
        if t == z3.unsat:
            self.decisions.append(False)
            self.add(z3.Not(e))
            return False
        f = self._check(z3.Not(e))
        if f == z3.unsat:
            self.decisions.append(True)
            self.add(e)
            return True
        self.alternatives.append(list(self.decisions) + [False])
        self.decisions.append(True)
        self.add(e)
        return True
    def values(self, e, limit=64):
        """splits over all values of an integer term (the solver enumerates them)"""
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        self.branches += 1
        if self.pos < len(self.prefix): v = self.prefix[self.pos]
        else:
            vals, m = [], self.model()
            if m is None: raise PathAbort()
            while True:
                vals.append(m.eval(e, model_completion=True).as_long())
                if len(vals) > limit: raise Inconclusive("symbolic int with more than %d values concretised" % limit)
                if self._check(*[e != x for x in vals]) == z3.unsat: break
                m = self.model([e != x for x in vals])
                if m is None: break
            v = vals[0]
            for x in vals[1:]: self.alternatives.append(list(self.decisions) + [x])
        self.pos += 1
        self.decisions.append(v)
        self.add(e == v)
        return v
    def fresh(self, sort, hint="t"):
        self.fresh_n += 1
        n = "%s!%d" % (hint, self.fresh_n)
        return {"real": z3.Real, "int": z3.Int, "bool": z3.Bool}[sort](n)
    # ---- models
    def model(self, extra=()):
        """a model of pc+extra whose input reals are 'nice' when possible"""
        s = z3.Solver(); s.set("timeout", 20000)
        for c in self.pc: s.add(c)
        for c in extra: s.add(c)
        reals = [e for (k, e) in self.inputs.values() if k == "real"]
        best = None
        for den in (4, 8, 16, 64, 1024):
            s.push()
            for i, e in enumerate(reals):
                s.add(e * den == z3.ToReal(z3.Int("nice!%d!%d" % (den, i))))
            s.set("timeout", 4000)
            r = s.check()
            if r == z3.sat:
                best = s.model(); s.pop(); break
            s.pop()
        if best is None:
            s.set("timeout", 60000)
            r = s.check()
            if r != z3.sat:
                s2 = z3.Tactic("qfnra-nlsat").solver()
                for c in self.pc: s2.add(c)
                for c in extra: s2.add(c)
                r = s2.check()
                if r != z3.sat: return None
                s = s2
            best = s.model()
        return best

def zval(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Inconclusive("cannot evaluate %s" % v)

def is_sym(x):
    return isinstance(x, (SymReal, SymBool, SymInt))

def num(x):
    """a Python number (or numpy scalar) as exact z3 term"""
    if isinstance(x, bool): return z3.RealVal(int(x))
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x): raise Inconclusive("non-finite float meets a symbolic value")
        x = Fraction(x)
    if isinstance(x, Fraction): return z3.Q(x.numerator, x.denominator)
    try:
        import numpy as _np
        if isinstance(x, _np.bool_): return z3.RealVal(int(x))
        if isinstance(x, _np.integer): return z3.RealVal(int(x))
        if isinstance(x, _np.floating): return num(float(x))
    except ImportError: pass
    return None

def ex(x):
    """z3 Real term of any number-like"""
    if isinstance(x, SymReal): return x.e
    if isinstance(x, SymInt): return z3.ToReal(x.e)
    if isinstance(x, SymBool): return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    return num(x)

def bx(x):
    """z3 Bool term of any bool-like"""
    if isinstance(x, SymBool): return x.e
    if isinstance(x, SymReal): return x.e != 0
    if isinstance(x, SymInt): return x.e != 0
    return z3.BoolVal(bool(x))

def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SymBool(e)

class SymBool:
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __bool__(self):
        return Engine.cur.fork(self.e)
    def __and__(self, o):
        if isinstance(o, bool) or type(o).__name__ in ("bool_", "bool"): return self if o else False
        if not isinstance(o, SymBool): return NotImplemented
        return mkbool(z3.And(self.e, o.e))
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, bool) or type(o).__name__ in ("bool_", "bool"): return True if o else self
        if not isinstance(o, SymBool): return NotImplemented
        return mkbool(z3.Or(self.e, o.e))
    __ror__ = __or__
    def __xor__(self, o): return mkbool(z3.Xor(self.e, bx(o)))
    __rxor__ = __xor__
    def __invert__(self): return mkbool(z3.Not(self.e))
    def __eq__(self, o):
        if is_sym(o) or isinstance(o, (bool, int, float)) or num(o) is not None:
            if isinstance(o, (SymBool, bool)): return mkbool(self.e == bx(o))
            return mkbool(ex(self) == ex(o))
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else (not r)
    def _r(self): return SymReal(ex(self))
    def __add__(self, o): return self._r() + o
    __radd__ = __add__
    def __mul__(self, o): return self._r() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._r() - o
    def __rsub__(self, o): return o - self._r()
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __hash__(self): return hash(bool(self))
    def __repr__(self): return "SymBool(%s)" % self.e
    def __format__(self, spec): return format(bool(self), spec)
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def __reduce__(self): raise Inconclusive("pickling a symbolic value")

def _fold(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return SymReal(e)

class SymReal:
    __slots__ = ("e", "grid")
    __array_priority__ = -1000
    def __init__(self, e, grid=None):
        self.e = e
        self.grid = grid   # optional list of Fractions: finite domain
    def _bin(self, o, f, swap=False):
        t = ex(o)
        if t is None: return NotImplemented
        return _fold(f(t, self.e) if swap else f(self.e, t))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        for a, b in ((self, o), (o, self)):
            if isinstance(a, SymReal) and a.grid is not None and isinstance(b, SymReal):
                # finite-domain factor: product is linear
                e = b.e * num(a.grid[-1])
                for v in reversed(a.grid[:-1]):
                    e = z3.If(a.e == num(v), b.e * num(v), e)
                return _fold(e)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, SymReal) or is_sym(o):
            if bool(o == 0): raise ZeroDivisionError("float division by zero")
            return _div(self, o)
        if o == 0: raise ZeroDivisionError("float division by zero")
        return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o):
        if ex(o) is None: return NotImplemented
        if bool(self == 0): raise ZeroDivisionError("float division by zero")
        return _div(o, self)
    def __neg__(self): return _fold(-self.e)
    def __pos__(self): return self
    def __abs__(self): return _fold(z3.If(self.e >= 0, self.e, -self.e))
    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = Fraction(1)
            for _ in range(n): r = self * r
            return r
        return NotImplemented
    def _cmp(self, o, f):
        t = ex(o)
        if t is None:
            if isinstance(o, float) or o is None: return NotImplemented
            return NotImplemented
        return mkbool(f(self.e, t))
    def __lt__(self, o):
        if isinstance(o, float) and math.isinf(o): return o > 0
        return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o):
        if isinstance(o, float) and math.isinf(o): return o > 0
        return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o):
        if isinstance(o, float) and math.isinf(o): return o < 0
        return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o):
        if isinstance(o, float) and math.isinf(o): return o < 0
        return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)): return False
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)): return False
        return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented: return True
        return ~r if isinstance(r, SymBool) else (not r)
    def __bool__(self): return Engine.cur.fork(self.e != 0)
    def __hash__(self): raise Inconclusive("hash of a symbolic real")
    def __float__(self): raise Inconclusive("symbolic real forced to a machine float")
    def __int__(self): raise Inconclusive("symbolic real forced to int")
    def __round__(self, nd=None): return sym_round(self, nd or 0)
    def __floor__(self): return SymReal(z3.ToReal(z3.ToInt(self.e)))
    def __ceil__(self): return SymReal(-z3.ToReal(z3.ToInt(-self.e)))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __str__(self): return token(self)
    def __format__(self, spec): return format_sym(self, spec)
    def __repr__(self): return token(self)
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def conjugate(self): return self
    def item(self): return self
    def is_integer(self): return mkbool(z3.IsInt(self.e))
    def as_integer_ratio(self): raise Inconclusive("as_integer_ratio")
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    def __reduce__(self): raise Inconclusive("pickling a symbolic value")

def _div(a, b):
    ea, eb = ex(a), ex(b)
    return _fold(ea / eb)

def sym_round(x, nd):
    """round-half-even to nd digits of a symbolic real"""
    E = Engine.cur
    k = E.fresh("int", "rnd")
    scale = Fraction(10) ** nd
    y = x.e * num(scale)
    d = y - z3.ToReal(k)
    E.add(z3.And(d <= num(Fraction(1, 2)), d >= num(Fraction(-1, 2)),
                 z3.Implies(z3.Or(d == num(Fraction(1, 2)), d == num(Fraction(-1, 2))), k % 2 == 0)))
    return SymReal(z3.ToReal(k) / num(scale))

class SymTerm:
    """the value of a SymKey; comparison gives a formula"""
    __slots__ = ("e",)
    __hash__ = None
    def __init__(self, e): self.e = e
    def __eq__(self, o): return mkbool(self.e == o.e) if isinstance(o, SymTerm) else False
    def __ne__(self, o): return Not(self == o)
class SymKey:
    """an object known only up to equality: all keys share one hash value, comparisons fork"""
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    @property
    def t(self): return SymTerm(self.e)
    def __hash__(self): return 7
    def __eq__(self, o): return self is o or (isinstance(o, SymKey) and bool(mkbool(self.e == o.e)))
    def __ne__(self, o): return not self == o
    def __repr__(self): return "<key>"
    __str__ = __repr__

class SymInt:
    """bounded symbolic integer; hashing/indexing splits over its domain"""
    __slots__ = ("e", "dom")
    def __init__(self, e, dom=None):
        self.e = e; self.dom = dom
    def conc(self):
        if self.dom is None: return Engine.cur.values(self.e)
        for v in self.dom[:-1]:
            if Engine.cur.fork(self.e == v): return v
        Engine.cur.add(self.e == self.dom[-1])
        return self.dom[-1]
    def __index__(self): return self.conc()
    def __int__(self): return self.conc()
    def __hash__(self): return hash(self.conc())
    def _t(self, o):
        if isinstance(o, SymInt): return o.e
        if isinstance(o, bool): return z3.IntVal(int(o))
        if isinstance(o, int): return z3.IntVal(o)
        try:
            import numpy as _np
            if isinstance(o, _np.integer): return z3.IntVal(int(o))
        except ImportError: pass
        return None
    def _a(self, o, f, swap=False):
        t = self._t(o)
        if t is None:
            if ex(o) is None: return NotImplemented
            a, b = SymReal(z3.ToReal(self.e)), o
            return _fold(f(ex(b), a.e) if swap else f(a.e, ex(b)))
        r = z3.simplify(f(t, self.e) if swap else f(self.e, t))
        if z3.is_int_value(r): return r.as_long()
        return SymInt(r)
    def __add__(self, o): return self._a(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._a(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._a(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._a(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SymInt(-self.e)
    def _c(self, o, f):
        t = self._t(o)
        if t is not None: return mkbool(f(self.e, t))
        t = ex(o)
        if t is None: return NotImplemented
        return mkbool(f(z3.ToReal(self.e), t))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else (not r)
    def __bool__(self): return Engine.cur.fork(self.e != 0)
    def __float__(self): return float(self.conc())
    def __str__(self): return str(self.conc())
    def __repr__(self): return str(self.conc())
    def __format__(self, s): return format(self.conc(), s)

# ---- text tokens: symbolic numbers travelling through formatted text
import re
TOK = re.compile(r"^\s*(-?)SYM(\d+)S\s*$")
def token(x):
    E = Engine.cur
    if E is None: return "<sym>"
    n = len(E.tokens)
    E.tokens[n] = x
    return "SYM%dS" % n

def from_token(s):
    m = TOK.match(s)
    if not m: return None
    v = Engine.cur.tokens[int(m.group(2))]
    return -v if m.group(1) else v

def format_sym(x, spec):
    """str.format / f-string semantics of a symbolic real"""
    if spec in ("", "r", "s"): return token(x)
    m = re.match(r"^[<>^=+\- #0]*(\d*)(?:\.(\d+))?([eEfFgGn%]?)$", spec)
    if not m: raise Inconclusive("format spec %r" % spec)
    prec, kind = m.group(2), m.group(3)
    if kind in ("f", "F"):
        return token(sym_round(x, int(prec) if prec else 6))
    if kind in ("g", "G", "e", "E", ""):
        p = int(prec) if prec is not None else (6 if kind else 17)
        if p >= 16 or (kind in ("e", "E") and p >= 15): return token(x)
        return token(sym_sig(x, p if kind not in ("e", "E") else p + 1))
    raise Inconclusive("format spec %r" % spec)

def sym_sig(x, p):
    """x rounded to p significant digits: exact for magnitudes in [1e-4, 10), a relative error
    bound below and above; zero stays zero"""
    E = Engine.cur
    r = E.fresh("real", "sig")
    a = z3.If(x.e >= 0, x.e, -x.e)
    d = z3.If(r - x.e >= 0, r - x.e, x.e - r)
    E.add(d <= a * num(Fraction(1, 2) * Fraction(10) ** (1 - p)))
    hi = Fraction(10)
    for nd in range(p - 1, p + 4):
        lo = hi / 10
        E.add(z3.Implies(z3.And(a >= num(lo), a < num(hi)), r == sym_round(x, nd).e))
        hi = lo
    return SymReal(r)

class FormatArg:
    pass

PCT = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([hlL]?)([diouxXeEfFgGcrsa%])")
def sym_mod(a, b):
    """Python's % with formatting of symbolic numbers"""
    if not isinstance(a, str): return a % b
    if isinstance(b, dict): vals = None
    elif isinstance(b, tuple): vals = list(b)
    else: vals = [b]
    if vals is None or not any(is_sym(v) or isinstance(v, Fraction) for v in vals):
        return a % b
    out, pos, i = [], 0, 0
    for m in PCT.finditer(a):
        out.append(a[pos:m.start()]); pos = m.end()
        if m.group(6) == "%": out.append("%"); continue
        v = vals[i]; i += 1
        spec = "%" + m.group(2) + (m.group(3) or "") + (("." + m.group(4)) if m.group(4) else "") + m.group(6)
        c = m.group(6)
        if isinstance(v, SymReal):
            if c in "rsa": out.append(token(v))
            elif c in "di": out.append(token(v))
            else: out.append(format_sym(v, (("." + m.group(4)) if m.group(4) else "") + (c if c != "" else "")))
        elif isinstance(v, Fraction):
            if c in "rsa": out.append(frac_text(v))
            elif c in "di": out.append(str(int(v)))
            else: out.append(spec % float(v))
        elif isinstance(v, SymInt): out.append(spec % v.conc())
        elif isinstance(v, SymBool): out.append(spec % bool(v))
        else: out.append(spec % (v,))
    out.append(a[pos:])
    if i < len(vals): raise TypeError("not all arguments converted during string formatting")
    return "".join(out)

def frac_text(v):
    f = float(v)
    return repr(f) if Fraction(f) == v or Engine.cur is None else token(v)

# ---- helpers usable on symbolic and concrete values alike
def And(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    if any(x is False for x in xs): return False
    es = [bx(x) for x in xs if isinstance(x, SymBool)]
    if not all(bool(x) for x in xs if not isinstance(x, SymBool)): return False
    if not es: return True
    return mkbool(z3.And(*es))
def Or(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    es = [bx(x) for x in xs if isinstance(x, SymBool)]
    if any(bool(x) for x in xs if not isinstance(x, SymBool)): return True
    if not es: return False
    return mkbool(z3.Or(*es))
def Not(x):
    if isinstance(x, SymBool): return mkbool(z3.Not(x.e))
    return not x
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool): return mkbool(bx(a) == bx(b))
    return bool(a) == bool(b)
def Ite(c, a, b):
    if isinstance(c, SymBool):
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            return mkbool(z3.If(c.e, bx(a), bx(b)))
        return _fold(z3.If(c.e, ex(a), ex(b)))
    return a if c else b
def _cfirst(xs, f):
    """concrete entries first, as one"""
    xs = list(xs)
    c = [x for x in xs if not is_sym(x)]
    return [f(c)] + [x for x in xs if is_sym(x)] if c else xs
def Min(xs):
    xs = _cfirst(xs, min); r = xs[0]
    for x in xs[1:]:
        r = Ite(x < r, x, r)
    return r
def Max(xs):
    xs = _cfirst(xs, max); r = xs[0]
    for x in xs[1:]:
        r = Ite(x > r, x, r)
    return r
import numbers as _numbers
_numbers.Real.register(SymReal); _numbers.Integral.register(SymInt)
