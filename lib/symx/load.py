"""Loads the modules of /repo's switss package into a symbolic world: sources are read from
/repo on every run, parsed, `%` is routed through a hook that can format symbolic numbers,
and the modules are executed with builtins and third-party libraries replaced by exact
stand-ins."""
import ast, builtins, os, sys, types, math, importlib, io, functools
import numpy as _np
import pulp as _pulp
from fractions import Fraction
from .core import *
from . import core, npshim, spshim

REPO = os.environ.get("SYMX_REPO", "/repo")

# ------------------------------------------------------------------ builtins
class _NumMeta(type):
    def __instancecheck__(cls, x): return cls._chk(x)
    def __subclasscheck__(cls, s): return issubclass(s, cls._base)
    def __eq__(cls, o): return o is cls._base or o is type.__call__ or (isinstance(o, type) and type.__hash__(o) == type.__hash__(cls))
    def __hash__(cls): return hash(cls._base)
class sfloat(metaclass=_NumMeta):
    _base = float
    _symfloat = True
    @staticmethod
    def _chk(x): return isinstance(x, (float, Fraction, SymReal))
    def __new__(cls, x=0.0):
        if isinstance(x, (SymReal, Fraction)): return x
        if isinstance(x, SymInt): return SymReal(z3.ToReal(x.e))
        if isinstance(x, SymBool): return SymReal(ex(x))
        if isinstance(x, str):
            v = from_token(x)
            if v is not None: return v
            if "SYM" in x: raise Inconclusive("text of a symbolic number was cut: %r" % x)
            return float(x)
        if isinstance(x, _np.ndarray):
            if x.ndim > 0: raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
            return sfloat(x.item())
        return float(x)
    fromhex = float.fromhex
class sint(metaclass=_NumMeta):
    _base = int
    _symint = True
    @staticmethod
    def _chk(x): return isinstance(x, (int, SymInt))
    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt): return x
        if isinstance(x, SymBool): return SymInt(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), [0, 1])
        if isinstance(x, SymReal):
            e = z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e))
            return SymInt(z3.simplify(e))
        if isinstance(x, str) and "SYM" in x: raise Inconclusive("int() of symbolic text %r" % x)
        if isinstance(x, str) and Engine.cur is not None and getattr(Engine.cur, "numerals", None):
            k = Engine.cur.numerals.get(x.strip())
            if k is not None: return k
            if builtins.any(c in x for c in Engine.cur.numerals): raise Inconclusive("text of a symbolic number was cut: %r" % x)
        if isinstance(x, _np.ndarray) and x.ndim > 0: raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return int(x, *a)
    from_bytes = int.from_bytes
class sbool(metaclass=_NumMeta):
    _base = bool
    _symbool = True
    @staticmethod
    def _chk(x): return isinstance(x, (bool, SymBool))
    def __new__(cls, x=False):
        return builtins.bool(x)

def _mm(F, real):
    def f(*a, key=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs and "default" in k: return k["default"]
        if key is not None or not builtins.any(is_sym(x) for x in xs):
            return real(xs, key=key, **k) if key else real(xs, **k)
        r = xs[0]
        for x in xs[1:]:
            c = (x < r) if F == "min" else (x > r)
            if isinstance(c, SymBool) and all(is_sym(v) or isinstance(v, (int, Fraction)) or (isinstance(v, float) and math.isfinite(v)) for v in (x, r)):
                r = Ite(c, x, r)
            elif bool(c): r = x
        return r
    return f
def _round(x, nd=None):
    if is_sym(x): return sym_round(x, nd or 0) if isinstance(x, SymReal) else x
    if isinstance(x, Fraction): return Fraction(round(x, nd)) if nd is not None else round(x)
    return round(x, nd) if nd is not None else round(x)
def _sum(xs, start=0):
    r = start
    for x in xs: r = r + x
    return r
def _silent(*a, sep=" ", end="\n", file=None, flush=False):
    if file is None or file in (sys.stdout, sys.stderr): return
    file.write((" " if sep is None else sep).join(str(x) for x in a) + ("\n" if end is None else end))
class _text:
    """the rationals stand for floats: inside the executed code they print as floats do"""
    def __repr__(self): return frac_text(self)
    __str__ = __repr__
    def __format__(self, spec): return format(float(self), spec) if spec else frac_text(self)
def patch_fractions():
    for n in ("__repr__", "__str__", "__format__"): setattr(Fraction, n, _text.__dict__[n])

def sym_all(xs):
    for x in xs:
        if not x: return False
    return True
def sym_any(xs):
    for x in xs:
        if x: return True
    return False

# ------------------------------------------------------------------ math
class MathProxy(types.ModuleType):
    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f): return f
        def g(*a, **k):
            if builtins.any(is_sym(x) for x in a): raise Inconclusive("math.%s of a symbolic number" % n)
            return f(*a, **k)
        return g
smath = MathProxy("math")
def _isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if not is_sym(a) and not is_sym(b): return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    t = Max([npshim.exact(rel_tol) * Max([abs(a), abs(b)]), npshim.exact(abs_tol)])
    return abs(a - b) <= t
smath.isclose = _isclose
smath.floor = lambda x: sint(x.__floor__()) if is_sym(x) else math.floor(x)
smath.ceil = lambda x: sint(x.__ceil__()) if is_sym(x) else math.ceil(x)
smath.isnan = lambda x: False if is_sym(x) or isinstance(x, Fraction) else math.isnan(x)
smath.isinf = lambda x: False if is_sym(x) or isinstance(x, Fraction) else math.isinf(x)
smath.isfinite = lambda x: True if is_sym(x) or isinstance(x, Fraction) else math.isfinite(x)
smath.fabs = abs
smath.fsum = _sum

# ------------------------------------------------------------------ AST hook
class _Mod(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name("__symx_mod__", ast.Load()), [n.left, n.right], []), n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name("__symx_mod__", ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

_code = {}
def compile_file(path):
    if path not in _code:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            src = open(path, encoding="utf-8").read()
            t = ast.fix_missing_locations(_Mod().visit(ast.parse(src, path)))
            _code[path] = compile(t, path, "exec", dont_inherit=True)
    return _code[path]

# ------------------------------------------------------------------ native kernel
class KernelMiss(Exception): pass
def make_graph_module(real_graph_module):
    """switss.utils.graph on the concrete structure of this path: the compiled kernel runs on
    it natively; every symbolic probability is represented by a distinct dyadic number and
    mapped back on the way out."""
    RealGraph = real_graph_module.Graph
    class _P:
        def __init__(self, shape, items): self.shape = shape; self._i = items
        def items(self): return self._i
        def keys(self): return [k for k, _ in self._i]
        def __getitem__(self, k): return dict(self._i).get(k, 0.0)
    class Graph:
        def __init__(self, P=None, index_by_state_action=None):
            self._tok = {}
            items = []
            if P is None:
                self._g = RealGraph(); return
            for n, (k, p) in enumerate(list(P.items())):
                t = (n + 1) / 1024.0
                self._tok[t] = p
                items.append((k, t))
            self._g = RealGraph(_P(P.shape, items), index_by_state_action)
        def _back(self, it):
            for (s, a, p) in it:
                if p not in self._tok: raise KernelMiss("probability %r was never stored" % p)
                yield (s, a, self._tok[p])
        def successors(self, *a, **k): return self._back(self._g.successors(*a, **k))
        def predecessors(self, *a, **k): return self._back(self._g.predecessors(*a, **k))
        def __getattr__(self, n):
            if n.startswith("__"): raise AttributeError(n)
            return getattr(self._g, n)
        def __str__(self): return str(self._g)
        def __reduce__(self): raise TypeError("no default __reduce__ due to non-trivial __cinit__")
    m = types.ModuleType("switss.utils.graph")
    m.Graph = Graph
    return m

# ------------------------------------------------------------------ world
class World:
    """one fresh instance of the switss package"""
    def __init__(self, overrides=None, builtin_overrides=None):
        self.mods = {}
        self.over = dict(overrides or {})
        patch_fractions()
        self.over.setdefault("numpy", npshim.np)
        self.over.setdefault("scipy.sparse", spshim.sparse)
        self.over.setdefault("math", smath)
        sc = types.ModuleType("scipy"); sc.sparse = self.over["scipy.sparse"]
        self.over.setdefault("scipy", sc)
        if "pulp" not in self.over:
            from . import lpstub
            self.over["pulp"] = lpstub.pulp_proxy
        b = types.ModuleType("builtins")
        b.__dict__.update(builtins.__dict__)
        b.float, b.int, b.bool = sfloat, sint, sbool
        b.min, b.max, b.round, b.sum, b.print = _mm("min", min), _mm("max", max), _round, _sum, _silent
        b.all, b.any = sym_all, sym_any
        b.__import__ = self._import
        b.__symx_mod__ = sym_mod
        for k, v in (builtin_overrides or {}).items(): setattr(b, k, v)
        self.b = b
    def _find(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p): return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"): return p + ".py", False
        return None, False
    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name in self.over:
            self.mods[name] = self.over[name]
            return self.mods[name]
        if name in NATIVE:
            m = NATIVE[name]()
            self.mods[name] = m
            self._attach(name, m)
            return m
        if "." in name: self.load(name.rsplit(".", 1)[0])
        if name in self.mods: return self.mods[name]
        path, pkg = self._find(name)
        if path is None: raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.b
        if pkg: m.__path__ = [os.path.dirname(path)]
        m.__package__ = name if pkg else name.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.b.__dict__
        self.mods[name] = m
        try:
            if os.path.exists(path): exec(compile_file(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None); raise
        self._attach(name, m)
        return m
    def _attach(self, name, m):
        if "." in name:
            par, _, ch = name.rpartition(".")
            if par in self.mods: setattr(self.mods[par], ch, m)
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name in self.over or name.split(".")[0] == "switss":
            if name in self.over: m = self.over[name]
            else: m = self.load(name)
            if m is None: raise ModuleNotFoundError("No module named %r" % name)
            if fromlist:
                if name.split(".")[0] == "switss":
                    for f in fromlist:
                        if f != "*" and not hasattr(m, f):
                            try: self.load(name + "." + f)
                            except ModuleNotFoundError: pass
                return m
            top = name.split(".")[0]
            return self.over.get(top) if top in self.over else self.load(top)
        return importlib.__import__(name, None, None, fromlist, 0)
    def exec_file(self, path, name="__main__", extra=None):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.b.__dict__
        m.__dict__.update(extra or {})
        exec(compile_file(path), m.__dict__)
        return m

NATIVE = {}
def install_native():
    """imports the compiled kernel of the current tree (built if necessary)"""
    from . import native
    g = native.graph_module()
    NATIVE["switss.utils.graph"] = lambda: make_graph_module(g)
    NATIVE["switss.utils.treaps"] = lambda: native.treaps_module()
    NATIVE["switss.utils.stack"] = lambda: native.stack_module()
