"""Symbolic execution of the real Cython sources with state merging.

The parser's syntax trees of the current .pyx/.pxd files are executed directly.  Every value
is a guarded set of concrete values (MV); guards are canonical Boolean functions (BDDs) over
the symbolic inputs, so both sides of a branch are executed and merged, and a branch, loop
iteration or recursive call whose guard is false is not entered.  The heap is modelled at byte
offsets with blocks that know their size, whether they are alive and which cells were written."""
from collections import namedtuple
from . import parse
from .bdd import BDD
from symx.core import Inconclusive

class Unsupported(Inconclusive): pass
class _Uninit:
    def __repr__(self): return "<uninitialised>"
UNINIT = _Uninit()
Ptr = namedtuple("Ptr", "block off type")
NULLP = Ptr(0, 0, None)
class Tok(namedtuple("Tok", "name kind")):
    """an opaque positive real; kind records the narrowings it went through"""
    __slots__ = ()

class MV:
    __slots__ = ("m",)
    def __init__(self, m): self.m = m
    def __repr__(self): return "MV(%s)" % list(self.m)
class TupV:
    """an aggregate: Python tuple, ctuple or (with names) struct value"""
    __slots__ = ("v", "names", "tname")
    def __init__(self, v, names=None, tname=None): self.v = list(v); self.names = names; self.tname = tname
    def __repr__(self): return "TupV(%r)" % (self.v,)
class GList:
    """a sequence whose elements are present under guards"""
    def __init__(self, e=()): self.e = list(e)
class PySet:
    def __init__(self): self.d = {}
class PyDict:
    def __init__(self): self.d = {}       # key -> [guard, value]
class NpArr:
    def __init__(self, length, cells, default=0): self.length, self.cells, self.default = length, cells, default
class PyObj:
    def __init__(self, cls): self.cls, self.attrs = cls, {}
class Host:
    """an object of the harness; attributes come from a dictionary"""
    def __init__(self, **k): self.k = k
class HostFn:
    def __init__(self, f): self.f = f      # f(interp, args, kwargs, guard)
class Func:
    def __init__(self, mod, node, cls=None, closure=None): self.mod, self.node, self.cls, self.closure = mod, node, cls, closure; self.info = None
class Bound:
    def __init__(self, self_, f): self.self_, self.f = self_, f
class Cls:
    def __init__(self, mod, name): self.mod, self.name, self.methods, self.attrs = mod, name, {}, {}
class StructT:
    def __init__(self, name, fields): self.name, self.fields = name, fields
class Type:
    """('int',) ('long',) ('float',) ('double',) ('char',) ('struct', name) ('tuple', types) ('ptr', T) ('obj',) ('void',) ('arr', T, n)"""
class Exc(namedtuple("Exc", "guard kind where")): pass
INT, LONG, FLOAT, DOUBLE, OBJ, VOID, CHAR = ("int",), ("long",), ("float",), ("double",), ("obj",), ("void",), ("char",)
PRIM = {"int": 4, "long": 8, "float": 4, "double": 8, "char": 1, "short": 2}

class Block:
    __slots__ = ("id", "size", "alloc", "freed", "cells", "csz", "where", "zero", "stack")
class Frame:
    def __init__(self, mod, g0, fn=None, parent=None):
        self.mod, self.g0, self.fn, self.parent = mod, g0, fn, parent
        self.vars, self.types, self.boxed = {}, {}, {}
        self.retg, self.ret, self.loops = 0, UNINIT, []
        self.yields = None
        self.stackblocks = []
class Module:
    def __init__(self, name): self.name, self.names, self.structs, self.typedefs = name, {}, {}, {}

PKG = "switss/utils/"
class Interp:
    def __init__(self, max_steps=3_000_000, max_iter=400):
        self.B = BDD()
        self.blocks = [None]
        self.dead_exc = self.dead_ub = self.dead_loop = 0
        self.viols, self.excs = [], []
        self.steps, self.max_steps, self.max_iter = 0, max_steps, max_iter
        self.modules = {}
        self.funcs = set()
        self.rand = lambda g: 0
        self.atoms = {}          # (token, op, const) -> guard
        self.depth = 0
        self.derefs = 0
    # ------------------------------------------------------------ values
    def items(self, x, g):
        if type(x) is MV:
            a = self.B.and_
            return [(v, gv) for v, gv in ((v, a(gg, g)) for v, gg in x.m.items()) if gv]
        return [(x, g)]
    def restrict(self, x, g):
        if type(x) is MV:
            it = self.items(x, g)
            if len(it) == 1: return it[0][0]
            if not it: return UNINIT
            return MV(dict(it))
        if type(x) is TupV:
            return TupV([self.restrict(v, g) for v in x.v], x.names, x.tname)
        return x
    def join(self, pairs):
        """pairs of (value, guard), guards disjoint"""
        m, o = {}, self.B.or_
        agg = None
        pairs = list(pairs)
        if any(type(v) is TupV for v, _ in pairs):
            tp = [(v, g) for v, g in pairs if type(v) is TupV]
            n = len(tp[0][0].v)
            if any(type(v) is not TupV and v is not UNINIT for v, _ in pairs): raise Unsupported("tuple merged with a scalar")
            if any(len(v.v) != n for v, _ in tp): raise Unsupported("tuples of different lengths merged")
            return TupV([self.join([(v.v[i], g) for v, g in tp]) for i in range(n)], tp[0][0].names, tp[0][0].tname)
        for v, g in pairs:
            if type(v) is MV:
                for w, gw in self.items(v, g): m[w] = o(m.get(w, 0), gw)
            elif g: m[v] = o(m.get(v, 0), g)
        if len(m) == 1: return next(iter(m))
        if not m: return UNINIT
        return MV(m)
    def merge(self, old, new, g, g0=1):
        """new where g holds, old elsewhere (g0: where the result matters)"""
        if g == 1 or g == g0: return new
        if g == 0: return old
        if old is new: return old
        if not isinstance(old, (MV, TupV)) and not isinstance(new, (MV, TupV)):
            try:
                if type(old) is type(new) and old == new: return old
            except Exception: pass
        ng = self.B.diff(g0, g)
        if not ng: return new
        if type(old) is TupV and type(new) is TupV or (type(new) is TupV and old is UNINIT) or (type(old) is TupV and new is UNINIT):
            n = new if type(new) is TupV else old
            ov = old.v if type(old) is TupV else [UNINIT] * len(n.v)
            nv = new.v if type(new) is TupV else [UNINIT] * len(n.v)
            if len(ov) != len(nv): raise Unsupported("tuples of different lengths merged")
            return TupV([self.merge(a, b, g, g0) for a, b in zip(ov, nv)], n.names, n.tname)
        return self.join([(new, g), (old, ng)])
    def lift(self, f, args, g):
        if not any(type(a) is MV for a in args): return f(*args)
        out = []
        def rec(i, acc, gg):
            if i == len(args): out.append((f(*acc), gg)); return
            for v, gv in self.items(args[i], gg): rec(i + 1, acc + [v], gv)
        rec(0, [], g)
        return self.join(out)
    def expand(self, x, g):
        """(hashable value, guard) pairs of a value that may be an aggregate"""
        if type(x) is TupV:
            out = [((), g)]
            for c in x.v:
                out = [(t + (v,), gv) for t, gg in out for v, gv in self.expand(c, gg)]
            return out
        return self.items(x, g)
    def pack(self, v):
        return TupV(v) if isinstance(v, tuple) and not isinstance(v, (Ptr, Tok)) else v
    # ------------------------------------------------------------ violations and exceptions
    def dead(self): return self.B.or_(self.dead_exc, self.dead_ub)
    def viol(self, g, what, where):
        g = self.B.diff(g, self.dead())
        if not g: return
        self.viols.append(Exc(g, what, where))
        self.dead_ub = self.B.or_(self.dead_ub, g)
    def exc(self, g, kind, where):
        g = self.B.diff(g, self.dead())
        if not g: return
        self.excs.append(Exc(g, kind, where))
        self.dead_exc = self.B.or_(self.dead_exc, g)
    def live(self, g): return self.B.diff(g, self.dead()) if (self.dead_exc or self.dead_ub) else g
    def pos(self, n):
        try: return "%s:%d" % (n.pos[0].get_description(), n.pos[1])
        except Exception: return "?"
    def init(self, x, g, n, what="an uninitialised value is used"):
        """drops the uninitialised alternatives, which are violations"""
        if x is UNINIT:
            self.viol(g, what, self.pos(n)); return UNINIT
        if type(x) is MV and UNINIT in x.m:
            gg = self.B.and_(x.m[UNINIT], g)
            if gg: self.viol(gg, what, self.pos(n))
            m = {v: q for v, q in x.m.items() if v is not UNINIT}
            if len(m) == 1: return next(iter(m))
            return MV(m)
        return x
    # ------------------------------------------------------------ types
    def sizeof(self, t):
        if t[0] in PRIM: return PRIM[t[0]]
        if t[0] == "ptr": return 8
        if t[0] == "arr": return t[2] * self.sizeof(t[1])
        if t[0] in ("struct", "tuple"): return self.layout(t)[1]
        raise Unsupported("sizeof %r" % (t,))
    def align(self, t):
        if t[0] in ("struct", "tuple"): return self.layout(t)[2]
        if t[0] == "arr": return self.align(t[1])
        return self.sizeof(t)
    def layout(self, t):
        """([(name, offset, type)], size, alignment)"""
        if t in self._lay: return self._lay[t]
        fields = self.structs[t[1]] if t[0] == "struct" else [("f%d" % i, x) for i, x in enumerate(t[1])]
        off, al, out = 0, 1, []
        for n, ft in fields:
            a = self.align(ft); off = (off + a - 1) // a * a
            out.append((n, off, ft)); off += self.sizeof(ft); al = max(al, a)
        r = (out, (off + al - 1) // al * al, al)
        self._lay[t] = r
        return r
    _lay = None
    def base_type(self, n, mod):
        k = type(n).__name__
        if k == "CSimpleBaseTypeNode":
            if n.name is None: return OBJ
            if n.is_basic_c_type:
                if n.name == "int":
                    return {0: INT, 1: LONG, 2: LONG, -1: ("short",)}[n.longness]
                if n.name in ("bint",): return INT
                if n.name in ("size_t", "Py_ssize_t", "ssize_t"): return LONG
                if n.name == "double" or n.name == "float" or n.name == "void" or n.name == "char": return (n.name,)
            if n.name in ("bint",): return INT
            if n.name in ("size_t", "Py_ssize_t", "ssize_t", "int64_t", "uint64_t"): return LONG
            if n.name in ("int32_t", "uint32_t"): return INT
            v = mod.names.get(n.name)
            if isinstance(v, tuple) and v and v[0] == "type": return v[1]
            return OBJ
        if k == "CTupleBaseTypeNode": return ("tuple", tuple(self.base_type(c, mod) for c in n.components))
        if k == "CComplexBaseTypeNode": return self.decl(n.declarator, self.base_type(n.base_type, mod))[1]
        if k == "MemoryViewSliceTypeNode": return OBJ
        if k in ("CConstOrVolatileTypeNode", "CConstTypeNode"): return self.base_type(n.base_type, mod)
        if k == "TemplatedTypeNode": return OBJ
        raise Unsupported("type %s" % k)
    def decl(self, d, t):
        """(name, type, declarator) of a declarator"""
        k = type(d).__name__
        if k == "CNameDeclaratorNode": return d.name, t, d
        if k == "CPtrDeclaratorNode": return self.decl(d.base, ("ptr", t))
        if k == "CFuncDeclaratorNode": return self.decl(d.base, t)
        if k == "CArrayDeclaratorNode":
            n = self.const_int(d.dimension)
            return self.decl(d.base, ("arr", t, n))
        if k == "CConstDeclaratorNode": return self.decl(d.base, t)
        raise Unsupported("declarator %s" % k)
    def const_int(self, n):
        if n is None: return 0
        if type(n).__name__ == "IntNode": return int(n.value, 0)
        raise Unsupported("array dimension that is not a literal")
    # ------------------------------------------------------------ modules
    structs = None
    def load_modules(self, names=("treaps", "stack", "graph")):
        self.structs, self._lay = {}, {}
        for n in names: self.module(n)
        return self
    def module(self, n):
        if n in self.modules: return self.modules[n]
        if self.structs is None: self.structs, self._lay = {}, {}
        mod = self.modules[n] = Module(n)
        if not parse.exists(PKG + n + ".pyx") and not parse.exists(PKG + n + ".py"): raise Unsupported("module %s" % n)
        for pxd in (True, False):
            p = PKG + n + (".pxd" if pxd else ".pyx")
            if not parse.exists(p): continue
            tree, src = parse.parse(p, "switss.utils." + n, pxd)
            self.toplevel(tree.body, mod)
        return mod
    def toplevel(self, body, mod):
        for s in (body.stats if type(body).__name__ == "StatListNode" else [body]):
            k = type(s).__name__
            if k == "StatListNode": self.toplevel(s, mod)
            elif k == "FromCImportStatNode":
                m = s.module_name.split(".")[-1]
                if s.relative_level or s.module_name.startswith("switss"):
                    src = self.module(m)
                    for _, name, asn in s.imported_names[:] if len(s.imported_names[0]) == 3 else []:
                        mod.names[asn or name] = ("import", src, name)
                        v = src.names.get(name)
                        if isinstance(v, tuple) and v and v[0] == "type": mod.names[asn or name] = v
                else:
                    for _, name, asn in s.imported_names:
                        if name in ("bool",): mod.names[asn or name] = ("type", INT)
                        elif name in ("int32_t", "uint32_t"): mod.names[asn or name] = ("type", INT)
                        elif name in ("int64_t", "uint64_t"): mod.names[asn or name] = ("type", LONG)
                        else: mod.names[asn or name] = ("cfn", name)
            elif k == "FromImportStatNode":
                src = s.module.module_name.value if hasattr(s.module, "module_name") else ""
                lvl = getattr(s.module, "level", 0) or 0
                for name, target in s.items:
                    mod.names[target.name] = ("pyimport", str(src), lvl, name)
            elif k == "CStructOrUnionDefNode":
                self.struct(s, mod)
            elif k == "CTypeDefNode":
                name, t, _ = self.decl(s.declarator, self.base_type(s.base_type, mod))
                mod.names[name] = ("type", t)
            elif k == "CFuncDefNode":
                name = self.decl(s.declarator, OBJ)[0]
                mod.names[name] = Func(mod, s)
            elif k == "DefNode":
                mod.names[s.name] = Func(mod, s)
            elif k == "CClassDefNode":
                c = Cls(mod, s.class_name)
                self.classbody(s.body, c, mod)
                if not s.in_pxd or s.class_name not in mod.names: mod.names[s.class_name] = c
            elif k == "PyClassDefNode":
                mod.names[s.name] = ("unsupported", "Python class")
            elif k == "CVarDefNode":
                t = self.base_type(s.base_type, mod)
                for d in s.declarators:
                    if type(d).__name__ == "CFuncDeclaratorNode" or (type(d).__name__ == "CPtrDeclaratorNode" and self.isfunc(d)): continue
                    name, ty, dd = self.decl(d, t)
                    fr = Frame(mod, 1)
                    v = self.ev(dd.default, fr, 1) if getattr(dd, "default", None) is not None else (NULLP if ty[0] == "ptr" else 0)
                    mod.names[name] = ["gvar", self.conv(v, ty, 1, s), ty]
            elif k == "SingleAssignmentNode":
                if type(s.rhs).__name__ == "ImportNode":
                    mod.names[s.lhs.name] = ("pymodule", str(s.rhs.module_name.value)); continue
                if type(s.lhs).__name__ == "NameNode":
                    mod.names[s.lhs.name] = ["gvar", self.ev(s.rhs, Frame(mod, 1), 1), OBJ]
            elif k == "CImportStatNode":
                mod.names[s.as_name or s.module_name.split(".")[0]] = ("cmodule", s.module_name)
            elif k == "CEnumDefNode":
                mod.names[s.name] = ("type", INT)
                nxt = 0
                for it in s.items:
                    if it.value is not None: nxt = self.ev(it.value, Frame(mod, 1), 1)
                    mod.names[it.name] = ["gvar", nxt, INT]; nxt += 1
            elif k in ("ExprStatNode", "PassStatNode", "CDefExternNode", "IfStatNode"): pass
            else: mod.names.setdefault("?" + k, None)
    def isfunc(self, d):
        while d is not None:
            if type(d).__name__ == "CFuncDeclaratorNode": return True
            d = getattr(d, "base", None)
        return False
    def struct(self, s, mod):
        mod.names[s.name] = ("type", ("struct", s.name))
        if s.attributes is None: return
        fields = []
        for a in s.attributes:
            t = self.base_type(a.base_type, mod)
            for d in a.declarators:
                name, ty, _ = self.decl(d, t)
                fields.append((name, ty))
        self.structs[s.name] = fields
        self._lay.clear()
    def classbody(self, body, c, mod):
        for s in (body.stats if type(body).__name__ == "StatListNode" else [body]):
            k = type(s).__name__
            if k == "StatListNode": self.classbody(s, c, mod)
            elif k == "CFuncDefNode": c.methods[self.decl(s.declarator, OBJ)[0]] = Func(mod, s, c)
            elif k == "DefNode":
                c.methods[s.name] = Func(mod, s, c)
                for d in (s.decorators or []):
                    dn = getattr(d.decorator, "name", None)
                    if dn == "property": c.methods[s.name].prop = True
                    if dn in ("staticmethod", "classmethod"): raise Unsupported(dn)
            elif k == "CVarDefNode":
                t = self.base_type(s.base_type, mod)
                for d in s.declarators:
                    name, ty, _ = self.decl(d, t)
                    c.attrs[name] = ty
            elif k in ("PassStatNode", "ExprStatNode"): pass
            elif k == "PropertyNode": raise Unsupported("property")
            else: raise Unsupported("class body %s" % k)
    # ------------------------------------------------------------ conversion to a declared type
    def conv(self, v, t, g, n=None):
        k = t[0]
        if k == "obj": return v
        if type(v) is MV:
            return self.join([(self.conv1(x, t, gx, n), gx) for x, gx in self.items(v, g)])
        return self.conv1(v, t, g, n)
    def conv1(self, v, t, g, n):
        k = t[0]
        if v is UNINIT: return v
        if k == "tuple":
            if type(v) is not TupV: raise Unsupported("ctuple from %r" % (v,))
            return TupV([self.conv(x, ct, g, n) for x, ct in zip(v.v, t[1])])
        if k == "struct":
            if type(v) is TupV: return v
            if isinstance(v, PyDict): return TupV([v.d[f][1] for f, _ in self.structs[t[1]]], [f for f, _ in self.structs[t[1]]], t[1])
            raise Unsupported("struct from %r" % (v,))
        if k == "ptr":
            if isinstance(v, Ptr):
                if v == NULLP: return NULLP
                return v if v.type == t[1] else Ptr(v.block, v.off, t[1])
            if v == 0: return NULLP
            raise Unsupported("pointer from %r" % (v,))
        if k in ("int", "long", "char", "short"):
            if isinstance(v, bool): return int(v)
            if isinstance(v, int):
                w = 8 * PRIM[k]
                if not -(1 << (w - 1)) <= v < (1 << (w - 1)): v = (v + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
                return v
            if isinstance(v, float): return int(v)
            if isinstance(v, Tok): return self.tok_int(v)
            if v is None or isinstance(v, str):
                self.exc(g, "TypeError", self.pos(n)); return UNINIT
            raise Unsupported("C integer from %r" % (v,))
        if k == "float":
            if isinstance(v, Tok): return Tok(v.name, v.kind if v.kind.endswith("f") else v.kind + "f")
            import struct
            return struct.unpack("f", struct.pack("f", float(v)))[0]
        if k == "double":
            return v if isinstance(v, Tok) else float(v)
        if k == "arr": return v
        raise Unsupported("conversion to %r" % (t,))
    def tok_int(self, v): raise Unsupported("a probability is turned into an integer")
    # ------------------------------------------------------------ heap
    def malloc(self, size, g, n, zero=False, stack=False):
        size = self.init(size, g, n, "malloc of an uninitialised size")
        b = Block()
        b.id, b.size, b.alloc, b.freed, b.cells, b.csz, b.where, b.zero, b.stack = len(self.blocks), size, g, 0, {}, {}, self.pos(n), zero, stack
        self.blocks.append(b)
        for v, gv in self.items(size, g):
            if not isinstance(v, int) or v < 0: self.viol(gv, "allocation of a negative size", self.pos(n))
        return Ptr(b.id, 0, VOID)
    def free(self, p, g, n):
        for v, gv in self.items(self.init(p, g, n), g):
            if v == NULLP or v is UNINIT or v == 0: continue
            b = self.blocks[v.block]
            if v.off != 0 or b.stack: self.viol(gv, "free of a pointer that malloc did not return", self.pos(n)); continue
            bad = self.B.or_(self.B.diff(gv, b.alloc), self.B.and_(gv, b.freed))
            if bad: self.viol(bad, "double free", self.pos(n))
            b.freed = self.B.or_(b.freed, gv)
    def deref(self, p, size, g, n):
        """[(block, offset, guard)] of the valid targets; the rest are violations"""
        out = []
        self.derefs += 1
        for v, gv in self.items(self.init(p, g, n, "an uninitialised pointer is followed"), g):
            if v is UNINIT: continue
            if not isinstance(v, Ptr): raise Unsupported("following %r" % (v,))
            if v.block == 0: self.viol(gv, "null pointer dereference", self.pos(n)); continue
            b = self.blocks[v.block]
            bad = self.B.or_(self.B.diff(gv, b.alloc), self.B.and_(gv, b.freed))
            if bad:
                self.viol(bad, "use after free" if not b.stack else "use of a dead local", self.pos(n))
                gv = self.B.diff(gv, bad)
                if not gv: continue
            for s, gs in self.items(b.size, gv):
                if s is UNINIT or v.off < 0 or v.off + size > s:
                    self.viol(gs, "access outside the allocation", self.pos(n))
                    gv = self.B.diff(gv, gs)
            if gv: out.append((b, v.off, gv))
        return out
    def cell(self, b, off, size, n):
        if off not in b.csz:
            for o in range(off - 7, off + size):
                if o != off and o in b.csz and o + b.csz[o] > off and o < off + size: raise Unsupported("overlapping accesses of different types")
            b.csz[off] = size
            b.cells[off] = 0 if b.zero else UNINIT
        elif b.csz[off] != size:
            raise Unsupported("accesses of different widths")
        return b.cells[off]
    def load(self, p, t, g, n):
        if t[0] in ("struct", "tuple"):
            fields = self.layout(t)[0]
            tg = self.deref(p, self.sizeof(t), g, n)
            vals = [self.join([(self.load_cell(b, off + fo, ft, gv, n), gv) for b, off, gv in tg]) for _, fo, ft in fields]
            return TupV(vals, [f for f, _, _ in fields] if t[0] == "struct" else None, t[1] if t[0] == "struct" else None)
        if t[0] == "arr":
            return self.lift(lambda v: Ptr(v.block, v.off, t[1]) if isinstance(v, Ptr) else v, [p], g)
        if t[0] == "void": raise Unsupported("dereference of void*")
        tg = self.deref(p, self.sizeof(t), g, n)
        if len(tg) == 1: return self.restrict(self.load_cell(tg[0][0], tg[0][1], t, tg[0][2], n), tg[0][2])
        return self.join([(self.load_cell(b, off, t, gv, n), gv) for b, off, gv in tg])
    def load_cell(self, b, off, t, g, n):
        if t[0] in ("struct", "tuple", "arr"): return self.load(Ptr(b.id, off, t), t, g, n)
        v = self.cell(b, off, self.sizeof(t), n)
        if t[0] == "ptr" and v == 0 and not isinstance(v, Ptr): return NULLP
        return v
    def store(self, p, t, v, g, n):
        v = self.conv(v, t, g, n)
        for b, off, gv in self.deref(p, self.sizeof(t), g, n): self.store_cell(b, off, t, v, gv, n)
    def store_cell(self, b, off, t, v, g, n):
        if t[0] in ("struct", "tuple"):
            if type(v) is not TupV:
                if v is UNINIT: v = TupV([UNINIT] * len(self.layout(t)[0]))
                else: raise Unsupported("aggregate store of %r" % (v,))
            for (_, fo, ft), x in zip(self.layout(t)[0], v.v): self.store_cell(b, off + fo, ft, self.restrict(x, g), g, n)
            return
        old = self.cell(b, off, self.sizeof(t), n)
        b.cells[off] = self.merge(old, self.restrict(v, g), g, b.alloc)
    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, g, n):
        if isinstance(f, MV): raise Unsupported("call of one of several functions")
        if isinstance(f, HostFn): return f.f(self, args, kwargs, g)
        if isinstance(f, Bound):
            return self.call_func(f.f, [f.self_] + args, kwargs, g, n) if isinstance(f.f, Func) else f.f(self, f.self_, args, kwargs, g, n)
        if isinstance(f, Func): return self.call_func(f, args, kwargs, g, n)
        if isinstance(f, Cls): return self.new_obj(f, args, kwargs, g, n)
        if isinstance(f, tuple) and f and f[0] == "cfn": return self.cfn(f[1], args, g, n)
        if isinstance(f, tuple) and f and f[0] == "type": return self.type_call(f[1], args, kwargs, g, n)
        if isinstance(f, tuple) and f and f[0] == "builtin": return self.builtin(f[1], args, kwargs, g, n)
        raise Unsupported("call of %r" % (f,))
    def new_obj(self, c, args, kwargs, g, n):
        o = PyObj(c)
        for a, t in c.attrs.items(): o.attrs[a] = NULLP if t[0] == "ptr" else (None if t[0] == "obj" else 0)
        for m in ("__cinit__", "__init__"):
            if m in c.methods: self.call_func(c.methods[m], [o] + args, kwargs, g, n)
        return o
    def type_call(self, t, args, kwargs, g, n):
        if t[0] == "struct":
            fields = self.structs[t[1]]
            vals = []
            for i, (fn, ft) in enumerate(fields):
                v = args[i] if i < len(args) else kwargs.get(fn, UNINIT)
                vals.append(self.conv(v, ft, g, n))
            return TupV(vals, [f for f, _ in fields], t[1])
        if len(args) == 1: return self.conv(args[0], t, g, n)
        raise Unsupported("call of a C type")
    def sig(self, f):
        if f.info: return f.info
        node = f.node
        k = type(node).__name__
        ps = []
        if k == "CFuncDefNode":
            d = node.declarator
            rt = self.base_type(node.base_type, f.mod)
            while type(d).__name__ != "CFuncDeclaratorNode":
                if type(d).__name__ == "CPtrDeclaratorNode": rt = ("ptr", rt)
                d = d.base
            args = d.args
            name = self.decl(node.declarator, OBJ)[0]
        else:
            if node.star_arg or node.starstar_arg: raise Unsupported("variadic function")
            args, rt = node.args, OBJ
            name = getattr(node, "name", "<lambda>")
        for i, a in enumerate(args):
            bt = a.base_type
            nm, ty, dd = self.decl(a.declarator, self.base_type(bt, f.mod))
            if nm == "" and type(bt).__name__ == "CSimpleBaseTypeNode": nm, ty = bt.name, OBJ
            ps.append((nm, ty, a.default))
        gen, addr, decls = [False], set(), []
        def walk(x):
            if isinstance(x, list):
                for y in x: walk(y)
                return
            if not hasattr(x, "child_attrs"): return
            kk = type(x).__name__
            if kk == "YieldExprNode": gen[0] = True
            if kk == "AmpersandNode" and type(x.operand).__name__ == "NameNode": addr.add(x.operand.name)
            if kk == "CVarDefNode": decls.append(x)
            if kk in ("DefNode", "LambdaNode", "GeneratorExpressionNode"): return
            for c in (x.child_attrs or ()): walk(getattr(x, c, None))
        walk(node.body if hasattr(node, "body") else None)
        f.info = (name, ps, rt, gen[0], addr, decls)
        return f.info
    def call_func(self, f, args, kwargs, g, n):
        name, ps, rt, gen, addr, decls = self.sig(f)
        self.funcs.add("%s:%s%s" % (getattr(f.mod, "path", "switss/utils/%s.pyx" % f.mod.name), (f.cls.name + ".") if f.cls else "", name))
        fr = Frame(f.mod, g, f, f.closure)
        fr.addr = addr
        self.depth += 1
        if self.depth > 300:
            self.viol(g, "unbounded recursion", self.pos(n)); self.depth -= 1; return UNINIT
        if len(args) > len(ps): raise Unsupported("too many arguments for %s" % name)
        for i, (pn, pt, dflt) in enumerate(ps):
            if i < len(args): v = args[i]
            elif pn in kwargs: v = kwargs[pn]
            elif dflt is not None:
                if not hasattr(f, "dflts"): f.dflts = {}
                if pn not in f.dflts: f.dflts[pn] = self.ev(dflt, Frame(f.mod, 1), 1)
                v = f.dflts[pn]
            else:
                self.exc(g, "TypeError: missing argument %s" % pn, self.pos(n)); v = UNINIT
            self.declare(fr, pn, pt, g, f.node)
            self.setvar(fr, pn, self.restrict(v, g), g, f.node)
        for k in kwargs:
            if k not in [p[0] for p in ps]: raise Unsupported("keyword %s" % k)
        if gen: fr.yields = GList()
        g1 = self.st(f.node.body, fr, g)
        for b in fr.stackblocks: b.freed = self.B.or_(b.freed, g)
        self.depth -= 1
        if gen: return fr.yields
        if g1:
            if rt is OBJ or rt == VOID: self.ret(fr, None, g1)
            else: self.ret(fr, 0 if rt[0] != "ptr" else NULLP, g1)   # falls off the end: Cython returns zero
        if fr.retg == 0: return UNINIT
        return fr.ret
    def ret(self, fr, v, g):
        fr.ret = self.merge(fr.ret, v, g, self.B.or_(fr.retg, g)) if fr.retg else v
        fr.retg = self.B.or_(fr.retg, g)
    # ------------------------------------------------------------ variables
    def declare(self, fr, name, t, g, n):
        fr.types[name] = t
        if t[0] == "arr" or name in getattr(fr, "addr", ()):
            p = self.malloc(self.sizeof(t), g, n, stack=True)
            b = self.blocks[p.block]; fr.stackblocks.append(b)
            fr.boxed[name] = Ptr(b.id, 0, t)
        elif name not in fr.vars: fr.vars[name] = UNINIT
    def frame_of(self, fr, name):
        f = fr
        while f is not None:
            if name in f.vars or name in f.boxed: return f
            f = f.parent
        return None
    def setvar(self, fr, name, v, g, n):
        t = fr.types.get(name)
        if t is not None and t is not OBJ: v = self.conv(v, t, g, n)
        if name in fr.boxed: self.store(fr.boxed[name], t, v, g, n); return
        gv = fr.mod.names.get(name)
        if name in getattr(fr, "globals", ()) and isinstance(gv, list):
            gv[1] = self.merge(gv[1], v, g); return
        if fr.fn is None and isinstance(gv, list): gv[1] = v; return
        fr.vars[name] = self.merge(fr.vars.get(name, UNINIT), v, g, fr.g0)
    def assign(self, t, v, fr, g):
        k = type(t).__name__
        if k == "NameNode": self.setvar(fr, t.name, v, g, t)
        elif k in ("TupleNode", "ListNode"):
            vs = self.unpack(v, len(t.args), g, t)
            for a, x in zip(t.args, vs): self.assign(a, x, fr, g)
        elif k == "AttributeNode" or k == "IndexNode":
            a = self.addr(t, fr, g)
            if a is not None:
                ty = self.ptype(a, g)
                self.store(a, ty, v, g, t); return
            if k == "AttributeNode":
                if type(t.obj).__name__ == "NameNode":
                    o = self.lookup(t.obj.name, fr, g, t)
                    if type(o) is TupV and o.names and t.attribute in o.names:
                        i = o.names.index(t.attribute)
                        o2 = TupV(o.v, o.names, o.tname); o2.v[i] = self.merge(o.v[i], v, g, fr.g0)
                        fr.vars[t.obj.name] = o2; return
                    if isinstance(o, PyObj):
                        at = o.cls.attrs.get(t.attribute, OBJ)
                        o.attrs[t.attribute] = self.merge(o.attrs.get(t.attribute, UNINIT), self.conv(v, at, g, t), g); return
                raise Unsupported("assignment to attribute %s" % t.attribute)
            base = self.ev(t.base, fr, g)
            idx = self.ev(t.index, fr, g)
            for b, gb in self.items(base, g): self.setitem(b, self.restrict(idx, gb), self.restrict(v, gb), gb, t)
        else: raise Unsupported("assignment to %s" % k)
    def unpack(self, v, n, g, node):
        if isinstance(v, MV):
            vs = [(self.unpack(x, n, gx, node), gx) for x, gx in self.items(v, g)]
            return [self.join([(u[i], gx) for u, gx in vs]) for i in range(n)]
        if type(v) is TupV:
            if len(v.v) != n: self.exc(g, "ValueError: unpacking", self.pos(node)); return [UNINIT] * n
            return v.v
        if isinstance(v, tuple) and not isinstance(v, (Ptr, Tok)): return self.unpack(TupV(v), n, g, node)
        if isinstance(v, GList):
            if all(e[0] == 1 or not self.B.diff(g, e[0]) for e in v.e) and len(v.e) == n: return [e[1] for e in v.e]
        if v is UNINIT: return [UNINIT] * n
        raise Unsupported("unpacking of %r" % (v,))
    def ptype(self, a, g):
        ts = {v.type for v, _ in self.items(a, g) if isinstance(v, Ptr) and v != NULLP}
        if len(ts) > 1: raise Unsupported("pointer of several types")
        return next(iter(ts)) if ts else INT
    # ------------------------------------------------------------ addresses
    def addr(self, n, fr, g):
        """typed pointer (MV) to the object an expression denotes, or None"""
        k = type(n).__name__
        if k == "IndexNode":
            base = self.ev_base(n.base, fr, g)
            if self.isptr(base, g):
                idx = self.init(self.ev(n.index, fr, g), g, n)
                return self.lift(lambda p, i: self.padd(p, i), [self.init(base, g, n, "an uninitialised pointer is used"), idx], g)
            return None
        if k == "AttributeNode":
            a = self.addr(n.obj, fr, g) if type(n.obj).__name__ in ("IndexNode", "AttributeNode") else (fr.boxed.get(n.obj.name) if type(n.obj).__name__ == "NameNode" and n.obj.name in fr.boxed else None)
            if a is not None:
                t = self.ptype(a, g)
                if t[0] == "struct": return self.field(a, n.attribute, g, n)
                if t[0] == "ptr": return self.field(self.load(a, t, g, n), n.attribute, g, n)
                return None
            o = self.ev(n.obj, fr, g)
            if self.isptr(o, g): return self.field(o, n.attribute, g, n)
            return None
        if k == "NameNode" and n.name in fr.boxed: return fr.boxed[n.name]
        if k == "TypecastNode": return None
        return None
    def ev_base(self, n, fr, g):
        return self.ev(n, fr, g)
    def isptr(self, v, g):
        if isinstance(v, Ptr): return True
        if type(v) is MV: return any(isinstance(x, Ptr) for x in v.m)
        return False
    def padd(self, p, i):
        if p is UNINIT or i is UNINIT: return UNINIT
        if not isinstance(p, Ptr): raise Unsupported("pointer arithmetic on %r" % (p,))
        if p.block == 0: return NULLP if True else p
        return Ptr(p.block, p.off + int(i) * self.sizeof(p.type), p.type)
    def field(self, p, name, g, n):
        p = self.init(p, g, n, "an uninitialised pointer is followed")
        out = []
        for v, gv in self.items(p, g):
            if v is UNINIT: continue
            if v == NULLP: self.viol(gv, "null pointer dereference", self.pos(n)); continue
            if not isinstance(v, Ptr) or v.type is None or v.type[0] != "struct": raise Unsupported("field %s of %r" % (name, v))
            for fn, fo, ft in self.layout(v.type)[0]:
                if fn == name: out.append((Ptr(v.block, v.off + fo, ft), gv)); break
            else: raise Unsupported("no field %s" % name)
        return self.join(out)
    # ------------------------------------------------------------ truth, comparison
    def truth(self, x, g, n=None):
        out = 0
        for v, gv in self.items(self.init(x, g, n, "a branch depends on an uninitialised value"), g):
            if v is UNINIT: continue
            if isinstance(v, Ptr): t = gv if v.block else 0
            elif isinstance(v, (GList,)): 
                t = 0
                for ge, _ in v.e: t = self.B.or_(t, self.B.and_(gv, ge))
            elif isinstance(v, PySet):
                t = 0
                for ge in v.d.values(): t = self.B.or_(t, self.B.and_(gv, ge))
            elif isinstance(v, PyDict):
                t = 0
                for ge, _ in v.d.values(): t = self.B.or_(t, self.B.and_(gv, ge))
            elif isinstance(v, TupV): t = gv if v.v else 0
            elif isinstance(v, Tok): t = gv
            elif isinstance(v, NpArr): raise Unsupported("truth of an array")
            else: t = gv if v else 0
            out = self.B.or_(out, t)
        return out
    def boolv(self, t, g):
        """Boolean value that is true under t (inside g)"""
        f = self.B.diff(g, t)
        if not f: return 1
        if not t: return 0
        return MV({1: t, 0: f})
    def atom(self, tok, op, c):
        """tok < c / tok <= c as a guard, decided only where probabilities are known to lie"""
        from fractions import Fraction
        c = Fraction(c)
        if c < 0: return 0
        if c == 0: return 0
        if c > 1 or (c == 1 and op == "<="): return 1
        k = (tok.name, op, c)
        if k not in self.atoms:
            from symx.core import z3
            self.atoms[k] = self.B.new("%s%s%s" % k)
        return self.atoms[k]
    def compare(self, op, a, b, g, n):
        if type(a) is TupV or type(b) is TupV:
            if op in ("==", "!=") and type(a) is TupV and type(b) is TupV:
                if len(a.v) != len(b.v): t = 0
                else:
                    t = g
                    for x, y in zip(a.v, b.v): t = self.B.and_(t, self.compare("==", x, y, g, n))
                return t if op == "==" else self.B.diff(g, t)
            if op in ("in", "not_in"):
                if type(b) is TupV:
                    t = 0
                    for y in b.v: t = self.B.or_(t, self.compare("==", a, y, g, n))
                    return t if op == "in" else self.B.diff(g, t)
            elif op in ("is", "is_not", "==", "!="):
                return 0 if op in ("is", "==") else g
        out = 0
        bi = None
        if op in ("in", "not_in"):
            t = 0
            for c, gc in self.items(b, g): t = self.B.or_(t, self.contains(c, a, gc, n))
            return t if op == "in" else self.B.diff(g, t)
        a, b = self.init(a, g, n), self.init(b, g, n)
        for x, gx in self.items(a, g):
            for y, gy in self.items(b, gx):
                if x is UNINIT or y is UNINIT: continue
                out = self.B.or_(out, self.cmp1(op, x, y, gy, n))
        return out
    def cmp1(self, op, x, y, g, n):
        if isinstance(x, Tok) or isinstance(y, Tok):
            if isinstance(x, Tok) and isinstance(y, Tok):
                if x == y: return g if op in ("==", "<=", ">=", "is") else 0
                raise Unsupported("comparison of two probabilities")
            if isinstance(y, Tok): return self.cmp1({"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op), y, x, g, n)
            if y is None: return 0 if op in ("is", "==") else g
            if op in ("<", "<="): return self.B.and_(g, self.atom(x, op, y))
            if op == ">": return self.B.diff(g, self.atom(x, "<=", y))
            if op == ">=": return self.B.diff(g, self.atom(x, "<", y))
            if op in ("==", "!="):
                e = self.B.diff(self.atom(x, "<=", y), self.atom(x, "<", y))
                return self.B.and_(g, e) if op == "==" else self.B.diff(g, e)
            raise Unsupported("comparison %s of a probability" % op)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if x == 0 and not isinstance(x, Ptr): x = NULLP
            if y == 0 and not isinstance(y, Ptr): y = NULLP
            if not (isinstance(x, Ptr) and isinstance(y, Ptr)): raise Unsupported("pointer compared with %r" % (y,))
            e = (x.block, x.off) == (y.block, y.off)
            if op in ("==", "is"): return g if e else 0
            if op in ("!=", "is_not"): return 0 if e else g
            if x.block != y.block: raise Unsupported("ordering of unrelated pointers")
            x, y = x.off, y.off
        if op in ("is", "is_not"):
            e = (x is y) or (x == y and not isinstance(x, (GList, PySet, PyDict)))
            return g if e == (op == "is") else 0
        try:
            r = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        except TypeError:
            self.exc(g, "TypeError: comparison", self.pos(n)); return 0
        return g if r else 0
    def contains(self, c, a, g, n):
        if isinstance(c, (PySet, PyDict)):
            t = 0
            for v, gv in self.expand(self.init(a, g, n), g):
                e = c.d.get(v)
                if e is not None: t = self.B.or_(t, self.B.and_(gv, e if isinstance(c, PySet) else e[0]))
            return t
        if isinstance(c, GList):
            t = 0
            for ge, v in c.e: t = self.B.or_(t, self.compare("==", a, v, self.B.and_(g, ge), n))
            return t
        if type(c) is TupV: return self.compare("in", a, c, g, n)
        if isinstance(c, str) and isinstance(a, str): return g if a in c else 0
        raise Unsupported("membership in %r" % (c,))
    # ------------------------------------------------------------ containers
    def length(self, c, g, n):
        if isinstance(c, MV): return self.join([(self.length(x, gx, n), gx) for x, gx in self.items(c, g)])
        if type(c) is TupV: return len(c.v)
        if isinstance(c, str): return len(c)
        if isinstance(c, NpArr): return c.length
        gs = [e[0] for e in c.e] if isinstance(c, GList) else list(c.d.values()) if isinstance(c, PySet) else [e[0] for e in c.d.values()] if isinstance(c, PyDict) else None
        if gs is None: raise Unsupported("len of %r" % (c,))
        cnt = {0: g}
        for x in gs:
            nx = {}
            for k, gk in cnt.items():
                t = self.B.and_(gk, x); f = self.B.diff(gk, t)
                if t: nx[k + 1] = self.B.or_(nx.get(k + 1, 0), t)
                if f: nx[k] = self.B.or_(nx.get(k, 0), f)
            cnt = nx
        return self.join(list(cnt.items()))
    def entries(self, c, g, n):
        """[(guard, value)] for iteration"""
        if isinstance(c, MV):
            if all(isinstance(x, (GList, PySet, PyDict)) for x in c.m):
                return [(self.B.and_(gx, ge), v) for x, gx in self.items(c, g) for ge, v in self.entries(x, gx, n)]
            raise Unsupported("iteration over one of several objects")
        if isinstance(c, GList): return list(c.e)
        if isinstance(c, PySet): return [(ge, self.pack(v)) for v, ge in sorted(c.d.items(), key=lambda t: repr(t[0]))]
        if isinstance(c, PyDict): return [(e[0], self.pack(v)) for v, e in c.d.items()]
        if type(c) is TupV: return [(1, v) for v in c.v]
        if isinstance(c, str): return [(1, ch) for ch in c]
        if isinstance(c, NpArr):
            out = []
            mx = max([l for l, _ in self.items(c.length, g) if isinstance(l, int)] + [0])
            for i in range(mx): out.append((self.compare(">", c.length, i, g, n), c.cells.get(i, c.default)))
            return out
        if c is None: self.exc(g, "TypeError: None is not iterable", self.pos(n)); return []
        if c is UNINIT:
            self.viol(g, "an uninitialised value is used", self.pos(n) if n is not None else "?")
            return []
        raise Unsupported("iteration over %r" % (c,))
    def getitem(self, c, idx, g, n):
        if isinstance(c, MV): return self.join([(self.getitem(x, self.restrict(idx, gx), gx, n), gx) for x, gx in self.items(c, g)])
        if type(c) is TupV:
            out = []
            for i, gi in self.items(self.init(idx, g, n), g):
                if not -len(c.v) <= i < len(c.v): self.exc(gi, "IndexError", self.pos(n)); continue
                out.append((c.v[i], gi))
            return self.join(out) if len(out) != 1 else out[0][0]
        if isinstance(c, NpArr):
            out = []
            for i, gi in self.items(self.init(idx, g, n), g):
                for l, gl in self.items(c.length, gi):
                    j = i + l if i < 0 else i
                    if not 0 <= j < l: self.exc(gl, "IndexError", self.pos(n)); continue
                    out.append((c.cells.get(j, c.default), gl))
            return self.join(out)
        if isinstance(c, GList):
            out, seen = [], {0: g}
            for i, gi in self.items(self.init(idx, g, n), g):
                if i < 0:
                    ln = self.length(c, gi, n)
                    out.append((self.getitem(c, self.lift(lambda l: l + i, [ln], gi), gi, n), gi)); continue
                rem = gi
                cnt = {0: gi}
                for ge, v in c.e:
                    hit = self.B.and_(cnt.get(i, 0), ge)
                    if hit: out.append((v, hit)); rem = self.B.diff(rem, hit)
                    nx = {}
                    for k, gk in cnt.items():
                        t = self.B.and_(gk, ge); f = self.B.diff(gk, t)
                        if t: nx[k + 1] = self.B.or_(nx.get(k + 1, 0), t)
                        if f: nx[k] = self.B.or_(nx.get(k, 0), f)
                    cnt = nx
                if rem: self.exc(rem, "IndexError", self.pos(n))
            return self.join(out)
        if isinstance(c, PyDict):
            out = []
            for v, gv in self.expand(self.init(idx, g, n), g):
                e = c.d.get(v)
                ok = self.B.and_(gv, e[0]) if e else 0
                bad = self.B.diff(gv, ok)
                if bad: self.exc(bad, "KeyError", self.pos(n))
                if ok: out.append((e[1], ok))
            return self.join(out)
        if isinstance(c, Host) and "__getitem__" in c.k: return c.k["__getitem__"](self, idx, g)
        raise Unsupported("indexing of %r" % (c,))
    def setitem(self, c, idx, v, g, n):
        if isinstance(c, NpArr):
            for i, gi in self.items(self.init(idx, g, n), g):
                for l, gl in self.items(c.length, gi):
                    j = i + l if i < 0 else i
                    if not 0 <= j < l: self.exc(gl, "IndexError", self.pos(n)); continue
                    c.cells[j] = self.merge(c.cells.get(j, c.default), self.restrict(self.init(v, gl, n), gl), gl)
            return
        if isinstance(c, PyDict):
            for k, gk in self.expand(self.init(idx, g, n), g):
                e = c.d.get(k)
                if e is None: c.d[k] = [gk, self.restrict(v, gk)]
                else:
                    e[1] = self.merge(e[1], v, gk, self.B.or_(e[0], gk)); e[0] = self.B.or_(e[0], gk)
            return
        if isinstance(c, GList):
            for i, gi in self.items(self.init(idx, g, n), g):
                cnt, rem = {0: gi}, gi
                if i < 0: raise Unsupported("negative list index")
                for q, (ge, old) in enumerate(c.e):
                    hit = self.B.and_(cnt.get(i, 0), ge)
                    if hit: c.e[q] = (ge, self.merge(old, v, hit, ge)); rem = self.B.diff(rem, hit)
                    nx = {}
                    for k, gk in cnt.items():
                        t = self.B.and_(gk, ge); f = self.B.diff(gk, t)
                        if t: nx[k + 1] = self.B.or_(nx.get(k + 1, 0), t)
                        if f: nx[k] = self.B.or_(nx.get(k, 0), f)
                    cnt = nx
                if rem: self.exc(rem, "IndexError", self.pos(n))
            return
        raise Unsupported("item assignment on %r" % (c,))
    # ------------------------------------------------------------ statements
    def st(self, n, fr, g):
        if n is None: return g
        g = self.live(g)
        if not g: return 0
        self.steps += 1
        if self.steps > self.max_steps: raise Unsupported("step budget exceeded")
        r = getattr(self, "s_" + type(n).__name__, None)
        if r is None: raise Unsupported("statement %s at %s" % (type(n).__name__, self.pos(n)))
        return self.live(r(n, fr, g))
    def s_StatListNode(self, n, fr, g):
        for s in n.stats:
            g = self.st(s, fr, g)
            if not g: return 0
        return g
    def s_PassStatNode(self, n, fr, g): return g
    def s_CVarDefNode(self, n, fr, g):
        t = self.base_type(n.base_type, fr.mod)
        for d in n.declarators:
            name, ty, dd = self.decl(d, t)
            self.declare(fr, name, ty, g, n)
            dv = getattr(dd, "default", None)
            if dv is not None: self.setvar(fr, name, self.ev(dv, fr, g), g, n)
        return g
    def s_ExprStatNode(self, n, fr, g):
        self.ev(n.expr, fr, g); return g
    def s_SingleAssignmentNode(self, n, fr, g):
        v = self.ev(n.rhs, fr, g)
        self.assign(n.lhs, v, fr, self.live(g)); return g
    def s_CascadedAssignmentNode(self, n, fr, g):
        v = self.ev(n.rhs, fr, g)
        for l in n.lhs_list: self.assign(l, v, fr, g)
        return g
    def s_ParallelAssignmentNode(self, n, fr, g):
        vs = [(s.lhs, self.ev(s.rhs, fr, g)) for s in n.stats]
        for l, v in vs: self.assign(l, v, fr, g)
        return g
    def s_InPlaceAssignmentNode(self, n, fr, g):
        if type(n.lhs).__name__ in ("IndexNode", "AttributeNode"):
            a = self.addr(n.lhs, fr, g)
            if a is not None:
                t = self.ptype(a, g)
                v = self.binop(n.operator, self.load(a, t, g, n), self.ev(n.rhs, fr, g), g, n)
                self.store(a, t, v, g, n); return g
        l = self.ev(n.lhs, fr, g)
        r = self.ev(n.rhs, fr, g)
        if isinstance(l, GList) and n.operator == "+":
            for ge, v in self.entries(r, g, n): l.e.append((self.B.and_(ge, g), v))
            return g
        if isinstance(l, PySet):
            self.setop(n.operator, l, r, g, n); return g
        self.assign(n.lhs, self.binop(n.operator, l, r, g, n), fr, g)
        return g
    def setop(self, op, l, r, g, n):
        rs = {}
        for ge, v in self.entries(r, g, n):
            for x, gx in self.expand(v, self.B.and_(ge, g)): rs[x] = self.B.or_(rs.get(x, 0), gx)
        if op == "|":
            for x, gx in rs.items(): l.d[x] = self.B.or_(l.d.get(x, 0), gx)
        elif op == "-":
            for x, gx in rs.items(): l.d[x] = self.B.diff(l.d.get(x, 0), gx)
        elif op == "&":
            for x in list(l.d): l.d[x] = self.B.diff(l.d[x], self.B.diff(g, rs.get(x, 0)))
        else: raise Unsupported("set operator %s" % op)
    def s_IfStatNode(self, n, fr, g):
        out = 0
        for c in n.if_clauses:
            t = self.truth(self.ev(c.condition, fr, g), g, c.condition)
            f = self.live(self.B.diff(g, t)); t = self.live(t)
            if t: out = self.B.or_(out, self.st(c.body, fr, t))
            g = f
            if not g: return out
        if n.else_clause is not None: g = self.st(n.else_clause, fr, g)
        return self.B.or_(out, g)
    def loop_body(self, body, fr, g):
        fr.loops.append([0, 0])
        o = self.st(body, fr, g)
        brk, cont = fr.loops.pop()
        return self.B.or_(o, cont), brk
    def s_WhileStatNode(self, n, fr, g):
        done, brk, k = 0, 0, 0
        while g:
            if n.condition is None: t = g
            else: t = self.truth(self.ev(n.condition, fr, g), g, n.condition)
            g = self.live(g); t = self.live(t)
            done = self.B.or_(done, self.B.diff(g, t))
            if not t: break
            k += 1
            if k > self.max_iter:
                self.dead_loop = self.B.or_(self.dead_loop, self.B.diff(t, self.dead()))
                self.viol(t, "the loop does not end within %d iterations" % self.max_iter, self.pos(n)); break
            g, b = self.loop_body(n.body, fr, t)
            brk = self.B.or_(brk, b)
        if n.else_clause is not None: done = self.st(n.else_clause, fr, done)
        return self.B.or_(done, brk)
    def s_ForInStatNode(self, n, fr, g):
        seq = self.ev(n.iterator.sequence if hasattr(n.iterator, "sequence") else n.iterator, fr, g)
        g = self.live(g)
        brk = 0
        for ge, v in self.entries(seq, g, n):
            gi = self.B.and_(g, ge)
            if not gi: continue
            rest = self.B.diff(g, gi)
            self.assign(n.target, self.restrict(v, gi), fr, gi)
            o, b = self.loop_body(n.body, fr, gi)
            brk = self.B.or_(brk, b)
            g = self.live(self.B.or_(rest, o))
            if not g: break
        if n.else_clause is not None and g: g = self.st(n.else_clause, fr, g)
        return self.B.or_(g, brk)
    def s_ForFromStatNode(self, n, fr, g):
        lo = self.ev(n.bound1, fr, g); hi = self.ev(n.bound2, fr, g)
        if n.step is not None or n.relation1 not in ("<=", "<") or n.relation2 not in ("<=", "<"): raise Unsupported("for-from with a step")
        lo = self.lift(lambda a: a + (n.relation1 == "<"), [lo], g)
        hi = self.lift(lambda a: a + (n.relation2 == "<="), [hi], g)
        seq = self.mkrange([lo, hi], g, n)
        brk = 0
        for ge, v in seq.e:
            gi = self.B.and_(g, ge)
            if not gi: continue
            rest = self.B.diff(g, gi)
            self.assign(n.target, self.restrict(v, gi), fr, gi)
            o, b = self.loop_body(n.body, fr, gi)
            brk = self.B.or_(brk, b)
            g = self.live(self.B.or_(rest, o))
            if not g: break
        if n.else_clause is not None and g: g = self.st(n.else_clause, fr, g)
        return self.B.or_(g, brk)
    def s_BreakStatNode(self, n, fr, g):
        fr.loops[-1][0] = self.B.or_(fr.loops[-1][0], g); return 0
    def s_ContinueStatNode(self, n, fr, g):
        fr.loops[-1][1] = self.B.or_(fr.loops[-1][1], g); return 0
    def s_ReturnStatNode(self, n, fr, g):
        v = self.ev(n.value, fr, g) if n.value is not None else None
        g = self.live(g)
        if not g: return 0
        if fr.fn is not None and n.value is not None:
            rt = self.sig(fr.fn)[2]
            if rt is not OBJ and rt != VOID: v = self.conv(v, rt, g, n)
        self.ret(fr, self.restrict(v, g), g)
        return 0
    def s_AssertStatNode(self, n, fr, g):
        t = self.truth(self.ev(n.condition, fr, g), g, n)
        self.exc(self.B.diff(g, t), "AssertionError", self.pos(n))
        return t
    def s_RaiseStatNode(self, n, fr, g):
        k = getattr(n.exc_type, "function", n.exc_type)
        self.exc(g, getattr(k, "name", "exception"), self.pos(n)); return 0
    def s_DelStatNode(self, n, fr, g): return g
    def s_GlobalNode(self, n, fr, g):
        fr.globals = set(getattr(fr, "globals", ())) | set(n.names); return g
    def s_GILStatNode(self, n, fr, g): return self.st(n.body, fr, g)
    def s_DefNode(self, n, fr, g):
        fr.vars[n.name] = Func(fr.mod, n, None, fr); return g
    def s_TryFinallyStatNode(self, n, fr, g):
        g0 = g
        d0 = self.dead_exc
        nloop = len(fr.loops)
        o = self.st(n.body, fr, g)
        new = self.B.diff(self.dead_exc, d0)
        self.dead_exc = d0
        gf = self.B.diff(g0, self.dead_ub)
        saved = fr.retg
        f = self.st(n.finally_clause, fr, gf)
        self.dead_exc = self.B.or_(self.dead_exc, new)
        return self.B.and_(o, f)
    def s_TryExceptStatNode(self, n, fr, g):
        mark, d0 = len(self.excs), self.dead_exc
        o = self.st(n.body, fr, g)
        if n.else_clause is not None and o: o = self.st(n.else_clause, fr, o)
        for c in n.except_clauses:
            pats = None
            if c.pattern is not None:
                ps = c.pattern if isinstance(c.pattern, list) else [c.pattern]
                pats = set()
                for p in ps: pats |= {a.name for a in p.args} if type(p).__name__ == "TupleNode" else {p.name}
            h = 0
            for i in range(mark, len(self.excs)):
                e = self.excs[i]
                if pats is None or "Exception" in pats or "BaseException" in pats or e.kind.split(":")[0] in pats:
                    h = self.B.or_(h, e.guard); self.excs[i] = e._replace(guard=0)
            if h:
                self.dead_exc = self.B.diff(self.dead_exc, h)
                o = self.B.or_(o, self.st(c.body, fr, h))
        self.excs[mark:] = [e for e in self.excs[mark:] if e.guard]
        return o
    # ------------------------------------------------------------ expressions
    def ev(self, n, fr, g):
        self.steps += 1
        if self.steps > self.max_steps: raise Unsupported("step budget exceeded")
        r = getattr(self, "e_" + type(n).__name__, None)
        if r is None: raise Unsupported("expression %s at %s" % (type(n).__name__, self.pos(n)))
        return r(n, fr, g)
    def e_IntNode(self, n, fr, g): return int(n.value, 0)
    def e_FloatNode(self, n, fr, g): return float(n.value)
    def e_BoolNode(self, n, fr, g): return int(bool(n.value))
    def e_NoneNode(self, n, fr, g): return None
    def e_NullNode(self, n, fr, g): return NULLP
    def e_UnicodeNode(self, n, fr, g): return str(n.value)
    e_StringNode = e_IdentifierStringNode = e_BytesNode = e_UnicodeNode
    def e_JoinedStrNode(self, n, fr, g): return "?"
    def e_CharNode(self, n, fr, g): return ord(n.value)
    def lookup(self, name, fr, g, n):
        f = self.frame_of(fr, name)
        if f is not None and name not in getattr(fr, "globals", ()):
            if name in f.boxed: return self.load(f.boxed[name], f.types[name], g, n) if f.types[name][0] != "arr" else Ptr(f.boxed[name].block, 0, f.types[name][1])
            return self.restrict(f.vars[name], g)
        v = self.resolve(fr.mod, name)
        if v is None: 
            if name in BUILTINS: return ("builtin", name)
            if name in ("__name__",): return "switss"
            raise Unsupported("name %s" % name)
        return v
    def resolve(self, mod, name):
        v = mod.names.get(name)
        if isinstance(v, tuple) and v:
            if v[0] == "import": return self.resolve(v[1], v[2])
            if v[0] == "pymodule": return Host(__module__=v[1])
            if v[0] == "pyimport":
                if v[1] in ("numpy",): return ("np", v[3])
                return Host(__module__=v[1] + "." + v[3])
        if isinstance(v, list): return v[1]
        return v
    def e_NameNode(self, n, fr, g): return self.lookup(n.name, fr, g, n)
    def e_TupleNode(self, n, fr, g): return TupV([self.ev(a, fr, g) for a in n.args])
    def e_ListNode(self, n, fr, g): return GList([(1, self.ev(a, fr, g)) for a in n.args])
    def e_SetNode(self, n, fr, g):
        s = PySet()
        for a in n.args: self.set_add(s, self.ev(a, fr, g), g, n)
        return s
    def e_DictNode(self, n, fr, g):
        d = PyDict()
        for it in n.key_value_pairs: self.setitem(d, self.ev(it.key, fr, g), self.ev(it.value, fr, g), g, n)
        return d
    def set_add(self, s, v, g, n):
        for x, gx in self.expand(self.init(v, g, n), g): s.d[x] = self.B.or_(s.d.get(x, 0), gx)
    def e_AttributeNode(self, n, fr, g):
        o = self.ev(n.obj, fr, g) if type(n.obj).__name__ not in ("IndexNode", "AttributeNode") else None
        if o is None:
            a = self.addr(n, fr, g)
            if a is not None: return self.load(a, self.ptype(a, g), g, n)
            o = self.ev(n.obj, fr, g)
        if self.isptr(o, g):
            a = self.field(o, n.attribute, g, n)
            return self.load(a, self.ptype(a, g), g, n) if a is not UNINIT else UNINIT
        if o is UNINIT: self.viol(g, "an uninitialised value is used", self.pos(n)); return UNINIT
        return self.getattr(o, n.attribute, g, n)
    def getattr(self, o, a, g, n):
        if isinstance(o, MV): return self.join([(self.getattr(x, a, gx, n), gx) for x, gx in self.items(o, g)])
        if type(o) is TupV and o.names and a in o.names: return o.v[o.names.index(a)]
        if isinstance(o, PyObj):
            if a in o.attrs: return self.restrict(o.attrs[a], g)
            if a in o.cls.methods:
                m = o.cls.methods[a]
                if getattr(m, "prop", False): return self.call_func(m, [o], {}, g, n)
                return Bound(o, m)
            self.exc(g, "AttributeError: %s" % a, self.pos(n)); return UNINIT
        if isinstance(o, Host):
            m = o.k.get("__module__")
            if m is not None:
                if m == "numpy": return ("np", a)
                raise Unsupported("%s.%s" % (m, a))
            if a in o.k: return o.k[a]
            raise Unsupported("attribute %s of a model object" % a)
        if isinstance(o, Cls) and a in o.methods: return o.methods[a]
        if isinstance(o, tuple) and o and o[0] == "cmodule": return ("cfn", a)
        if isinstance(o, (GList, PySet, PyDict, NpArr)):
            if isinstance(o, NpArr) and a in ("size",): return o.length
            if isinstance(o, NpArr) and a == "shape": return TupV([o.length])
            return Bound(o, METHODS.get((type(o).__name__, a)) or self._nomethod(o, a))
        raise Unsupported("attribute %s of %r" % (a, o))
    def _nomethod(self, o, a): raise Unsupported("%s.%s" % (type(o).__name__, a))
    def e_IndexNode(self, n, fr, g):
        base = self.ev(n.base, fr, g)
        if self.isptr(base, g):
            idx = self.init(self.ev(n.index, fr, g), g, n)
            a = self.lift(self.padd, [self.init(base, g, n, "an uninitialised pointer is used"), idx], g)
            if a is UNINIT: return UNINIT
            t = self.ptype(base, g)
            return self.load(a, t, g, n)
        if base is UNINIT: self.viol(g, "an uninitialised value is used", self.pos(n)); return UNINIT
        return self.getitem(base, self.ev(n.index, fr, g), g, n)
    def e_SliceIndexNode(self, n, fr, g):
        base = self.ev(n.base, fr, g)
        lo = self.ev(n.start, fr, g) if n.start is not None else None
        hi = self.ev(n.stop, fr, g) if n.stop is not None else None
        if isinstance(base, TupV) and not isinstance(lo, MV) and not isinstance(hi, MV): return TupV(base.v[lo:hi])
        if isinstance(base, NpArr) and lo is None and hi is None: return base
        if isinstance(base, GList) and lo is None and hi is None: return GList(base.e)
        raise Unsupported("slice")
    def e_AmpersandNode(self, n, fr, g):
        a = self.addr(n.operand, fr, g)
        if a is None: raise Unsupported("address of %s" % type(n.operand).__name__)
        # forming &p[i] does not access memory; the null pointer stays null only for index 0
        return a
    def e_SizeofTypeNode(self, n, fr, g): return self.sizeof(self.decl(n.declarator, self.base_type(n.base_type, fr.mod))[1] if n.declarator is not None else self.base_type(n.base_type, fr.mod))
    def e_SizeofVarNode(self, n, fr, g):
        o = n.operand
        if type(o).__name__ == "NameNode":
            f = self.frame_of(fr, o.name)
            if f is not None and o.name in f.types: return self.sizeof(f.types[o.name])
            v = fr.mod.names.get(o.name)
            if isinstance(v, tuple) and v and v[0] == "type": return self.sizeof(v[1])
            prim = {"int": INT, "float": FLOAT, "double": DOUBLE, "long": LONG, "bint": INT, "char": CHAR}.get(o.name)
            if prim: return self.sizeof(prim)
        a = self.addr(o, fr, g)
        if a is not None: return self.sizeof(self.ptype(a, g))
        raise Unsupported("sizeof")
    def e_TypecastNode(self, n, fr, g):
        t = self.decl(n.declarator, self.base_type(n.base_type, fr.mod))[1]
        return self.conv(self.ev(n.operand, fr, g), t, g, n)
    def e_PrimaryCmpNode(self, n, fr, g):
        a, b = self.ev(n.operand1, fr, g), self.ev(n.operand2, fr, g)
        t = self.compare(n.operator, a, b, g, n)
        c = n.cascade
        while c is not None:
            a, b = b, self.ev(c.operand2, fr, t)
            t = self.compare(c.operator, a, b, t, n)
            c = c.cascade
        return self.boolv(t, g)
    def e_BoolBinopNode(self, n, fr, g):
        a = self.ev(n.operand1, fr, g)
        t = self.truth(a, g, n)
        go = t if n.operator == "and" else self.B.diff(g, t)
        go = self.live(go)
        if not go: return a
        b = self.ev(n.operand2, fr, go)
        return self.merge(a, b, go, g)
    def e_NotNode(self, n, fr, g):
        t = self.truth(self.ev(n.operand, fr, g), g, n)
        return self.boolv(self.B.diff(g, t), g)
    def e_CondExprNode(self, n, fr, g):
        c = n.condition if hasattr(n, "condition") else n.test
        t = self.live(self.truth(self.ev(c, fr, g), g, n)); f = self.live(self.B.diff(g, t))
        if not t: return self.ev(n.false_val, fr, f) if f else UNINIT
        if not f: return self.ev(n.true_val, fr, t)
        return self.merge(self.ev(n.false_val, fr, f), self.ev(n.true_val, fr, t), t, g)
    def e_UnaryMinusNode(self, n, fr, g): return self.lift(lambda a: -a, [self.init(self.ev(n.operand, fr, g), g, n)], g)
    def e_UnaryPlusNode(self, n, fr, g): return self.ev(n.operand, fr, g)
    def e_TildeNode(self, n, fr, g): return self.lift(lambda a: ~a, [self.init(self.ev(n.operand, fr, g), g, n)], g)
    def e_AddNode(self, n, fr, g): return self.binop(n.operator, self.ev(n.operand1, fr, g), self.ev(n.operand2, fr, g), g, n)
    e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_IntBinopNode = e_NumBinopNode = e_PowNode = e_BitwiseOrNode = e_AddNode
    def binop(self, op, a, b, g, n):
        if isinstance(a, str) or isinstance(b, str): return "?"
        if isinstance(a, PySet):
            r = PySet(); r.d = dict(a.d); self.setop(op, r, b, g, n); return r
        if isinstance(a, GList) and op == "*":
            m = max([k for k, _ in self.items(b, g)] + [0])
            return GList([(self.B.and_(ge, self.compare(">", b, k, 1, n)), v) for k in range(m) for ge, v in a.e])
        if isinstance(a, GList) and op == "+": return GList(a.e + self.entries(b, g, n))
        if isinstance(a, TupV) and isinstance(b, TupV) and op == "+": return TupV(a.v + b.v)
        a, b = self.init(a, g, n), self.init(b, g, n)
        def f(x, y):
            if x is UNINIT or y is UNINIT: return UNINIT
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if op == "+": return self.padd(x, y) if isinstance(x, Ptr) else self.padd(y, x)
                if op == "-" and not isinstance(y, Ptr): return self.padd(x, -y)
                if op == "-" and isinstance(x, Ptr) and isinstance(y, Ptr) and x.block == y.block: return (x.off - y.off) // self.sizeof(x.type)
                raise Unsupported("pointer arithmetic %s" % op)
            if isinstance(x, Tok) or isinstance(y, Tok):
                if isinstance(x, Tok) and not isinstance(y, Tok):
                    if (op in "*/" and y == 1) or (op in "+-" and y == 0): return x
                return Tok("(%s%s%s)" % (x.name if isinstance(x, Tok) else x, op, y.name if isinstance(y, Tok) else y), "d*")
            try:
                return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "//": lambda: x // y, "%": lambda: x % y, "/": lambda: x / y,
                        "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y, "**": lambda: x ** y}[op]()
            except (TypeError, ZeroDivisionError, KeyError) as e:
                raise Unsupported("%s %s %s" % (x, op, y))
        return self.lift(f, [a, b], g)
    def e_YieldExprNode(self, n, fr, g):
        v = self.ev(n.arg, fr, g) if n.arg is not None else None
        fr.yields.e.append((self.live(g), v)); return None
    def e_ComprehensionNode(self, n, fr, g):
        kind = type(n).__name__
        ty = str(getattr(n, "type", ""))
        c = PyDict() if kind == "DictComprehension" else (PySet() if "set" in ty else GList())
        f2 = Frame(fr.mod, g, fr.fn, fr)
        stack = self.__dict__.setdefault("compr", [])
        stack.append(c)
        self.st(n.loop, f2, g)
        stack.pop()
        return c
    def s_ComprehensionAppendNode(self, n, fr, g):
        self.e_ComprehensionAppendNode(n, fr, g); return g
    def e_ComprehensionAppendNode(self, n, fr, g):
        c = self.compr[-1]
        v = self.ev(n.expr, fr, g)
        if isinstance(c, GList): c.e.append((g, v))
        else: self.set_add(c, v, g, n)
        return None
    def s_DictComprehensionAppendNode(self, n, fr, g):
        raise Unsupported("dict comprehension")
    def e_GeneratorExpressionNode(self, n, fr, g):
        f = Func(fr.mod, n.def_node, None, fr)
        body = n.def_node.gbody.body if hasattr(n.def_node, "gbody") else n.def_node.body
        f2 = Frame(fr.mod, g, None, fr); f2.yields = GList()
        it = getattr(n.def_node, "gen_expr", None)
        args = getattr(n, "call_parameters", None)
        self.st(body, f2, g)
        return f2.yields
    def e_IteratorNode(self, n, fr, g): return self.ev(n.sequence, fr, g)
    def e_LambdaNode(self, n, fr, g): return Func(fr.mod, n.def_node, None, fr)
    def e_SimpleCallNode(self, n, fr, g):
        fnode = n.function
        args = n.args if n.args is not None else []
        f = self.ev(fnode, fr, g)
        if f is UNINIT or not g: return UNINIT
        av = [self.ev(a, fr, g) for a in args]
        g2 = self.live(g)
        if not g2: return UNINIT
        return self.call(f, av, {}, g2, n)
    def e_GeneralCallNode(self, n, fr, g):
        f = self.ev(n.function, fr, g)
        av = [self.ev(a, fr, g) for a in n.positional_args.args]
        kw = {}
        if n.keyword_args is not None:
            for it in n.keyword_args.key_value_pairs: kw[str(it.key.value)] = self.ev(it.value, fr, g)
        g2 = self.live(g)
        if not g2: return UNINIT
        return self.call(f, av, kw, g2, n) if not (isinstance(f, tuple) and f[0] == "np") else self.np(f[1], av, kw, g2, n)
    # ------------------------------------------------------------ library
    def cfn(self, name, args, g, n):
        if name == "malloc": return self.malloc(args[0], g, n)
        if name == "calloc": return self.malloc(self.lift(lambda a, b: a * b, [self.init(a, g, n) for a in args[:2]], g), g, n, zero=True)
        if name == "free": self.free(args[0], g, n); return None
        if name == "realloc": return self.realloc(args[0], args[1], g, n)
        if name == "rand": return self.rand(g)
        if name in ("srand", "printf"): return None
        if name == "time": return 0
        if name == "abs": return self.lift(abs, [self.init(args[0], g, n)], g)
        if name in ("memset",):
            for p, gp in self.items(self.init(args[0], g, n), g):
                for k, gk in self.items(args[2], gp):
                    for b, off, gv in self.deref(p, k, gk, n):
                        if args[1] != 0: raise Unsupported("memset of a non-zero byte")
                        if gv != b.alloc and self.B.diff(b.alloc, gv): raise Unsupported("memset under a guard")
                        if off == 0 and not b.cells: b.zero = True
                        for o in b.cells:
                            if off <= o < off + k: b.cells[o] = 0
            return args[0]
        if name == "memcpy":
            for d, gd in self.items(self.init(args[0], g, n), g):
                for s, gs in self.items(self.init(args[1], gd, n), gd):
                    for k, gk in self.items(args[2], gs):
                        if k == 0: continue
                        for sb, so, g1 in self.deref(s, k, gk, n):
                            for db, do, g2 in self.deref(d, k, g1, n):
                                for o in sorted(sb.cells):
                                    if so <= o and o + sb.csz[o] <= so + k:
                                        v = sb.cells[o]
                                        self.cell(db, do + o - so, sb.csz[o], n)
                                        db.cells[do + o - so] = self.merge(db.cells[do + o - so], self.restrict(v, g2), g2, db.alloc)
            return args[0]
        raise Unsupported("C function %s" % name)
    def realloc(self, p, size, g, n):
        q = self.malloc(size, g, n)
        nb = self.blocks[q.block]
        for v, gv in self.items(self.init(p, g, n), g):
            if not isinstance(v, Ptr) or v.block == 0: continue
            b = self.blocks[v.block]
            for o in sorted(b.cells):
                for s, gs in self.items(size, gv):
                    if o + b.csz[o] <= s:
                        self.cell(nb, o, b.csz[o], n)
                        nb.cells[o] = self.merge(nb.cells[o], self.restrict(b.cells[o], gs), gs, nb.alloc)
            self.free(v, gv, n)
        return q
    def mkrange(self, args, g, n):
        a = [self.init(x, g, n) for x in args]
        if len(a) == 1: a = [0, a[0], 1]
        elif len(a) == 2: a = a + [1]
        out = []
        combos = []
        def rec(i, acc, gg):
            if i == 3: combos.append((range(*acc), gg)); return
            for v, gv in self.items(a[i], gg):
                if v is UNINIT: continue
                if not isinstance(v, int): self.exc(gv, "TypeError: range", self.pos(n)); continue
                rec(i + 1, acc + [v], gv)
        rec(0, [], g)
        mx = max([len(r) for r, _ in combos] + [0])
        if mx > 2000: raise Unsupported("long range")
        for k in range(mx):
            ps = [(r[k], gg) for r, gg in combos if len(r) > k]
            ge = 0
            for _, gg in ps: ge = self.B.or_(ge, gg)
            out.append((ge if ge != g else 1, self.join(ps)))
        return GList(out)
    def np(self, name, args, kw, g, n):
        if name == "dtype": return ("dtype", args[0])
        if name in ("int32", "int64", "intc", "float64", "uint8", "bool_", "int_", "intp"):
            return ("dtype", name) if not args else args[0]
        if name in ("zeros", "ones", "full", "empty"):
            L = args[0]
            if type(L) is TupV: L = L.v[0]
            d = {"zeros": 0, "ones": 1, "empty": UNINIT}.get(name)
            if name == "full": d = args[1] if len(args) > 1 else kw["fill_value"]
            return NpArr(self.init(L, g, n), {}, d)
        if name in ("array", "asarray"):
            if isinstance(args[0], NpArr): return args[0] if name == "asarray" else NpArr(args[0].length, dict(args[0].cells), args[0].default)
            es = self.entries(args[0], g, n)
            L = self.length(args[0], g, n)
            gl = GList(es)
            mx = max([l for l, _ in self.items(L, g)] + [0])
            return NpArr(L, {i: self.getitem(gl, i, self.compare(">", L, i, g, n), n) for i in range(mx)})
        if name == "arange":
            gl = self.mkrange([a for a in args if not (isinstance(a, tuple) and a[0] == "dtype")], g, n)
            return NpArr(self.length(gl, g, n), {i: v for i, (_, v) in enumerate(gl.e)})
        raise Unsupported("numpy.%s" % name)
    def builtin(self, name, args, kw, g, n):
        if name == "range": return self.mkrange(args, g, n)
        if name == "len": return self.length(args[0], g, n)
        if name in ("min", "max"):
            if len(args) == 1:
                es = self.entries(args[0], g, n)
                cur, have = UNINIT, 0
                op = "<" if name == "min" else ">"
                for ge, v in es:
                    ge = self.B.and_(ge, g)
                    first = self.B.diff(ge, have)
                    t = self.compare(op, v, cur, self.B.and_(ge, have), n) if self.B.and_(ge, have) else 0
                    cur = self.merge(cur, v, self.B.or_(first, t)) if have or first != 1 else v
                    have = self.B.or_(have, ge)
                miss = self.B.diff(g, have)
                if miss: self.exc(miss, "ValueError: empty", self.pos(n))
                return cur
            return self.lift(lambda *a: UNINIT if any(x is UNINIT for x in a) else (min if name == "min" else max)(*a), [self.init(a, g, n) for a in args], g)
        if name in ("int", "bool"):
            if name == "bool": return self.boolv(self.truth(args[0], g, n), g) if args else 0
            return self.conv(self.init(args[0], g, n), LONG, g, n) if args else 0
        if name == "float": return self.conv(args[0], DOUBLE, g, n)
        if name == "abs": return self.lift(abs, [self.init(args[0], g, n)], g)
        if name in ("str", "repr", "print"): return "?" if name != "print" else None
        if name in ("list", "iter"): return GList([(self.B.and_(ge, g), v) for ge, v in self.entries(args[0], g, n)] if args else [])
        if name in ("set", "frozenset"):
            s = PySet()
            if args:
                for ge, v in self.entries(args[0], g, n): self.set_add(s, v, self.B.and_(ge, g), n)
            return s
        if name == "dict" and not args: return PyDict()
        if name == "tuple":
            es = self.entries(args[0], g, n) if args else []
            if any(self.B.diff(g, ge) for ge, _ in es): raise Unsupported("tuple of unknown length")
            return TupV([v for _, v in es])
        if name == "enumerate":
            es = self.entries(args[0], g, n)
            cnt, out = (args[1] if len(args) > 1 else kw.get("start", 0)), []
            for ge, v in es:
                out.append((ge, TupV([cnt, v])))
                cnt = self.merge(cnt, self.lift(lambda c: c + 1, [cnt], g), ge)
            return GList(out)
        if name == "zip":
            es = [self.entries(a, g, n) for a in args]
            if any(self.B.diff(g, ge) for e in es for ge, _ in e): raise Unsupported("zip of unknown lengths")
            return GList([(1, TupV([x[1] for x in t])) for t in zip(*es)])
        if name == "reversed": return GList(list(reversed(self.entries(args[0], g, n))))
        if name == "sorted":
            es = self.entries(args[0], g, n)
            if any(isinstance(v, (MV, TupV)) for _, v in es) or kw: raise Unsupported("sorted of unknown values")
            return GList(sorted(es, key=lambda t: t[1]))
        if name in ("sum", "any", "all"):
            es = self.entries(args[0], g, n)
            if name == "sum":
                acc = 0
                for ge, v in es: acc = self.merge(acc, self.binop("+", acc, v, self.B.and_(ge, g), n), self.B.and_(ge, g), g)
                return acc
            t = 0 if name == "any" else g
            for ge, v in es:
                gg = self.B.and_(ge, g); tv = self.truth(v, gg, n)
                t = self.B.or_(t, tv) if name == "any" else self.B.diff(t, self.B.diff(gg, tv))
            return self.boolv(t, g)
        if name == "isinstance": raise Unsupported("isinstance")
        raise Unsupported("builtin %s" % name)

BUILTINS = {"range", "len", "min", "max", "int", "bool", "float", "abs", "str", "repr", "print", "list", "iter", "set", "frozenset", "dict", "tuple", "enumerate",
            "zip", "reversed", "sorted", "sum", "any", "all", "isinstance", "ValueError", "IndexError", "TypeError", "KeyError", "RuntimeError", "MemoryError", "Exception", "AssertionError"}
def _append(I, o, a, k, g, n): o.e.append((g, a[0])); return None
def _extend(I, o, a, k, g, n):
    for ge, v in I.entries(a[0], g, n): o.e.append((I.B.and_(ge, g), v))
def _pop(I, o, a, k, g, n):
    idx = range(len(o.e) - 1, -1, -1) if not a or a[0] == -1 else range(len(o.e)) if a[0] == 0 else None
    if idx is None: raise Unsupported("pop")
    rem, out = g, []
    for i in idx:
        ge, v = o.e[i]
        h = I.B.and_(rem, ge)
        if h: out.append((v, h)); o.e[i] = (I.B.diff(ge, h), v); rem = I.B.diff(rem, h)
    if rem: I.exc(rem, "IndexError: pop", I.pos(n))
    o.e[:] = [e for e in o.e if e[0]]
    return I.join(out)
def _add(I, o, a, k, g, n): I.set_add(o, a[0], g, n)
def _discard(I, o, a, k, g, n):
    for x, gx in I.expand(a[0], g): o.d[x] = I.B.diff(o.d.get(x, 0), gx)
def _update(I, o, a, k, g, n): I.setop("|", o, a[0], g, n)
def _union(op):
    def f(I, o, a, k, g, n):
        r = PySet(); r.d = dict(o.d); I.setop(op, r, a[0], g, n); return r
    return f
def _dget(I, o, a, k, g, n):
    out = []
    for x, gx in I.expand(I.init(a[0], g, n), g):
        e = o.d.get(x); h = I.B.and_(gx, e[0]) if e else 0
        if h: out.append((e[1], h))
        m = I.B.diff(gx, h)
        if m: out.append((a[1] if len(a) > 1 else None, m))
    return I.join(out)
def _ditems(I, o, a, k, g, n): return GList([(e[0], TupV([I.pack(x), e[1]])) for x, e in o.d.items()])
def _dkeys(I, o, a, k, g, n): return GList([(e[0], I.pack(x)) for x, e in o.d.items()])
def _dvalues(I, o, a, k, g, n): return GList([(e[0], e[1]) for x, e in o.d.items()])
METHODS = {("GList", "append"): _append, ("GList", "extend"): _extend, ("GList", "pop"): _pop, ("PySet", "add"): _add, ("PySet", "discard"): _discard, ("PySet", "remove"): _discard,
           ("PySet", "update"): _update, ("PySet", "union"): _union("|"), ("PySet", "difference"): _union("-"), ("PySet", "intersection"): _union("&"),
           ("PyDict", "get"): _dget, ("PyDict", "items"): _ditems, ("PyDict", "keys"): _dkeys, ("PyDict", "values"): _dvalues,
           ("NpArr", "copy"): lambda I, o, a, k, g, n: NpArr(o.length, dict(o.cells), o.default),
           ("NpArr", "astype"): lambda I, o, a, k, g, n: NpArr(o.length, dict(o.cells), o.default)}
_call0 = Interp.call
def _call(self, f, args, kwargs, g, n):
    if isinstance(f, tuple) and f and f[0] == "np" and not isinstance(f, (Ptr, Tok)): return self.np(f[1], args, kwargs, g, n)
    return _call0(self, f, args, kwargs, g, n)
Interp.call = _call
