"""Canonical guards (reduced ordered BDDs).  Nodes are ints, 0 is false, 1 is true."""
import sys
from symx.core import z3
sys.setrecursionlimit(20000)

class BDD:
    def __init__(self):
        self.var, self.lo, self.hi = [1 << 30, 1 << 30], [0, 1], [0, 1]
        self.uniq = {}
        self.c_and, self.c_or, self.c_not, self.c_ite = {}, {}, {}, {}
        self.names, self.z = [], []
        self._tz = {}
    def new(self, name, zexpr=None):
        self.names.append(name)
        self.z.append(zexpr if zexpr is not None else z3.Bool(name))
        return self.mk(len(self.names) - 1, 0, 1)
    def mk(self, v, l, h):
        if l == h: return l
        k = (v, l, h)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            self.var.append(v); self.lo.append(l); self.hi.append(h)
            self.uniq[k] = n
        return n
    def and_(self, a, b):
        if a == b or b == 1: return a
        if a == 1: return b
        if a == 0 or b == 0: return 0
        if a > b: a, b = b, a
        k = (a, b)
        r = self.c_and.get(k)
        if r is not None: return r
        va, vb = self.var[a], self.var[b]
        if va < vb: r = self.mk(va, self.and_(self.lo[a], b), self.and_(self.hi[a], b))
        elif vb < va: r = self.mk(vb, self.and_(a, self.lo[b]), self.and_(a, self.hi[b]))
        else: r = self.mk(va, self.and_(self.lo[a], self.lo[b]), self.and_(self.hi[a], self.hi[b]))
        self.c_and[k] = r
        return r
    def or_(self, a, b):
        if a == b or b == 0: return a
        if a == 0: return b
        if a == 1 or b == 1: return 1
        if a > b: a, b = b, a
        k = (a, b)
        r = self.c_or.get(k)
        if r is not None: return r
        va, vb = self.var[a], self.var[b]
        if va < vb: r = self.mk(va, self.or_(self.lo[a], b), self.or_(self.hi[a], b))
        elif vb < va: r = self.mk(vb, self.or_(a, self.lo[b]), self.or_(a, self.hi[b]))
        else: r = self.mk(va, self.or_(self.lo[a], self.lo[b]), self.or_(self.hi[a], self.hi[b]))
        self.c_or[k] = r
        return r
    def not_(self, a):
        if a < 2: return 1 - a
        r = self.c_not.get(a)
        if r is None:
            r = self.mk(self.var[a], self.not_(self.lo[a]), self.not_(self.hi[a]))
            self.c_not[a] = r; self.c_not[r] = a
        return r
    def diff(self, a, b):
        if b == 0: return a
        if a == 0 or b == 1 or a == b: return 0
        return self.and_(a, self.not_(b))
    def ite(self, c, a, b): return self.or_(self.and_(c, a), self.diff(b, c))
    def to_z3(self, a):
        if a == 0: return z3.BoolVal(False)
        if a == 1: return z3.BoolVal(True)
        r = self._tz.get(a)
        if r is None:
            r = self._tz[a] = z3.If(self.z[self.var[a]], self.to_z3(self.hi[a]), self.to_z3(self.lo[a]))
        return r
    def any(self, a):
        """one satisfying assignment {var index: bool} (unlisted: don't care)"""
        if a == 0: return None
        out = {}
        while a > 1:
            if self.lo[a]: out[self.var[a]] = False; a = self.lo[a]
            else: out[self.var[a]] = True; a = self.hi[a]
        return out
    def eval(self, a, asg):
        while a > 1: a = self.hi[a] if asg.get(self.names[self.var[a]], False) else self.lo[a]
        return bool(a)
    def size(self, a):
        seen, st = set(), [a]
        while st:
            n = st.pop()
            if n < 2 or n in seen: continue
            seen.add(n); st += [self.lo[n], self.hi[n]]
        return len(seen)
