"""scipy.sparse stand-in over exact / symbolic numbers.

A matrix is an insertion-ordered dict of its stored entries.  As in scipy, assigning or
converting a zero stores nothing: whether a symbolic value is zero is decided by forking,
at the latest when the sparsity structure is looked at."""
import types
import numpy as _np
from fractions import Fraction
from .core import *
from . import npshim as NP
from .npshim import SymArray, SymMatrix, exact, wrap, array as np_array, np as npmod

def _isint(k): return isinstance(k, (int, _np.integer, SymInt)) and not isinstance(k, bool)
def _iszero(v):
    if isinstance(v, (SymReal, SymInt)): return bool(v == 0)
    if isinstance(v, SymBool): return not bool(v)
    return v == 0

class spmatrix:
    _is_symsparse = True
    __array_priority__ = 200
    __array_ufunc__ = None
    format = "dok"
    ndim = 2
    dtype = _np.dtype("float64")
    _int = False
    def __init__(self, arg=None, shape=None, dtype=None, copy=False):
        self._init(arg, shape, dtype, copy)
        dt = NP._dt(dtype)
        if dt is not None: self._int = not NP.isfloatdt(dt)
        elif isinstance(arg, tuple): self._int = len(arg) in (2, 3) and not _isint(arg[1]) and NP.isint(arg[0])
        else: self._int = NP.isint(_np.asarray(arg)) if isinstance(arg, (list, tuple)) and not NP.has_special(arg) else NP.isint(arg)
        if self._int and not all(isinstance(v, (int, bool)) or is_sym(v) for v in self._d.values()): self._d = {k: NP.trunc(v) for k, v in self._d.items()}
    def _init(self, arg=None, shape=None, dtype=None, copy=False):
        self._maybe = False
        if shape is not None: shape = tuple(int(x) for x in shape)
        if isinstance(arg, spmatrix):
            self._d = dict(arg._d); self._shape = arg._shape; self._maybe = arg._maybe
        elif isinstance(arg, tuple) and len(arg) == 2 and all(_isint(x) for x in arg):
            self._d = {}; self._shape = (int(arg[0]), int(arg[1]))
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (r, c) = arg
            self._d = {}
            for v, i, j in zip(list(data), list(r), list(c)):
                k = (int(i), int(j))
                self._d[k] = self._d[k] + exact(v) if k in self._d else exact(v)
            self._shape = shape or (max([k[0] for k in self._d], default=-1) + 1, max([k[1] for k in self._d], default=-1) + 1)
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = [list(x) for x in arg]
            self._d = {}
            for m in range(len(ptr) - 1):
                for q in range(int(ptr[m]), int(ptr[m + 1])):
                    k = (m, int(ind[q])) if self.format == "csr" else (int(ind[q]), m)
                    self._d[k] = self._d[k] + exact(data[q]) if k in self._d else exact(data[q])
            if shape is None: raise Inconclusive("csr triple without a shape")
            self._shape = shape
        else:
            a = _np.asarray(arg) if isinstance(arg, _np.ndarray) else _np.array(arg, dtype=object)
            if a.ndim == 0: a = a.reshape(1, 1)
            if a.ndim == 1: a = a.reshape(1, -1)
            if a.ndim != 2: raise TypeError("expected rank <=2 dense array or matrix")
            self._d = {}; self._shape = tuple(int(x) for x in a.shape)
            for i in range(a.shape[0]):
                for j in range(a.shape[1]):
                    v = exact(a[i, j])
                    if not is_sym(v) and not isinstance(v, (int, float, Fraction, bool)): raise TypeError("no supported conversion for types")
                    if not _iszero(v): self._d[(i, j)] = v
        if shape is not None and self._shape != shape: self.resize(shape)
        self._order()
    @classmethod
    def _mk(cls, d, shape, maybe=False):
        o = cls.__new__(cls)
        o._d = d; o._shape = (int(shape[0]), int(shape[1])); o._maybe = maybe
        o._order()
        return o
    def _order(self):
        if self.format == "csr" or self.format == "lil": self._d = dict(sorted(self._d.items(), key=lambda t: t[0]))
        elif self.format == "csc": self._d = dict(sorted(self._d.items(), key=lambda t: (t[0][1], t[0][0])))
    def _resolve(self):
        """decide which entries that an operation may have cancelled are really zero"""
        if self._maybe:
            self._maybe = False
            for k in list(self._d):
                if _iszero(self._d[k]): del self._d[k]
        return self._d
    # ---- basic attributes
    @property
    def shape(self): return self._shape
    @shape.setter
    def shape(self, s): self.resize(s)
    @property
    def nnz(self): return len(self._resolve())
    def getnnz(self, axis=None):
        if axis is None: return self.nnz
        d = self._resolve()
        out = _np.zeros(self._shape[1 - axis], dtype=int)
        for (i, j) in d: out[j if axis == 0 else i] += 1
        return out
    def count_nonzero(self): return sum(1 for v in self._d.values() if not _iszero(v))
    def get_shape(self): return self._shape
    def __len__(self):
        if self.format == "dok": return self.nnz
        raise TypeError("sparse array length is ambiguous; use getnnz()")
    def __bool__(self):
        if self._shape == (1, 1): return self.nnz != 0
        raise ValueError("The truth value of an array with more than one element is ambiguous.")
    # ---- dict interface (dok)
    def _dok(self):
        if self.format != "dok": raise AttributeError("%s_matrix has no dict interface" % self.format)
        return self._resolve()
    def items(self): return self._dok().items()
    def keys(self): return self._dok().keys()
    def values(self): return self._dok().values()
    def get(self, k, default=0.0): return self._dok().get((int(k[0]), int(k[1])), default)
    def pop(self, k, *a): return self._dok().pop(k, *a)
    def setdefault(self, k, v=None): return self._dok().setdefault(k, v)
    def clear(self): self._dok().clear()
    def __contains__(self, k): return k in self._dok()
    def __iter__(self):
        if self.format == "dok": raise Inconclusive("iteration over a dok matrix")
        return (self.getrow(i) for i in range(self._shape[0]))
    def __delitem__(self, k): del self._dok()[k]
    # ---- compressed interface
    @property
    def indices(self):
        d = self._resolve()
        if self.format == "csr": return _np.array([j for (i, j) in d], dtype=_np.int32)
        if self.format == "csc": return _np.array([i for (i, j) in d], dtype=_np.int32)
        raise AttributeError("indices")
    @property
    def indptr(self):
        d = self._resolve()
        if self.format == "csr": c = [i for (i, j) in d]; n = self._shape[0]
        elif self.format == "csc": c = [j for (i, j) in d]; n = self._shape[1]
        else: raise AttributeError("indptr")
        return _np.array([sum(1 for x in c if x < m) for m in range(n + 1)], dtype=_np.int32)
    @property
    def data(self):
        if self.format == "dok": raise AttributeError("data")
        return np_array(list(self._resolve().values())) if self._resolve() else SymArray(_np.empty((0,), dtype=object))
    @property
    def row(self):
        if self.format != "coo": raise AttributeError("row")
        return _np.array([i for (i, j) in self._resolve()], dtype=_np.int32)
    @property
    def col(self):
        if self.format != "coo": raise AttributeError("col")
        return _np.array([j for (i, j) in self._resolve()], dtype=_np.int32)
    @property
    def coords(self): return (self.row, self.col)
    def nonzero(self):
        d = self._resolve()
        ks = [k for k in d if not _iszero(d[k])]
        return _np.array([i for (i, j) in ks], dtype=_np.int32), _np.array([j for (i, j) in ks], dtype=_np.int32)
    def eliminate_zeros(self): self._maybe = True; self._resolve()
    def sum_duplicates(self): pass
    def sort_indices(self): pass
    has_sorted_indices = True
    # ---- conversion
    def _as(self, cls): return cls._mk(dict(self._d), self._shape, self._maybe)
    def todok(self, copy=False): return self._as(dok_matrix) if (copy or self.format != "dok") else self
    def tocsr(self, copy=False): return self._as(csr_matrix) if (copy or self.format != "csr") else self
    def tocsc(self, copy=False): return self._as(csc_matrix) if (copy or self.format != "csc") else self
    def tocoo(self, copy=False): return self._as(coo_matrix) if (copy or self.format != "coo") else self
    def tolil(self, copy=False): return self._as(lil_matrix) if (copy or self.format != "lil") else self
    def asformat(self, f, copy=False): return self if f in (None, self.format) else self._as(_FMT[f])
    def copy(self): return self._as(type(self))
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, t, **k):
        t = NP._dt(t)
        r = type(self)._mk({k: v if NP.isfloatdt(t) else NP.trunc(v) for k, v in self._d.items()}, self._shape, self._maybe or not NP.isfloatdt(t))
        r._int = not NP.isfloatdt(t)
        return r
    @property
    def dtype(self): return _np.dtype(int if self._int else float)
    def asfptype(self): return self
    def toarray(self, *a, **k):
        o = _np.empty(self._shape, dtype=object); o.fill(Fraction(0))
        for k2, v in self._d.items(): o[k2] = v
        return SymArray(o)
    def todense(self, *a, **k): return SymMatrix(_np.asarray(self.toarray()))
    @property
    def A(self): return self.toarray()
    def __array__(self, *a, **k): raise Inconclusive("implicit conversion of a sparse matrix to an array")
    # ---- indexing
    def _ix(self, k, n):
        if _isint(k):
            k = int(k)
            if k < -n or k >= n: raise IndexError("index (%d) out of range" % k)
            return k + n if k < 0 else k
        if isinstance(k, slice): return list(range(*k.indices(n)))
        if isinstance(k, SymArray) or (isinstance(k, _np.ndarray) and k.dtype == bool):
            return [i for i, b in enumerate(list(k.ravel())) if bool(b)] if len(k.ravel()) and isinstance(k.ravel()[0], (SymBool, bool, _np.bool_)) else [self._ix(int(x), n) for x in k.ravel()]
        if isinstance(k, (list, tuple, range, _np.ndarray)):
            k = list(k)
            if k and isinstance(k[0], (bool, _np.bool_)): return [i for i, b in enumerate(k) if b]
            return [self._ix(x, n) for x in k]
        raise IndexError("Index dimension must be 1 or 2")
    def __getitem__(self, key):
        if isinstance(key, tuple):
            if len(key) != 2: raise IndexError("Index dimension must be 1 or 2")
            r, c = key
        else: r, c = key, slice(None)
        ri, ci = self._ix(r, self._shape[0]), self._ix(c, self._shape[1])
        if not isinstance(ri, list) and not isinstance(ci, list):
            return self._d.get((ri, ci), Fraction(0))
        arr = lambda k: not isinstance(k, slice) and not _isint(k)
        if arr(r) and arr(c):
            if len(ri) != len(ci): raise Inconclusive("fancy indexing of a sparse matrix")
            return SymMatrix([[self._d.get((a, b), Fraction(0)) for a, b in zip(ri, ci)]])
        rl = ri if isinstance(ri, list) else [ri]
        cl = ci if isinstance(ci, list) else [ci]
        d = {}
        rp = {}; cp = {}
        for n, i in enumerate(rl): rp.setdefault(i, []).append(n)
        for n, j in enumerate(cl): cp.setdefault(j, []).append(n)
        for (i, j), v in self._d.items():
            for a in rp.get(i, ()):
                for b in cp.get(j, ()): d[(a, b)] = v
        return type(self)._mk(d, (len(rl), len(cl)), self._maybe)
    def __setitem__(self, key, v):
        if isinstance(key, tuple): r, c = key
        else: r, c = key, slice(None)
        ri, ci = self._ix(r, self._shape[0]), self._ix(c, self._shape[1])
        if not isinstance(ri, list) and not isinstance(ci, list):
            if isinstance(v, _np.ndarray): v = v.ravel()[0]
            if isinstance(v, spmatrix): v = v[0, 0]
            v = exact(v)
            if self._int: v = NP.trunc(v)
            if not is_sym(v) and not isinstance(v, (int, float, Fraction, bool)): raise TypeError("cannot set a sparse element to %r" % (v,))
            self._maybe and self._resolve()
            if _iszero(v): self._d.pop((ri, ci), None)
            else: self._d[(ri, ci)] = v
            self._order()
            return
        arr = lambda k: not isinstance(k, slice) and not _isint(k)
        pts = None
        rl = ri if isinstance(ri, list) else [ri]
        cl = ci if isinstance(ci, list) else [ci]
        if arr(r) and arr(c):
            pts = list(zip(rl, cl))
        if isinstance(v, spmatrix): v = v.toarray()
        if isinstance(v, (list, tuple)): v = np_array(v)
        if pts is not None:
            vs = list(_np.asarray(v).ravel()) if isinstance(v, _np.ndarray) else [v] * len(pts)
            for p, x in zip(pts, vs): self[p] = x
            return
        if isinstance(v, _np.ndarray):
            v = _np.broadcast_to(_np.asarray(v) if v.ndim else _np.asarray(v).reshape(1, 1), (len(rl), len(cl)))
            for a, i in enumerate(rl):
                for b, j in enumerate(cl): self[i, j] = v[a, b]
        else:
            for i in rl:
                for j in cl: self[i, j] = v
    def getrow(self, i): return csr_matrix._mk({(0, j): v for (a, j), v in self._d.items() if a == self._ix(i, self._shape[0])}, (1, self._shape[1]), self._maybe)
    def getcol(self, j): return csr_matrix._mk({(a, 0): v for (a, b), v in self._d.items() if b == self._ix(j, self._shape[1])}, (self._shape[0], 1), self._maybe)
    def resize(self, *shape):
        if len(shape) == 1: shape = shape[0]
        shape = (int(shape[0]), int(shape[1]))
        self._d = {k: v for k, v in self._d.items() if k[0] < shape[0] and k[1] < shape[1]}
        self._shape = shape
    set_shape = resize
    def reshape(self, *shape, **k):
        if len(shape) == 1: shape = shape[0]
        n = self._shape[1]
        shape = list(shape); tot = self._shape[0] * n
        if -1 in shape: shape[shape.index(-1)] = tot // (shape[0] * shape[1] * -1)
        return type(self)._mk({divmod(i * n + j, shape[1]): v for (i, j), v in self._d.items()}, shape, self._maybe)
    # ---- arithmetic
    def _res(self, d, shape, maybe=True):
        cls = csr_matrix if self.format in ("dok", "coo", "lil") else type(self)
        return cls._mk(d, shape, maybe)
    def _addsub(self, o, sign):
        if isinstance(o, spmatrix):
            if o._shape != self._shape: raise ValueError("inconsistent shapes")
            d = dict(self._d); maybe = self._maybe or o._maybe
            for k, v in o._d.items():
                if k in d: d[k] = d[k] + v if sign > 0 else d[k] - v; maybe = True
                else: d[k] = v if sign > 0 else -v
            return self._res(d, self._shape, maybe)
        if isinstance(o, _np.ndarray):
            r = _np.asarray(self.toarray())
            o = _np.asarray(o if o.dtype == object else wrap(o))
            return SymMatrix(r + o if sign > 0 else r - o)
        if not is_sym(o) and o == 0: return self.copy()
        raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")
    def __add__(self, o): return self._addsub(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._addsub(o, -1)
    def __rsub__(self, o): return (-self)._addsub(o, 1)
    def __iadd__(self, o): return self._addsub(o, 1)
    def __isub__(self, o): return self._addsub(o, -1)
    def __neg__(self): return type(self)._mk({k: -v for k, v in self._d.items()}, self._shape, self._maybe)
    def __abs__(self): return type(self)._mk({k: abs(v) for k, v in self._d.items()}, self._shape, self._maybe)
    def _scale(self, s): return type(self)._mk({k: v * exact(s) for k, v in self._d.items()}, self._shape, True)
    def _isscalar(self, o): return is_sym(o) or isinstance(o, (int, float, Fraction, _np.number))
    def __mul__(self, o):
        if self._isscalar(o): return self._scale(o)
        return self.dot(o)
    def __rmul__(self, o):
        if self._isscalar(o): return self._scale(o)
        return self.__rmatmul__(o)
    def __imul__(self, o): return self * o
    def __truediv__(self, o):
        if self._isscalar(o): return type(self)._mk({k: v / exact(o) for k, v in self._d.items()}, self._shape, self._maybe)
        return NotImplemented
    def __matmul__(self, o): return self.dot(o)
    def dot(self, o):
        if self._isscalar(o): return self._scale(o)
        if isinstance(o, spmatrix):
            if self._shape[1] != o._shape[0]: raise ValueError("dimension mismatch")
            d = {}
            for (i, k), v in self._d.items():
                for (k2, j), w in o._d.items():
                    if k == k2: d[(i, j)] = d[(i, j)] + v * w if (i, j) in d else v * w
            return self._res(d, (self._shape[0], o._shape[1]), True)
        if isinstance(o, (list, tuple)): o = np_array(o)
        if isinstance(o, _np.ndarray):
            ismat = isinstance(o, _np.matrix)
            a = _np.asarray(o)
            if a.shape[0] != self._shape[1]: raise ValueError("dimension mismatch")
            if a.ndim == 1:
                out = [Fraction(0)] * self._shape[0]
                for (i, k), v in self._d.items(): out[i] = out[i] + v * exact(a[k])
                return SymMatrix([out]) if ismat else SymArray(_np.array(out + [None], dtype=object)[:-1])
            out = _np.empty((self._shape[0], a.shape[1]), dtype=object); out.fill(Fraction(0))
            for (i, k), v in self._d.items():
                for j in range(a.shape[1]): out[i, j] = out[i, j] + v * exact(a[k, j])
            return SymMatrix(out) if ismat else SymArray(out)
        return NotImplemented
    def __rmatmul__(self, o):
        if isinstance(o, (list, tuple)): o = np_array(o)
        if isinstance(o, _np.ndarray):
            a = _np.asarray(o)
            r = self.T.dot(SymArray(a.T if a.ndim == 2 else a))
            if a.ndim == 1: return r
            r = _np.asarray(r).T
            return SymMatrix(r) if isinstance(o, _np.matrix) else SymArray(r)
        return NotImplemented
    def multiply(self, o):
        if self._isscalar(o): return self._scale(o)
        if isinstance(o, spmatrix): o = o.toarray()
        o = _np.broadcast_to(_np.asarray(np_array(o) if not isinstance(o, _np.ndarray) else o), self._shape)
        return self._res({k: v * exact(o[k]) for k, v in self._d.items()}, self._shape, True)
    def power(self, n): return type(self)._mk({k: v ** n for k, v in self._d.items()}, self._shape, True)
    def transpose(self, *a, **k):
        cls = {"csr": csc_matrix, "csc": csr_matrix}.get(self.format, type(self))
        return cls._mk({(j, i): v for (i, j), v in self._d.items()}, (self._shape[1], self._shape[0]), self._maybe)
    @property
    def T(self): return self.transpose()
    def sum(self, axis=None, dtype=None, out=None):
        if axis is None:
            r = Fraction(0)
            for v in self._d.values(): r = r + v
            return r
        if axis in (0, -2):
            o = [Fraction(0)] * self._shape[1]
            for (i, j), v in self._d.items(): o[j] = o[j] + v
            return SymMatrix(_np.array(o + [None], dtype=object)[:-1].reshape(1, -1))
        o = [Fraction(0)] * self._shape[0]
        for (i, j), v in self._d.items(): o[i] = o[i] + v
        return SymMatrix(_np.array(o + [None], dtype=object)[:-1].reshape(-1, 1))
    def mean(self, axis=None):
        n = self._shape[0] * self._shape[1] if axis is None else self._shape[axis]
        return self.sum(axis) / Fraction(n)
    def max(self, axis=None): return self.toarray().max(axis)
    def min(self, axis=None): return self.toarray().min(axis)
    def diagonal(self, k=0): return SymArray(_np.array([self._d.get((i, i + k), Fraction(0)) for i in range(min(self._shape)) if 0 <= i + k < self._shape[1]] + [None], dtype=object)[:-1])
    def setdiag(self, vals, k=0):
        for i in range(min(self._shape)):
            self[i, i + k] = vals[i] if hasattr(vals, "__getitem__") else vals
    def _cmp(self, o, f):
        if isinstance(o, spmatrix): g = lambda k: o._d.get(k, Fraction(0))
        elif self._isscalar(o): g = lambda k: exact(o)
        elif isinstance(o, _np.ndarray):
            return SymArray(_np.asarray(self.toarray()))._cmpop(o, f)
        else: return NotImplemented
        d = {}
        for i in range(self._shape[0]):
            for j in range(self._shape[1]):
                b = f(self._d.get((i, j), Fraction(0)), g((i, j)))
                if bool(b): d[(i, j)] = True
        return csr_matrix._mk(d, self._shape)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    __hash__ = object.__hash__
    def __repr__(self): return "<%s %s %s>" % (type(self).__name__, self._shape, self._d)
    __str__ = __repr__

# ---- matrices of integers: what is derived from one is one as well
def _keeping(name, both):
    f = getattr(spmatrix, name)
    def g(self, *a, **k):
        r = f(self, *a, **k)
        if self._int and r is not NotImplemented and (not both or NP.isint(a[0])): NP.mark(r)
        return r
    g.__name__ = name
    setattr(spmatrix, name, g)
for _n in "_as __getitem__ getrow getcol reshape __neg__ __abs__ transpose sum max min diagonal toarray todense".split(): _keeping(_n, False)
for _n in "_addsub _scale dot multiply __rmatmul__".split(): _keeping(_n, True)
spmatrix.__copy__ = spmatrix.copy
def _allint(f):
    def g(blocks, *a, **k):
        blocks = list(blocks)
        r = f(blocks, *a, **k)
        fl = [b for r_ in blocks for b in (r_ if isinstance(r_, (list, tuple)) and any(isinstance(x, (spmatrix, _np.ndarray)) or x is None for x in r_) else [r_]) if b is not None]
        if fl and all(NP.isint(b) for b in fl): NP.mark(r)
        return r
    return g

class dok_matrix(spmatrix): format = "dok"
class csr_matrix(spmatrix): format = "csr"
class csc_matrix(spmatrix): format = "csc"
class coo_matrix(spmatrix): format = "coo"
class lil_matrix(spmatrix): format = "lil"
_FMT = {"dok": dok_matrix, "csr": csr_matrix, "csc": csc_matrix, "coo": coo_matrix, "lil": lil_matrix}

def _blk(b):
    return b if isinstance(b, spmatrix) else coo_matrix(b)
def _maybe_any(bs): return any(b._maybe for b in bs)
@_allint
def vstack(blocks, format=None, dtype=None):
    bs = [_blk(b) for b in blocks]
    d, off = {}, 0
    for b in bs:
        if b._shape[1] != bs[0]._shape[1]: raise ValueError("blocks have incompatible column dimensions")
        for (i, j), v in b._d.items(): d[(i + off, j)] = v
        off += b._shape[0]
    cls = _FMT[format] if format else (csr_matrix if all(b.format == "csr" for b in bs) else coo_matrix)
    return cls._mk(d, (off, bs[0]._shape[1]), _maybe_any(bs))
@_allint
def hstack(blocks, format=None, dtype=None):
    bs = [_blk(b) for b in blocks]
    d, off = {}, 0
    for b in bs:
        if b._shape[0] != bs[0]._shape[0]: raise ValueError("blocks have incompatible row dimensions")
        for (i, j), v in b._d.items(): d[(i, j + off)] = v
        off += b._shape[1]
    cls = _FMT[format] if format else (csc_matrix if all(b.format == "csc" for b in bs) else coo_matrix)
    return cls._mk(d, (bs[0]._shape[0], off), _maybe_any(bs))
def identity(n, dtype=None, format=None):
    return _FMT[format or "csr"]._mk({(i, i): Fraction(1) for i in range(n)}, (n, n))
def eye(m, n=None, k=0, dtype=None, format=None):
    n = m if n is None else n
    return _FMT[format or "csr"]._mk({(i, i + k): Fraction(1) for i in range(m) if 0 <= i + k < n}, (m, n))
def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if offsets != 0: raise Inconclusive("diags with offsets")
    v = list(diagonals[0]) if isinstance(diagonals[0], (list, tuple, _np.ndarray)) else list(diagonals)
    return _FMT[format or "csr"]._mk({(i, i): exact(x) for i, x in enumerate(v)}, shape or (len(v), len(v)), True)
@_allint
def bmat(blocks, format=None, dtype=None):
    rows = [list(r) for r in blocks]
    h, w = [None] * len(rows), [None] * len(rows[0])
    for i, r in enumerate(rows):
        for j, b in enumerate(r):
            if b is None: continue
            rows[i][j] = b = _blk(b)
            if h[i] not in (None, b._shape[0]) or w[j] not in (None, b._shape[1]): raise ValueError("blocks have incompatible dimensions")
            h[i], w[j] = b._shape
    if None in h or None in w: raise ValueError("blocks are all None")
    d = {}
    for i, r in enumerate(rows):
        for j, b in enumerate(r):
            if b is not None:
                for (a, c), v in b._d.items(): d[(a + sum(h[:i]), c + sum(w[:j]))] = v
    return _FMT[format or "coo"]._mk(d, (sum(h), sum(w)), any(b._maybe for r in rows for b in r if b is not None))
@_allint
def block_diag(mats, format=None, dtype=None):
    mats = [_blk(m if isinstance(m, spmatrix) else npmod.array(m)) for m in mats]
    return bmat([[m if i == j else None for j in range(len(mats))] for i, m in enumerate(mats)], format) if len(mats) > 1 else mats[0]
def find(A):
    A = coo_matrix(A); A._maybe = True; A._resolve()
    ks = sorted(A._d, key=lambda k: (k[1], k[0]))
    return _np.array([k[0] for k in ks], dtype=int), _np.array([k[1] for k in ks], dtype=int), SymArray(_np.array([A._d[k] for k in ks] + [None], dtype=object)[:-1])
def kron(A, B, format=None):
    A, B = coo_matrix(A), coo_matrix(B)
    d = {(i * B._shape[0] + k, j * B._shape[1] + l): a * b for (i, j), a in A._d.items() for (k, l), b in B._d.items()}
    return _FMT[format or "coo"]._mk(d, (A._shape[0] * B._shape[0], A._shape[1] * B._shape[1]), True)
def tril(A, k=0, format=None): return _FMT[format or "coo"]._mk({q: v for q, v in A._d.items() if q[1] - q[0] <= k}, A._shape, A._maybe)
def triu(A, k=0, format=None): return _FMT[format or "coo"]._mk({q: v for q, v in A._d.items() if q[1] - q[0] >= k}, A._shape, A._maybe)
def issparse(x): return isinstance(x, spmatrix)
isspmatrix = issparse

class SP(types.ModuleType):
    def __getattr__(self, n): raise AttributeError("scipy.sparse.%s is not modelled" % n)
sparse = SP("scipy.sparse")
for _n in "spmatrix dok_matrix csr_matrix csc_matrix coo_matrix lil_matrix vstack hstack bmat block_diag find kron tril triu identity eye diags issparse isspmatrix".split():
    setattr(sparse, _n, globals()[_n])
sparse.dok_array, sparse.csr_array, sparse.csc_array, sparse.coo_array, sparse.lil_array = dok_matrix, csr_matrix, csc_matrix, coo_matrix, lil_matrix
sparse.sparray = spmatrix
sparse.eye_array = eye; sparse.block_array = bmat; sparse.diags_array = diags
for _f in _FMT:
    setattr(sparse, "isspmatrix_" + _f, lambda x, _f=_f: isinstance(x, _FMT[_f]))
