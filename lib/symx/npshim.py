"""numpy stand-in: real numpy with object arrays wherever a float array would be created,
so that exact rationals and symbolic reals can live in them.  Everything not overridden
falls through to real numpy."""
import types, math, builtins
import numpy as _np
from fractions import Fraction
from .core import *
from . import core

def has_special(x, depth=0):
    if is_sym(x) or isinstance(x, Fraction): return True
    if isinstance(x, float) and not isinstance(x, bool): return True
    if isinstance(x, _np.floating): return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object or x.dtype.kind == "f"
    if isinstance(x, (list, tuple)) and depth < 6:
        return builtins.any(has_special(y, depth + 1) for y in x)
    if hasattr(x, "_is_symsparse"): return True
    return False

def exact(v):
    if isinstance(v, (float, _np.floating)) and not isinstance(v, bool):
        if math.isinf(v) or math.isnan(v): return float(v)
        return Fraction(float(v))
    if isinstance(v, _np.integer): return int(v)
    if isinstance(v, _np.bool_): return bool(v)
    return v
_exact_vec = lambda a: _map(exact, a)

def _map(f, a):
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape):
        out[i] = f(a[i])
    return out

def trunc(v):
    """what an integer array stores when v is assigned to an element (by case split)"""
    v = exact(v)
    if not is_sym(v):
        if isinstance(v, (bool, int)): return int(v)
        if isinstance(v, Fraction) or (isinstance(v, float) and math.isfinite(v)): return int(v)
        return v
    neg = not bool(v >= 0); w = -v if neg else v
    for k in range(65):
        if bool(w < k + 1): return -k if neg else k
    raise Inconclusive("a large number assigned to an integer array")
def _truncall(v):
    if isinstance(v, _np.ndarray) and v.dtype.kind in "fO": return _map(trunc, _np.asarray(v))
    if is_sym(v) or isinstance(v, (float, Fraction, _np.floating)): return trunc(v)
    if isinstance(v, (list, tuple)): return [_truncall(x) for x in v]
    return v
def isint(x):
    """is x (an array, a matrix, a scalar) of an integer type?"""
    if getattr(x, "_int", False): return True
    if isinstance(x, _np.ndarray): return x.dtype.kind in "biu"
    if isinstance(x, (list, tuple)): return bool(len(x)) and builtins.all(isint(y) for y in x)
    return isinstance(x, (int, _np.integer, bool, _np.bool_))
def mark(r):
    """an object array that stands for one of integers"""
    if isinstance(r, (SymArray, SymMatrix)) or hasattr(r, "_is_symsparse"): r._int = True
    return r
_KEEPINT = {"add", "subtract", "multiply", "negative", "positive", "absolute", "maximum", "minimum", "square", "sign", "floor_divide", "remainder"}

class SymArray(_np.ndarray):
    """_int: the array has an integer type in the executed code (assignments to it truncate)"""
    __array_priority__ = 100
    _int = False
    def __new__(cls, a):
        return _np.asarray(a, dtype=object).view(cls)
    def __array_finalize__(self, obj): self._int = getattr(obj, "_int", False) and isinstance(obj, SymArray)
    # comparisons -> elementwise symbolic
    def _cmpop(self, o, f):
        o2 = o
        if isinstance(o, _np.ndarray): pass
        elif isinstance(o, (list, tuple)): o2 = array(o)
        if isinstance(o2, _np.ndarray):
            a, b = _np.broadcast_arrays(_np.asarray(self), _np.asarray(o2))
            out = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(*a.shape): out[i] = f(a[i], b[i])
        else:
            out = _map(lambda v: f(v, o2), _np.asarray(self))
        return boolify(out)
    def __lt__(self, o): return self._cmpop(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmpop(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmpop(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmpop(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmpop(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmpop(o, lambda a, b: a != b)
    __hash__ = None
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        r = self._ufunc(ufunc, method, *inputs, **kw)
        outs = kw.get("out")
        if outs and getattr(outs[0], "_int", False) and not builtins.all(isint(x) for x in inputs):
            raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'" % ufunc.__name__)
        if r is not NotImplemented and not outs and (self._int or getattr(inputs[0], "_int", False)) and ufunc.__name__ in _KEEPINT and builtins.all(isint(x) for x in inputs): mark(r)
        return r
    def _ufunc(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        if method == "reduce" and name in ("maximum", "minimum", "fmax", "fmin"):
            return (max_ if "max" in name else min_)(inputs[0], kw.get("axis", 0))
        if method == "__call__" and kw.get("where", True) is not True: return self._masked(ufunc, inputs, kw)
        table = {"less": "__lt__", "less_equal": "__le__", "greater": "__gt__", "greater_equal": "__ge__",
                 "equal": "__eq__", "not_equal": "__ne__"}
        if method == "__call__" and name in table and not kw.get("out"):
            a, b = inputs
            if isinstance(a, SymArray): return getattr(a, table[name])(b)
            swap = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__", "__eq__": "__eq__", "__ne__": "__ne__"}
            return getattr(b, swap[table[name]])(a)
        if method == "__call__" and name in ("isnan", "isinf", "isfinite") :
            val = name == "isfinite"
            def g(v):
                if isinstance(v, float): return bool(getattr(math, name)(v))
                return val
            return _map(g, _np.asarray(inputs[0])).astype(bool)
        if method == "__call__" and name in ("absolute", "fabs"):
            return SymArray(_map(abs, _np.asarray(inputs[0])))
        if method == "__call__" and name in ("rint",):
            return SymArray(_map(lambda v: _round1(v, 0), _np.asarray(inputs[0])))
        if method == "__call__" and name in ("maximum", "minimum", "fmax", "fmin"):
            a, b = _np.broadcast_arrays(*[_np.asarray(x, dtype=object) for x in inputs])
            out = _np.empty(a.shape, dtype=object)
            F = Max if "max" in name else Min
            for i in _np.ndindex(*a.shape): out[i] = F([a[i], b[i]])
            return wrap(out)
        if method == "__call__" and name == "logical_not":
            return ~boolify(_map(_b, _np.asarray(inputs[0])))
        if method == "__call__" and name in ("logical_and", "logical_or"):
            a, b = _np.broadcast_arrays(*[_np.asarray(x, dtype=object) for x in inputs])
            F = And if name == "logical_and" else Or
            out = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(*a.shape): out[i] = F(_b(a[i]), _b(b[i]))
            return boolify(out)
        if method == "__call__" and name == "sign":
            return SymArray(_map(lambda v: Ite(v > 0, 1, Ite(v < 0, -1, 0)), _np.asarray(inputs[0])))
        ins = [(_np.asarray(x) if isinstance(x, SymArray) else x) for x in inputs]
        ins = [(_exact_vec(x) if isinstance(x, _np.ndarray) and x.dtype.kind == "f" else exact(x) if not isinstance(x, _np.ndarray) else x) for x in ins]
        outs = kw.pop("out", None)
        if outs is not None:
            kw["out"] = tuple(_np.asarray(x) if isinstance(x, SymArray) else x for x in outs)
        for i in range(len(ins)):
            if hasattr(ins[i], "_is_symsparse"): return NotImplemented
        r = getattr(ufunc, method)(*ins, **kw)
        if outs is not None: return outs[0]
        return wrap(r)
    def _masked(self, ufunc, inputs, kw):
        """ufunc(..., where=mask, out=array)"""
        mask, outs = kw["where"], kw.get("out")
        ins = [_np.asarray(x, dtype=object) for x in inputs]
        b = _np.broadcast_arrays(*ins, _np.asarray(mask, dtype=object), *([_np.asarray(outs[0], dtype=object)] if outs else []))
        res = (_np.array(b[-1], dtype=object) if outs else _filled(b[0].shape, Fraction(0)))
        for i in _np.ndindex(*res.shape):
            if bool(_b(b[len(ins)][i])):
                v = ufunc(*[SymArray(_np.array([x[i]], dtype=object)) for x in b[:len(ins)]])
                res[i] = _np.asarray(v).ravel()[0]
        if outs:
            outs[0][...] = res
            return outs[0]
        return wrap(_np.asarray(res))
    def all(self, axis=None, *a, **k):
        if axis is None: return And([_b(v) for v in _np.asarray(self).ravel()])
        return boolify(_np.apply_along_axis(lambda r: _obj0(And([_b(v) for v in r])), axis, _np.asarray(self)))
    def any(self, axis=None, *a, **k):
        if axis is None: return Or([_b(v) for v in _np.asarray(self).ravel()])
        return boolify(_np.apply_along_axis(lambda r: _obj0(Or([_b(v) for v in r])), axis, _np.asarray(self)))
    def __bool__(self):
        if self.size == 1: return bool(self.ravel()[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
    def max(self, axis=None, *a, **k):
        if axis is None: return Max(list(_np.asarray(self).ravel()))
        return wrap(_np.array([Max(list(r)) for r in (_np.asarray(self).T if axis == 0 else _np.asarray(self))], dtype=object))
    def min(self, axis=None, *a, **k):
        if axis is None: return Min(list(_np.asarray(self).ravel()))
        return wrap(_np.array([Min(list(r)) for r in (_np.asarray(self).T if axis == 0 else _np.asarray(self))], dtype=object))
    def round(self, decimals=0, out=None): return SymArray(_map(lambda v: _round1(v, decimals), _np.asarray(self)))
    def astype(self, dtype, *a, **k):
        dtype = _dt(dtype)
        if isfloatdt(dtype):
            r = self.copy(); r._int = False
            return r
        if dtype in (bool, _np.bool_, "bool"):
            return _np.array([bool(v) for v in _np.asarray(self).ravel()], dtype=bool).reshape(self.shape)
        return _np.asarray(self).astype(dtype)
    def mean(self, axis=None, *a, **k):
        if axis is None: return wrap(_np.asarray(self).sum()) / Fraction(self.size)
        return self.sum(axis=axis) / Fraction(self.shape[axis])
    def nonzero(self):
        m = _np.array([bool(v) for v in _np.asarray(self).ravel()], dtype=bool).reshape(self.shape)
        return m.nonzero()
    def dot(self, o):
        if hasattr(o, "_is_symsparse"): return o.__rmatmul__(self)
        return wrap(_np.dot(_np.asarray(self), _np.asarray(o, dtype=object)))
    def __matmul__(self, o):
        if hasattr(o, "_is_symsparse"): return NotImplemented
        return self.dot(o)
    def tolist(self): return _np.asarray(self).tolist()
    def _key(self, k):
        if isinstance(k, SymArray):
            return _np.array([bool(v) if isinstance(v, (SymBool, bool, _np.bool_)) else int(v) for v in _np.asarray(k).ravel()]).reshape(k.shape)
        if isinstance(k, tuple): return tuple(self._key(x) for x in k)
        return k
    def __getitem__(self, k):
        r = super().__getitem__(self._key(k))
        return r
    def __setitem__(self, k, v):
        if isinstance(v, _np.ndarray) and v.dtype.kind == "f": v = _exact_vec(v)
        elif isinstance(v, (float, _np.floating)): v = exact(v)
        super().__setitem__(self._key(k), _truncall(v) if self._int else v)
    def __repr__(self): return "array(%s)" % (_np.asarray(self).tolist(),)
    __str__ = __repr__

class IArr(_np.ndarray):
    """an array of integers or booleans of the executed code: may be indexed by symbolic masks"""
    def __getitem__(self, k): return super().__getitem__(SymArray._key(self, k))
    def __setitem__(self, k, v): super().__setitem__(SymArray._key(self, k), _truncall(v) if self.dtype.kind in "iu" else v)
    def astype(self, dtype, *a, **k):
        dtype = _dt(dtype)
        if isfloatdt(dtype) and dtype is not None and dtype is not object: return SymArray(_map(lambda v: Fraction(int(v)), _np.asarray(self)))
        return iarr(_np.asarray(self).astype(dtype, *a, **k))
    _key = lambda self, k: SymArray._key(self, k)
def iarr(a): return a.view(IArr) if type(a) is _np.ndarray and a.dtype.kind in "biu" and a.ndim else a

class SymMatrix(_np.matrix):
    """what .todense() returns"""
    __array_priority__ = 101
    def __new__(cls, a):
        a = _np.asarray(a, dtype=object)
        if a.ndim == 1: a = a.reshape(1, -1)
        return a.view(cls)
    _int = False
    def __array_finalize__(self, obj): self._int = getattr(obj, "_int", False) and isinstance(obj, SymMatrix)
    @property
    def A1(self): return self._k(SymArray(_np.asarray(self).ravel().copy()))
    @property
    def A(self): return self._k(SymArray(_np.asarray(self)))
    def _k(self, r): return mark(r) if self._int else r
    def __setitem__(self, k, v): super().__setitem__(k, _truncall(v) if self._int else v)
    def astype(self, dtype, *a, **k):
        r = SymMatrix(_np.asarray(self).copy())
        return r if isfloatdt(_dt(dtype)) else mark(r)
    def __getitem__(self, k): return self._k(self._get(k))
    def _get(self, k):
        r = _np.asarray(self)[k] if not isinstance(k, SymArray) else _np.asarray(self)[_np.asarray(k)]
        if isinstance(r, _np.ndarray):
            if r.ndim == 1:
                if isinstance(k, tuple) and len(k) == 2 and not isinstance(k[1], (int, _np.integer)): r = r.reshape(1, -1)
                elif isinstance(k, tuple) and len(k) == 2: r = r.reshape(-1, 1)
                elif isinstance(k, (int, _np.integer)): r = r.reshape(1, -1)
                else: r = r.reshape(-1, self.shape[1])
            return r.view(SymMatrix) if r.dtype == object else r
        return r
    def sum(self, axis=None, **k):
        a = _np.asarray(self)
        if axis is None: return a.sum()
        return self._k(SymMatrix(a.sum(axis=axis, keepdims=True)))
    def _cmpop(self, o, f):
        o = _np.asarray(o, dtype=object) if isinstance(o, _np.ndarray) else o
        r = SymArray(_np.asarray(self))._cmpop(o, f)
        return r
    __lt__ = lambda s, o: s._cmpop(o, lambda a, b: a < b)
    __le__ = lambda s, o: s._cmpop(o, lambda a, b: a <= b)
    __gt__ = lambda s, o: s._cmpop(o, lambda a, b: a > b)
    __ge__ = lambda s, o: s._cmpop(o, lambda a, b: a >= b)
    __eq__ = lambda s, o: s._cmpop(o, lambda a, b: a == b)
    __ne__ = lambda s, o: s._cmpop(o, lambda a, b: a != b)
    __hash__ = None
    def item(self, *a): return _np.asarray(self).item(*a)
    def max(self, axis=None, **k): return SymArray(_np.asarray(self)).max(axis)
    def min(self, axis=None, **k): return SymArray(_np.asarray(self)).min(axis)
    def __bool__(self):
        if self.size == 1: return bool(_np.asarray(self).ravel()[0])
        raise ValueError("ambiguous")

def _obj0(v):
    a = _np.empty((), dtype=object); a[()] = v
    return a
def _b(v):
    if isinstance(v, (SymBool, bool)): return v
    if isinstance(v, _np.bool_): return bool(v)
    if isinstance(v, (SymReal, SymInt)): return v != 0
    return bool(v)
def boolify(out):
    """object array of (Sym)bools; a real bool array if all concrete"""
    out = _np.asarray(out, dtype=object)
    flat = list(out.ravel())
    if builtins.all(isinstance(v, (bool, _np.bool_)) for v in flat):
        return _np.array([bool(v) for v in flat], dtype=bool).reshape(out.shape)
    return BoolArray(out)

class BoolArray(SymArray):
    def __invert__(self): return boolify(_map(Not, _np.asarray(self)))
    def _lg(self, o, f):
        a, b = _np.broadcast_arrays(_np.asarray(self), _np.asarray(o))
        out = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(*a.shape): out[i] = f(_b(a[i]), _b(b[i]))
        return boolify(out)
    def __and__(self, o): return self._lg(o, And)
    __rand__ = __and__
    def __or__(self, o): return self._lg(o, Or)
    __ror__ = __or__
    def __xor__(self, o): return self._lg(o, lambda a, b: Not(Iff(a, b)))
    __rxor__ = __xor__
    def sum(self, axis=None, **k):
        if axis is None:
            return builtins.sum((Ite(v, 1, 0) for v in _np.asarray(self).ravel()), 0)
        return wrap(_map(lambda v: Ite(v, 1, 0), _np.asarray(self)).sum(axis=axis))

def wrap(r):
    if isinstance(r, _np.ndarray):
        if r.dtype == object:
            if r.size and builtins.all(isinstance(v, (SymBool, bool, _np.bool_)) for v in r.ravel()): return boolify(r)
            return r.view(SymArray)
        if r.dtype.kind == "f": return SymArray(_exact_vec(r))
        return r
    if isinstance(r, _np.floating): return exact(r)
    return r

def _round1(v, nd):
    if isinstance(v, SymReal): return sym_round(v, nd)
    if isinstance(v, (SymInt, SymBool)): return v
    if isinstance(v, Fraction): return Fraction(round(v, nd)) if nd >= 0 else Fraction(round(v, nd))
    if isinstance(v, (float, _np.floating)): return Fraction(round(Fraction(float(v)), nd))
    return round(v, nd)

FLOATS = (None, float, _np.float64, _np.float32, "float", "float64", "d", "f", "double", object)
def isfloatdt(dtype):
    if dtype is None or dtype is object: return True
    if getattr(dtype, "_symfloat", False): return True
    try: return _np.dtype(dtype).kind in "fO"
    except Exception: return False

def _dt(dtype):
    if getattr(dtype, "_symint", False): return int
    if getattr(dtype, "_symbool", False): return bool
    return dtype
def _filled(shape, v):
    a = _np.empty(shape, dtype=object)
    a.fill(v)
    return a.view(SymArray)

def _shape(s):
    if isinstance(s, (list, tuple)): return tuple(int(x) for x in s)
    return (int(s),)
def zeros(shape, dtype=None, order="C", **k):
    dtype = _dt(dtype)
    if isfloatdt(dtype): return _filled(_shape(shape), Fraction(0))
    return iarr(_np.zeros(_shape(shape), dtype=dtype))
def ones(shape, dtype=None, order="C", **k):
    dtype = _dt(dtype)
    if isfloatdt(dtype): return _filled(_shape(shape), Fraction(1))
    return iarr(_np.ones(_shape(shape), dtype=dtype))
def empty(shape, dtype=None, **k):
    dtype = _dt(dtype)
    if isfloatdt(dtype): return _filled(_shape(shape), Fraction(0))
    return _np.empty(_shape(shape), dtype=dtype)
def full(shape, fill_value, dtype=None, **k):
    dtype = _dt(dtype)
    if isfloatdt(dtype) and (dtype is not None or has_special(fill_value) or fill_value is None):
        return _filled(_shape(shape), exact(fill_value))
    return iarr(_np.full(_shape(shape), fill_value, dtype=dtype))
def zeros_like(a, dtype=None, **k): return zeros(_np.shape(a), dtype if dtype is not None else (None if has_special(a) else _np.asarray(a).dtype))
def ones_like(a, dtype=None, **k): return ones(_np.shape(a), dtype if dtype is not None else (None if has_special(a) else _np.asarray(a).dtype))
def full_like(a, v, dtype=None, **k): return full(_np.shape(a), v, dtype)
def empty_like(a, dtype=None, **k): return zeros_like(a, dtype)
def eye(n, m=None, k=0, dtype=None, **kw):
    m = n if m is None else m
    a = zeros((n, m))
    for i in range(n):
        if 0 <= i + k < m: a[i, i + k] = Fraction(1)
    return a
def identity(n, dtype=None): return eye(n)

def array(obj, dtype=None, copy=True, ndmin=0, **k):
    dtype = _dt(dtype)
    if hasattr(obj, "_is_symsparse"):
        raise Inconclusive("np.array of sparse")
    if isinstance(obj, (SymArray, SymMatrix)) and isfloatdt(dtype):
        r = SymArray(_np.asarray(obj).copy())
        return mark(r) if getattr(obj, "_int", False) and dtype is None else r
    if dtype is not None and not isfloatdt(dtype):
        if has_special(obj):
            o = _np.array(obj, dtype=object)
            if _np.dtype(dtype).kind == "b":
                return _np.array([bool(v) for v in o.ravel()], dtype=bool).reshape(o.shape)
            return _np.array([int(v) for v in o.ravel()], dtype=dtype).reshape(o.shape)
        return _np.array(obj, dtype=dtype)
    if isinstance(obj, range): obj = list(obj)
    if not isinstance(obj, (list, tuple, _np.ndarray)) and not is_sym(obj) and hasattr(obj, "__iter__") and not isinstance(obj, (str, bytes, dict, set)):
        pass
    if has_special(obj) or (dtype is not None and isfloatdt(dtype)) or (isinstance(obj, (list, tuple)) and len(obj) == 0):
        o = _np.array(obj, dtype=object)
        o = _exact_vec(o)
        if o.ndim < ndmin: o = o.reshape((1,) * (ndmin - o.ndim) + o.shape)
        if o.size and builtins.all(isinstance(v, (SymBool, bool)) for v in o.ravel()): return boolify(o)
        return SymArray(o)
    return iarr(_np.array(obj, dtype=dtype, ndmin=ndmin, **k))
def asarray(obj, dtype=None, **k):
    if isinstance(obj, SymArray) and isfloatdt(_dt(dtype)): return obj
    if isinstance(obj, SymMatrix) and isfloatdt(_dt(dtype)): return obj.A
    if isinstance(obj, _np.ndarray) and obj.dtype != object and obj.dtype.kind != "f" and dtype is None: return obj
    return array(obj, dtype)
asanyarray = asarray
ascontiguousarray = asarray
def matrix(obj, dtype=None, **k): return SymMatrix(array(obj) if not isinstance(obj, _np.ndarray) else obj)
asmatrix = matrix
def round_(a, decimals=0, out=None):
    if isinstance(a, _np.matrix): return SymMatrix(_map(lambda v: _round1(v, decimals), _np.asarray(a)))
    if isinstance(a, _np.ndarray) and (a.dtype == object or a.dtype.kind == "f"): return SymArray(_map(lambda v: _round1(v, decimals), _np.asarray(a)))
    if isinstance(a, (list, tuple)): return round_(array(a), decimals)
    if isinstance(a, _np.ndarray): return _np.round(a, decimals)
    return _round1(a, decimals)
def _red(F, name):
    def f(a, axis=None, **k):
        if hasattr(a, "_is_symsparse"): return getattr(a, name)(axis)
        if isinstance(a, (list, tuple)): a = array(a)
        if is_sym(a) or isinstance(a, Fraction): return a
        if isinstance(a, _np.ndarray) and a.dtype == object:
            return getattr(SymArray(a), name)(axis)
        return getattr(_np, name)(a, axis=axis)
    return f
min_ = _red(Min, "min"); max_ = _red(Max, "max")
def any_(a, axis=None, **k):
    if isinstance(a, (list, tuple)): a = array(a)
    if isinstance(a, SymBool): return a
    if isinstance(a, _np.ndarray) and a.dtype == object: return SymArray(a).any(axis)
    return _np.any(a, axis=axis)
def all_(a, axis=None, **k):
    if isinstance(a, (list, tuple)): a = array(a)
    if isinstance(a, SymBool): return a
    if isinstance(a, _np.ndarray) and a.dtype == object: return SymArray(a).all(axis)
    return _np.all(a, axis=axis)
def sum_(a, axis=None, **k):
    if hasattr(a, "_is_symsparse"): return a.sum(axis)
    if isinstance(a, types.GeneratorType): return builtins.sum(a)
    if isinstance(a, (list, tuple)): a = array(a)
    if isinstance(a, (BoolArray, SymMatrix)): return a.sum(axis)
    if isinstance(a, _np.ndarray): return wrap(_np.asarray(a).sum(axis=axis)) if a.dtype == object else _np.sum(a, axis=axis)
    return a
def dot(a, b):
    if hasattr(a, "_is_symsparse") or hasattr(b, "_is_symsparse"): return a.dot(b) if hasattr(a, "dot") else b.__rmatmul__(a)
    return wrap(_np.dot(_np.asarray(array(a)), _np.asarray(array(b))))
matmul = dot
def where(c, x=None, y=None):
    if x is None:
        if isinstance(c, _np.ndarray) and c.dtype == object: return SymArray(c).nonzero()
        return _np.where(c)
    if is_sym(c): return Ite(c, x, y)
    c, x2, y2 = _np.broadcast_arrays(_np.asarray(c, dtype=object) if not isinstance(c, _np.ndarray) else _np.asarray(c), _np.asarray(x, dtype=object), _np.asarray(y, dtype=object))
    out = _np.empty(c.shape, dtype=object)
    for i in _np.ndindex(*c.shape): out[i] = Ite(_b(c[i]), exact(x2[i]), exact(y2[i]))
    return wrap(out)
def isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    if is_sym(a) or is_sym(b) or isinstance(a, Fraction) or isinstance(b, Fraction):
        return abs(a - b) <= exact(atol) + exact(rtol) * abs(b)
    A, B = array(a), array(b)
    A, B = SymArray(_exact_vec(_np.asarray(A, dtype=object))), SymArray(_exact_vec(_np.asarray(B, dtype=object)))
    return (abs(A - B) <= exact(atol) + exact(rtol) * abs(B))
def allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    r = isclose(a, b, rtol, atol)
    return all_(r)
def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape: return False
    return all_(a == b)
class UF:
    """numpy's binary operations that are called by name, with their methods"""
    nin, nout = 2, 1
    def __init__(self, name, F): self.__name__, self.F, self.real = name, F, getattr(_np, name)
    def __call__(self, a, b, out=None, where=True, **k):
        if where is not True:
            if out is None: raise Inconclusive("np.%s with where= and without out=" % self.__name__)
            m = SymArray(_np.zeros(1, dtype=object))
            A = SymArray(_np.asarray(asarray(a), dtype=object))
            return m._masked(self, (A, b), dict(where=where, out=(out,)))
        r = _ew(self.F, a, b)
        if out is not None: out[...] = r; return out
        return r
    def reduce(self, a, axis=0, initial=None, **k):
        a = _np.asarray(asarray(a), dtype=object)
        if axis is None: a, axis = a.ravel(), 0
        def one(xs):
            xs = ([initial] if initial is not None else []) + list(xs)
            if not xs: raise ValueError("zero-size array to reduction operation %s which has no identity" % self.__name__)
            r = xs[0]
            for x in xs[1:]: r = self.F(r, x)
            return r
        if a.ndim == 1: return one(a)
        m = _np.moveaxis(a, axis, -1)
        out = _np.empty(m.shape[:-1], dtype=object)
        for i in _np.ndindex(*out.shape): out[i] = one(m[i])
        return wrap(out)
    def accumulate(self, a, axis=0, **k):
        a = list(asarray(a)); out = [a[0]]
        for x in a[1:]: out.append(self.F(out[-1], x))
        return array(out)
    def outer(self, a, b, **k):
        a, b = asarray(a), asarray(b)
        return _ew(self.F, _np.asarray(a, dtype=object)[:, None], _np.asarray(b, dtype=object)[None, :])
    def at(self, a, idx, b):
        for k, i in enumerate(idx): a[i] = self.F(a[i], b[k] if isinstance(b, (_np.ndarray, list, tuple)) else b)
    def __getattr__(self, n): return getattr(_np.__dict__[self.__dict__["__name__"]], n)
maximum = UF("maximum", lambda x, y: Max([x, y]))
minimum = UF("minimum", lambda x, y: Min([x, y]))
def bincount(x, weights=None, minlength=0):
    x = [int(v) for v in asarray(x).ravel()]
    if weights is None: return _np.bincount(x, minlength=minlength)
    out = [Fraction(0)] * max([minlength] + [v + 1 for v in x])
    for i, w in zip(x, list(asarray(weights))): out[i] = out[i] + exact(w)
    return array(out)
class _Linalg(types.ModuleType):
    def __getattr__(self, n):
        f = getattr(_np.linalg, n)
        if not callable(f): return f
        def g(*a, **k):
            if builtins.any(has_special(v) for v in a): raise Inconclusive("np.linalg.%s of symbolic numbers" % n)
            return f(*a, **k)
        return g
    @staticmethod
    def norm(a, ord=None, axis=None, **k):
        a = asarray(a)
        if axis is None and a.ndim == 1 and ord in (1, _np.inf, float("inf")):
            v = [abs(x) for x in a]
            return builtins.sum(v, Fraction(0)) if ord == 1 else Max(v)
        raise Inconclusive("np.linalg.norm")
linalg = _Linalg("numpy.linalg")
def nditer(a, *args, **k):
    a = asarray(a)
    if a.dtype == object: return iter([_obj0(v) for v in a.ravel()])
    return _np.nditer(a, *args, **k)
class NU:
    """numpy's arithmetic operations called by name; the methods (reduce, at, ...) work on object arrays"""
    def __init__(self, n): self.__name__ = n
    def __call__(self, a, b, out=None, where=True, **k): return _named(getattr(_np, self.__name__), a, b, out, where)
    def __getattr__(self, m): return getattr(getattr(_np, self.__dict__["__name__"]), m)
add, subtract, multiply, divide = NU("add"), NU("subtract"), NU("multiply"), NU("divide")
def _named(u, a, b, out, where):
    if hasattr(a, "_is_symsparse") or hasattr(b, "_is_symsparse"):
        return {"add": lambda: a + b, "subtract": lambda: a - b, "multiply": lambda: a.multiply(b) if hasattr(a, "multiply") else b.multiply(a), "divide": lambda: a / b}[u.__name__]()
    sc = not isinstance(a, (_np.ndarray, list, tuple)) and not isinstance(b, (_np.ndarray, list, tuple))
    if not (has_special(a) or has_special(b)) and u.__name__ != "divide" and out is None and where is True: return u(a, b)
    A = SymArray(_np.atleast_1d(_np.asarray(asarray(a) if isinstance(a, (_np.ndarray, list, tuple)) else _obj0(exact(a)), dtype=object)))
    if where is not True:
        if out is None: raise Inconclusive("np.%s with where= and without out=" % u.__name__)
        return A._masked(u, (A, asarray(b) if isinstance(b, (list, tuple)) else b), dict(where=where, out=(out,)))
    if u.__name__ == "divide" and not isinstance(b, (_np.ndarray, list, tuple)) and not is_sym(b) and isinstance(b, int): b = Fraction(b)
    if u.__name__ == "divide" : A = SymArray(_map(lambda v: Fraction(v) if isinstance(v, int) else v, _np.asarray(A)))
    r = u(A, asarray(b) if isinstance(b, (list, tuple)) else b)
    if out is not None: out[...] = r; return out
    return _np.asarray(r).ravel()[0] if sc else r
def _ew(f, a, b):
    if not isinstance(a, (_np.ndarray, list, tuple)) and not isinstance(b, (_np.ndarray, list, tuple)): return f(exact(a), exact(b))
    a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape): out[i] = f(exact(a[i]), exact(b[i]))
    return wrap(out)
def clip(a, lo, hi, **k):
    r = a
    if lo is not None: r = maximum(r, lo)
    if hi is not None: r = minimum(r, hi)
    return r
def absolute(a):
    if isinstance(a, _np.ndarray): return wrap(_map(abs, _np.asarray(a))) if a.dtype == object else _np.abs(a)
    if isinstance(a, (list, tuple)): return absolute(array(a))
    return abs(a)
def isnan(a): return _fin(a, "isnan")
def isinf(a): return _fin(a, "isinf")
def isfinite(a): return _fin(a, "isfinite")
def _fin(a, n):
    dflt = n == "isfinite"
    if is_sym(a) or isinstance(a, Fraction): return dflt
    if isinstance(a, _np.ndarray) and a.dtype == object:
        return _map(lambda v: getattr(math, n)(v) if isinstance(v, float) else dflt, _np.asarray(a)).astype(bool)
    return getattr(_np, n)(a)
def arange(*a, **k):
    if not builtins.any(has_special(x) for x in a): return iarr(_np.arange(*a, **{q: v for q, v in k.items()}))
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a[:3]
    start, stop, step = exact(start), exact(stop), exact(step)
    # numpy: length = ceil((stop-start)/step)
    out, i = [], 0
    while bool(start + i * step < stop):
        out.append(start + i * step); i += 1
        if i > 64: raise Inconclusive("np.arange longer than 64")
    return array(out) if out else SymArray(_np.empty((0,), dtype=object))
def linspace(a, b, num=50, endpoint=True, **k):
    a, b = exact(a), exact(b)
    n = num - 1 if endpoint else num
    return array([a + (b - a) * Fraction(i, n) if n else a for i in range(num)])
def concatenate(xs, axis=0, **k):
    xs = list(xs)
    r = iarr(wrap(_np.concatenate([_np.asarray(array(x) if not isinstance(x, _np.ndarray) else x) for x in xs], axis=axis)))
    return mark(r) if xs and builtins.all(isint(x) for x in xs) else r
def append(a, v, axis=None): return concatenate([asarray(a).ravel() if axis is None else asarray(a), asarray(v).ravel() if axis is None else asarray(v)], axis or 0)
def prod(a, axis=None, **k): return wrap(_np.prod(_np.asarray(asarray(a)), axis=axis))
def mean(a, axis=None, **k):
    a = asarray(a)
    if a.dtype == object: return SymArray(a).mean(axis)
    return SymArray(_exact_vec(a.astype(object))).mean(axis)
average = mean
def count_nonzero(a, axis=None):
    if hasattr(a, "_is_symsparse"): return a.count_nonzero()
    a = asarray(a)
    if a.dtype == object: return builtins.sum(1 for v in a.ravel() if bool(v))
    return _np.count_nonzero(a, axis=axis)
def argmin(a, **k):
    a = list(asarray(a).ravel()); b = 0
    for i in range(1, len(a)):
        if bool(a[i] < a[b]): b = i
    return b
def argmax(a, **k):
    a = list(asarray(a).ravel()); b = 0
    for i in range(1, len(a)):
        if bool(a[i] > a[b]): b = i
    return b
def floor(a): return math.floor(a) if not isinstance(a, _np.ndarray) else wrap(_map(math.floor, _np.asarray(a)))
def ceil(a): return math.ceil(a) if not isinstance(a, _np.ndarray) else wrap(_map(math.ceil, _np.asarray(a)))
def float64(x=0.0): return exact(x) if not isinstance(x, str) else Fraction(float(x))
float64._symfloat = True
def copy(a, **k):
    if isint(a) and has_special(a): return mark(wrap(_np.array(a, dtype=object)))
    return wrap(_np.array(a, dtype=object)) if has_special(a) else iarr(_np.copy(a))
def logical_not(a): return ~boolify(_map(_b, _np.asarray(a, dtype=object)))
def logical_and(a, b): return _lg(And, a, b)
def logical_or(a, b): return _lg(Or, a, b)
def _lg(F, a, b):
    a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape): out[i] = F(_b(a[i]), _b(b[i]))
    return boolify(out)
def shape(a): return a.shape if hasattr(a, "shape") else _np.shape(a)
def nan_to_num(a, **k): return a
def reciprocal(a): return 1 / a

class NP(types.ModuleType):
    def __getattr__(self, n): return getattr(_np, n)
np = NP("numpy")
for _n, _v in list(globals().items()):
    if callable(_v) and _n in ("zeros ones empty full zeros_like ones_like full_like empty_like eye identity array asarray asanyarray ascontiguousarray "
        "matrix asmatrix dot matmul where isclose allclose array_equal maximum minimum clip absolute isnan isinf isfinite arange linspace concatenate append "
        "prod mean average bincount linalg nditer divide count_nonzero argmin argmax floor ceil float64 copy logical_not logical_and logical_or shape nan_to_num").split():
        setattr(np, _n, _v)
np.round = np.around = np.round_ = round_
np.min = np.amin = min_; np.max = np.amax = max_
np.any = any_; np.all = all_; np.sum = sum_; np.abs = np.fabs = absolute
np.fmin, np.fmax = minimum, maximum
np.linalg = linalg
np.add, np.subtract, np.multiply, np.true_divide = add, subtract, multiply, divide
np.isscalar = lambda x: True if is_sym(x) or isinstance(x, Fraction) else _np.isscalar(x)
np.float_ = np.float32 = np.double = float64
np.hstack = lambda xs: concatenate([asarray(x) if _np.ndim(x) else asarray([x]) for x in xs], 0 if _np.ndim(xs[0]) <= 1 else 1)
np.vstack = lambda xs: concatenate([asarray(x).reshape(1, -1) if _np.ndim(x) <= 1 else asarray(x) for x in xs], 0)
np.flatnonzero = lambda a: _np.flatnonzero(_np.array([bool(v) for v in asarray(a).ravel()], dtype=bool))
np.nonzero = lambda a: SymArray(a).nonzero() if (isinstance(a, _np.ndarray) and a.dtype == object) else _np.nonzero(a)
np.inner = dot
np.ndarray = _np.ndarray
