"""helpers shared by the harnesses; everything here works on symbolic and concrete values"""
from fractions import Fraction
from .core import And, Or, Not, Implies, Iff, Ite, Min, Max, is_sym, SymBool, SymReal
from .driver import Harness, Fail, NotThisPath

def mkmatrix(ctx, rows, fmt="list"):
    """a matrix in one of the accepted input formats"""
    if fmt == "list": return [list(r) for r in rows]
    np, sp = ctx.np, ctx.sparse
    if fmt == "array": return np.array([list(r) for r in rows])
    if fmt == "matrix": return np.matrix([list(r) for r in rows])
    m = sp.dok_matrix((len(rows), len(rows[0])), **({"dtype": int} if all(type(v) is int for r in rows for v in r) else {}))
    for i, r in enumerate(rows):
        for j, v in enumerate(r): m[i, j] = v
    if fmt == "dok": return m
    return {"csr": m.tocsr, "csc": m.tocsc, "coo": m.tocoo}[fmt]()

def close(ctx, a, b, tol):
    d = a - b
    return And(d <= tol, d >= -tol)

def isassert(e): return isinstance(e, AssertionError)
