import numpy as np
v = np.array([x0,x1,x2]); out = np.flatnonzero(v > 0)
#---
import numpy as np
v = np.array([x0,x1,x2]); out = v[np.array([2,0])]
#---
import numpy as np
v = np.array([x0,x1,x2]); v[[0,2]] = 0; out = v
#---
import numpy as np
v = np.array([x0,x1,x2]); m = np.array([True,False,True]); out = v[m]
#---
import numpy as np
v = np.array([x0,x1,x2]); m = np.array([True,False,True]); v[~m] = 7; out = v
#---
import numpy as np
out = np.cumsum(np.array([x0,x1,x2]))
#---
import numpy as np
out = np.outer(np.array([x0,x1]), np.array([1,x2]))
#---
import numpy as np
out = np.repeat(np.array([x0,x1]), [2,1])
#---
import numpy as np
out = np.tile(np.array([x0,x1]), 2)
#---
import numpy as np
out = np.hstack((np.array([x0]), np.array([x1, 1])))
#---
import numpy as np
out = np.vstack((np.array([x0,1]), np.array([x1, 1])))
#---
import numpy as np
out = np.column_stack((np.array([x0,1]), np.array([x1, 1])))
#---
import numpy as np
out = np.stack([np.array([x0,1]), np.array([x1, 1])])
#---
import numpy as np
out = np.fromiter((a*2 for a in [x0,x1]), dtype=float)
#---
import numpy as np
out = np.fromiter((a*2 for a in [x0,x1]), dtype=float, count=2)
#---
import numpy as np
out = np.add.at
v = np.zeros(3); np.add.at(v, [0,0,2], np.array([x0,x1,x2])); out = v
#---
import numpy as np
out = np.bincount([0,0,1], weights=np.array([x0,x1,x2]), minlength=3)
#---
import numpy as np
out = np.delete(np.array([x0,x1,x2]), 1)
#---
import numpy as np
out = np.insert(np.array([x0,x1,x2]), 1, 5)
#---
import numpy as np
out = np.split(np.array([x0,x1,x2]), [1])
#---
import numpy as np
out = np.array([x0,x1,x2]).sum()
#---
import numpy as np
out = np.array([[x0,x1],[x2,1]]).sum(axis=1)
#---
import numpy as np
out = np.array([[x0,x1],[x2,1]]).sum(axis=0)
#---
import numpy as np
out = np.add.reduce(np.array([x0,x1,x2]))
#---
import numpy as np
out = np.array([[x0,x1],[x2,1]]) @ np.array([1,x3])
#---
import numpy as np
out = np.array([[x0,x1],[x2,1]]).dot(np.array([1,x3]))
#---
import numpy as np
out = np.inner(np.array([x0,x1]), np.array([1,x3]))
#---
import numpy as np
out = np.vdot(np.array([x0,x1]), np.array([1,x3]))
#---
import numpy as np
out = np.multiply(np.array([x0,x1]), np.array([1,x3]))
#---
import numpy as np
out = np.divide(1, np.array([x0,x1]))
#---
import numpy as np
a = np.array([x0,0.0]); out = np.divide(1, a, out=np.zeros_like(a), where=a>0)
#---
import numpy as np
out = np.subtract(np.array([x0,x1]), 1)
#---
import numpy as np
out = np.negative(np.array([x0,x1]))
#---
import numpy as np
out = np.array([x0,x1]).reshape(2,1)
#---
import numpy as np
out = np.array([x0,x1])[:,None] * np.array([1,2])[None,:]
#---
import numpy as np
out = np.array([x0,x1]).ravel()
#---
import numpy as np
out = np.array([[x0,x1],[x2,1]]).flatten()
#---
import numpy as np
out = np.array([[x0,x1],[x2,1]]).T
#---
import numpy as np
out = np.array([x0,x1]).copy()
#---
import numpy as np
a = np.array([x0,x1]); b = np.empty_like(a); b[:] = a; out = b
#---
import numpy as np
out = np.where(np.array([x0,x1]) > 1, 1, 0)
#---
import numpy as np
out = np.where(np.array([True, False]), np.array([x0,x1]), 3)
#---
import numpy as np
out = np.where(np.array([x0, x1]) > 0)[0]
#---
import numpy as np
out = np.argwhere(np.array([x0, x1]) > 1).flatten()
#---
import numpy as np
out = np.nonzero(np.array([x0, 0]))[0]
#---
import numpy as np
out = np.count_nonzero(np.array([x0, x1]) > 1)
#---
import numpy as np
out = np.sum(np.array([x0, x1]) > 1)
#---
import numpy as np
out = int((np.array([x0, x1]) > 1).sum())
#---
import numpy as np
out = np.isclose(np.array([x0, x1]), 1).tolist()
#---
import numpy as np
out = bool(np.allclose(np.array([x0, x1]), 1))
#---
import numpy as np
out = bool(np.all(np.abs(np.array([x0, x1]) - 1) < 1e-8))
#---
import numpy as np
out = bool(np.any(np.array([x0, x1]) < 0))
#---
import numpy as np
out = bool(np.less_equal(np.array([x0, x1]), 2.5).all())
#---
import numpy as np
out = bool(np.greater(np.array([x0, x1]), 1).any())
#---
import numpy as np
out = bool(np.logical_and(np.array([x0, x1]) > 0, np.array([x0,x1]) < 3).all())
#---
import numpy as np
out = bool(((np.array([x0, x1]) > 0) & (np.array([x0,x1]) < 1)).all())
#---
import numpy as np
out = bool(((np.array([x0, x1]) > 1) | (np.array([x0,x1]) < 1)).any())
#---
import numpy as np
out = np.maximum(np.array([x0, x1]), 1)
#---
import numpy as np
out = np.minimum.reduce(np.array([x0, x1]))
#---
import numpy as np
out = np.clip(np.array([x0, x1]), 0, 1)
#---
import numpy as np
out = np.amax(np.array([x0, x1]))
#---
import numpy as np
out = np.max([x0, 1])
#---
import numpy as np
out = np.array([x0, x1]).argmax()
#---
import numpy as np
out = np.argsort([3, 1, 2])
#---
import numpy as np
out = np.sort(np.array([x0, x1]))
#---
import numpy as np
out = sorted(np.array([x0, x1]))
#---
import numpy as np
out = np.unique([3,1,1])
#---
import numpy as np
out = np.abs(np.array([x0, x1]) - 1).max()
#---
import numpy as np
out = np.linalg.norm(np.array([1.0, 2.0]))
#---
import numpy as np
out = np.diag(np.array([x0, x1]))
#---
import numpy as np
out = np.eye(2) - np.array([[x0,x1],[x2,1]])
#---
import numpy as np
out = np.identity(2) * x0
#---
import numpy as np
out = np.full(3, x0)
#---
import numpy as np
out = np.full((2,2), 3.0) + x0
#---
import numpy as np
out = np.arange(4)[::-1]
#---
import numpy as np
out = np.r_[np.array([x0]), 1.0]
#---
import numpy as np
out = np.c_[np.array([x0,x1]), np.array([1,2])]
#---
import numpy as np
out = np.append(np.array([x0,x1]), 3)
#---
import numpy as np
out = np.array([float(a) for a in [x0,x1]], dtype=np.float64)
#---
import numpy as np
out = np.asarray([x0,x1], dtype=float)
#---
import numpy as np
out = np.array([x0,x1]).astype(np.float64)
#---
import numpy as np
out = (np.array([x0,x1]) > 1).astype(int)
#---
import numpy as np
out = (np.array([x0,x1]) > 1).astype(float) * 2
#---
import numpy as np
out = np.vectorize(lambda a: a * 2)(np.array([x0,x1]))
#---
import numpy as np
out = np.apply_along_axis(lambda a: a.sum(), 1, np.array([[x0,x1],[x2,1]]))
#---
import numpy as np
out = np.squeeze(np.array([[x0,x1]]))
#---
import numpy as np
out = np.atleast_1d(np.array([x0,x1]))
#---
import numpy as np
out = np.array([x0,x1]).size + len(np.array([x0])) + np.array([x0,x1]).shape[0] + np.array([[x0,x1]]).ndim
#---
import numpy as np
out = [a for a in np.nditer(np.array([1.0,2.0]))]
#---
import numpy as np
out = [i for i, _ in np.ndenumerate(np.array([x0,x1]))]
#---
import numpy as np
out = np.in1d([1,2],[2]) if hasattr(np, "in1d") else np.isin([1,2],[2])
#---
import numpy as np
out = np.isin(np.arange(3), [0,2])
#---
import numpy as np
out = np.setdiff1d([1,2,3],[2])
#---
import numpy as np
out = np.ix_([0,1],[1]); out = np.array([[x0,x1],[x2,1]])[out]
#---
import numpy as np
out = np.array([[x0,x1],[x2,1]])[:, [True, False]]
#---
import numpy as np
out = np.array([[x0,x1],[x2,1]])[1:, :1]
#---
import numpy as np
out = np.take(np.array([x0,x1]), [1,0])
#---
import numpy as np
a = np.array([x0,x1]); np.put(a, [0], 3); out = a
#---
import numpy as np
a = np.array([x0,x1]); a.fill(2); out = a
#---
import numpy as np
a = np.array([x0,x1]); a *= 2; a += 1; a /= 4; out = a
#---
import numpy as np
a = np.array([x0,x1]); out = -a + a**2
#---
import numpy as np
a = np.ones(2); a -= np.array([x0,x1]); out = a
#---
import numpy as np
a = np.zeros((2,2)); a[0,1] = x0; a[1] += x1; out = a
#---
import numpy as np
out = np.einsum("ij,j->i", np.array([[x0,x1],[x2,1]]), np.array([1.0,2.0]))
#---
import numpy as np
out = np.ma if False else np.float64(3) + x0
#---
import numpy as np
out = np.int64(2) * x0
#---
import numpy as np
out = np.array([x0, x1]).item(0)
#---
import numpy as np
out = np.prod(np.array([x0, x1]))
#---
import numpy as np
out = np.mean([x0, x1])
#---
import numpy as np
out = np.average(np.array([x0, x1]))
#---
import numpy as np
out = np.round(np.array([0.25, 1.75]), 1)
#---
import numpy as np
out = np.rint(np.array([0.25, 1.75]))
#---
import numpy as np
out = np.errstate(divide="ignore")
with np.errstate(divide="ignore", invalid="ignore"):
    out = 1 / np.array([x0, x1])
#---
import numpy as np
out = np.squeeze(np.asarray(np.matrix([[x0, x1]])))
#---
import numpy as np
from scipy.sparse import dok_matrix
m = dok_matrix((2,2)); m[0,1] = x0; m[1,1] = x1; out = m
#---
import numpy as np
from scipy.sparse import lil_matrix
m = lil_matrix((2,2)); m[0,1] = x0; m[1,1] = x1; out = m.tocsr()
#---
from scipy.sparse import csr_matrix
out = csr_matrix(([x0,x1],([0,1],[1,0])), shape=(2,2))
#---
from scipy.sparse import coo_matrix
out = coo_matrix(([x0,x1],([0,1],[1,0])), shape=(2,2)).tocsr()
#---
from scipy.sparse import csc_matrix
out = csc_matrix(([x0,x1],([0,1],[1,0])), shape=(2,2)).dot([1,2])
#---
from scipy.sparse import coo_matrix
m = coo_matrix(([x0,x1],([0,1],[1,0])), shape=(2,2)); out = [(int(i),int(j),v) for i,j,v in zip(m.row, m.col, m.data)]
#---
from scipy.sparse import csr_matrix
m = csr_matrix(([x0,x1,x2],([0,1,0],[1,0,0])), shape=(2,2)); out = [m.indptr.tolist(), m.getrow(0).toarray(), m[1].toarray()]
#---
from scipy.sparse import csr_matrix
m = csr_matrix(([x0,x1,x2],([0,1,0],[1,0,0])), shape=(2,2)); out = [sorted(int(j) for j in m[0].indices), m[0].nnz, m.nnz]
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = m[[1,0]]
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = m[:,[1]]
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = m[:1,:]
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = m.sum(axis=1)
#---
from scipy.sparse import csr_matrix
import numpy as np
m = csr_matrix([[x0,0],[x1,x2]]); out = np.asarray(m.sum(axis=1)).ravel()
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = m.sum(axis=0).A1
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = m.sum()
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = (m.T @ [1,2])
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = (m.multiply(2))
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = m @ m
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = (m - csr_matrix([[1,0],[0,1]]))
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = -m
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = m.toarray()
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = m.todense().A1
#---
from scipy.sparse import csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = [list(map(int, z)) for z in m.nonzero()]
#---
from scipy.sparse import dok_matrix
m = dok_matrix([[x0,0],[x1,x2]]); out = sorted((int(i),int(j)) for (i,j) in m.keys())
#---
from scipy.sparse import dok_matrix
m = dok_matrix([[x0,0],[x1,x2]]); out = [v for k, v in sorted(m.items(), key=lambda t: t[0])]
#---
from scipy.sparse import dok_matrix
m = dok_matrix((2,3)); m[0,:] = [x0,0,x1]; out = m
#---
from scipy.sparse import dok_matrix
m = dok_matrix((2,3)); m[0,0] = x0; m[0,0] += x1; out = m.get((0,0)), (1,1) in m, m.get((1,1), 9)
#---
from scipy.sparse import dok_matrix
m = dok_matrix((2,3)); m[0,0] = x0; m2 = m.copy(); m2[0,0] = 0; out = [m.toarray(), m2.toarray(), m2.nnz]
#---
from scipy.sparse import dok_matrix
m = dok_matrix((2,2)); m[0,0] = x0; m.resize((3,3)); m[2,2] = 1; out = m
#---
from scipy.sparse import dok_matrix
m = dok_matrix((2,2)); m[0,0] = x0; m.setdiag([1,2]); out = m
#---
from scipy.sparse import bmat, csr_matrix, identity
m = csr_matrix([[x0,0],[x1,x2]]); out = bmat([[m, None],[None, identity(1)]])
#---
from scipy.sparse import block_diag, csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = block_diag((m, [[1]]))
#---
from scipy.sparse import hstack, csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = hstack((m, [[1],[2]]))
#---
from scipy.sparse import vstack, csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = vstack((m, [1,2]), format="csr")
#---
from scipy.sparse import vstack, csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = vstack([m, m[0]]).tocsr()
#---
from scipy.sparse import diags
out = diags([x0, x1])
#---
from scipy.sparse import find, csr_matrix
m = csr_matrix([[x0,0],[x1,x2]]); out = [sorted(map(int,find(m)[0]))]
#---
from scipy.sparse import isspmatrix, issparse, csr_matrix, spmatrix
m = csr_matrix([[x0,0],[x1,x2]]); out = [issparse(m), isspmatrix(m), isinstance(m, spmatrix), issparse([1])]
#---
import scipy.sparse as sp
out = sp.kron(sp.identity(2), sp.csr_matrix([[x0]]))
#---
import scipy.sparse as sp
m = sp.csr_matrix([[x0,0],[x1,x2]]); out = [m.max(), m.min(), m.count_nonzero(), m.shape, m.dtype == float]
#---
import scipy.sparse as sp
m = sp.csr_matrix([[x0,0],[x1,x2]]); out = [bool((m < 0).nnz), bool((m != m).nnz), abs(m - m).sum()]
#---
import scipy.sparse as sp
m = sp.csr_matrix([[x0,0],[x1,x2]]); out = [m.diagonal(), m.transpose().toarray()]
#---
import scipy.sparse as sp
m = sp.lil_matrix([[x0,0],[x1,x2]]); out = [m.rows.tolist() if False else 1, m.getrowview(0).toarray() if False else 2]
#---
from itertools import chain, groupby, product
from collections import defaultdict, Counter, OrderedDict
d = defaultdict(float)
for k, v in [(0,x0),(1,x1),(0,x2)]: d[k] += v
out = [d[k] for k in sorted(d)]
#---
from functools import reduce
import operator
out = reduce(operator.add, [x0,x1,x2])
#---
import math
out = [math.fsum([x0,x1]), math.isclose(x0, x0), math.prod([x0, x1])]
#---
out = [f"{x0 > 0}", "%d" % 3, "{:.0f}".format(2.0)]
#---
out = sum(p for p in (x0, x1) if p > 1)
#---
out = max((x0, x1), key=lambda t: t) if False else max(x0, x1)
#---
out = min([x0, x1, 1], default=3)
#---
out = abs(x0 - 1) <= 1e-6
#---
out = not (x0 < 1)
#---
out = 0.5 <= x0 <= 1
#---
out = [i for i, v in enumerate([x0, x1]) if v > 1]
#---
out = x0 if x0 > x1 else x1
#---
out = any(v < 1 for v in (x0, x1)) and all(v > 0 for v in (x0, x1))
#---
from dataclasses import dataclass
@dataclass
class A:
    v: float
out = A(x0).v
#---
out = float(x0) + int(True) + bool(x0 > 0)
#---
out = isinstance(x0, float), isinstance(1, (int, float))
#---
import numbers
out = isinstance(x0, numbers.Number), isinstance(x0, numbers.Real)
#---
import numpy as np
out = isinstance(x0, (float, np.floating)), np.isscalar(x0)
#---
import copy
out = copy.deepcopy([x0, x1]), copy.copy(x0)
#---
import numpy as np, copy
out = copy.deepcopy(np.array([x0, x1]))
#---
import numpy as np
out = np.array_equal(np.array([x0]), np.array([x0]))
#---
import numpy as np
out = np.array([x0, x1]).tolist() == [x0, x1]
#---
import numpy as np
out = (np.array([x0, x1]) == 0).sum()
#---
import numpy as np
out = np.floor(2.5), np.sign(-3), np.sqrt(4.0), np.exp(0.0)
#---
import numpy as np
v = np.array([x0, x1]); v.sort(); out = v
#---
import numpy as np
v = np.array([x0, x1]); out = np.flip(v), v[::-1], np.roll(v, 1)
#---
import numpy as np
v = np.array([x0, x1]); out = np.dot(v, v), np.matmul(v, v), np.tensordot(v, v, 1)
#---
import numpy as np
v = np.zeros(3, dtype=bool); v[[0,2]] = True; out = np.logical_not(v), ~v, v ^ True, v.any(), v.sum()
#---
import numpy as np
v = np.zeros(3); v[np.array([0,2])] += np.array([x0, x1]); out = v
#---
import numpy as np
m = np.array([x0, x1, x2]) > 1; out = m.all(), m.any(), m.sum(), m.nonzero()[0], (~m).nonzero()[0]
#---
import numpy as np
m = np.array([x0, x1, x2]) > 1; v = np.array([1,2,3]); out = v[m].sum() if m.any() else 0
#---
import numpy as np
m = np.array([x0, x1, x2]) > 1; v = np.array([x0,x1,x2]); v[m] = 0; out = v
#---
import numpy as np
out = np.trim_zeros(np.array([0,1,0])), np.diff([1,3,6])
#---
import numpy as np
out = np.equal(np.array([1,2]), 2), np.not_equal(np.array([x0,x1]), 0)
#---
import numpy as np
out = np.sum(np.array([x0, x1]) * np.array([1, 2])), np.sum([x0, x1]), np.sum(a for a in [x0]) if False else 0
#---
import numpy as np
out = np.array([x0, x1]).mean(), np.array([x0,x1]).prod(), np.array([x0,x1]).min(), np.array([x0,x1]).clip(0,1)
#---
import numpy as np
out = np.array(list(map(lambda a: a > 1, [x0, x1])))
#---
import numpy as np
out = np.concatenate([np.array([x0]), np.zeros(2), [1]])
#---
import numpy as np
b = np.array([[x0, 1],[0, x1]]); out = b[np.arange(2), [0,1]], b.any(axis=1), b.all(axis=0), (b > 0).sum(axis=1)
#---
import numpy as np
b = np.array([[x0, 1],[0, x1]]); out = np.sum(b, axis=1), np.max(b, axis=0), b.max(axis=1), np.min(b)
#---
import numpy as np
b = np.array([[x0, 1],[0, x1]]); out = np.nonzero(b), np.argwhere(b > 0), np.allclose(b, b), b.trace()
