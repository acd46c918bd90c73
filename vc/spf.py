"""scipy.sparse facade: dense object matrices with the sparse interface used by the code under verification"""
import numpy as np
from fractions import Fraction
import scipy.sparse as sp
from .symarr import *
from . import symarr as S

class SpM:
    __array_priority__ = 60.0
    __array_ufunc__ = None
    def __init__(self, a): self.a = S.plain(a).view(OA)      # 2-D
    @property
    def shape(self): return self.a.shape
    def dot(self, o):
        if isinstance(o, SpM): return SpM(S.f_dot(self.a, o.a))
        return S.f_dot(self.a, o)
    __matmul__ = dot
    def __mul__(self, o):
        if isinstance(o, SpM): return SpM(S.f_dot(self.a, o.a))
        if np.shape(o) == () or S.is_sym(o): return SpM(self.a * o)
        if np.size(o) == 1: return SpM(self.a * S.scalar_of(o))
        return S.f_dot(self.a, o)
    def __rmul__(self, o): return SpM(self.a * (S.scalar_of(o) if np.size(o) == 1 else o))
    def multiply(self, o): return SpM(self.a * (o.a if isinstance(o, SpM) else o))
    def __truediv__(self, o): return SpM(self.a / o)
    def __add__(self, o): return SpM(self.a + o.a)
    def __sub__(self, o): return SpM(self.a - o.a)
    def __neg__(self): return SpM(-self.a)
    def __getitem__(self, k):
        r = self.a[k]
        if isinstance(r, np.ndarray) and r.ndim == 1: r = r.reshape(1, -1) if isinstance(k, int) or isinstance(k, tuple) and isinstance(k[0], int) else r.reshape(-1, 1)
        return SpM(r) if isinstance(r, np.ndarray) else r
    def __setitem__(self, k, v): self.a[k] = v.a if isinstance(v, SpM) else v
    def toarray(self): return self.a.copy()
    todense = toarray
    @property
    def A(self): return self.a.copy()
    def tocsr(self, *a, **k): return self
    tocsc = tocoo = tolil = copy = tocsr
    def asformat(self, *a, **k): return self
    todia = tobsr = todok = tocsr
    def getrow(self, i): return SpM(self.a[[int(i)], :])
    def getcol(self, i): return SpM(self.a[:, [int(i)]])
    def getnnz(self, *a): return self.nnz
    @property
    def format(self): return "csr"
    def _nz(self):
        m = self.a.view(np.ndarray)
        return [(i, j) for i in range(m.shape[0]) for j in range(m.shape[1]) if m[i, j] is not ZERO]
    def nonzero(self):
        z = self._nz(); return np.array([i for i, _ in z], dtype=int), np.array([j for _, j in z], dtype=int)
    @property
    def row(self): return self.nonzero()[0]
    @property
    def col(self): return self.nonzero()[1]
    @property
    def data(self): return S.f_array([self.a.view(np.ndarray)[i, j] for i, j in self._nz()])
    @property
    def nnz(self): return len(self._nz())
    @property
    def T(self): return SpM(self.a.T)
    def transpose(self): return self.T
    def diagonal(self): return S.f_diag(self.a)
    def sum(self, axis=None): return np.sum(self.a, axis=axis)
    def eliminate_zeros(self): pass
    def sort_indices(self): pass

def mk(arg, shape=None, dtype=None, **k):
    if isinstance(arg, SpM): return SpM(arg.a.copy())
    if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list)) and len(arg[1]) == 2:
        data, (r, c) = arg
        r = [int(x) for x in S.plain(r).ravel().tolist()]; c = [int(x) for x in S.plain(c).ravel().tolist()]
        data = S.plain(S.f_asarray(data)).ravel().tolist() if not np.shape(data) == () else [S.L(data)] * len(r)
        if shape is None: shape = (max(r) + 1, max(c) + 1)
        m = np.empty(shape, object); m.fill(ZERO)
        for i, j, d in zip(r, c, data): m[i, j] = m[i, j] + d
        return SpM(m)
    if isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(x, (int, np.integer)) for x in arg):
        m = np.empty(arg, object); m.fill(ZERO); return SpM(m)
    if sp.issparse(arg): return SpM(arg.toarray())
    a = S.plain(S.f_asarray(arg))
    return SpM(a if a.ndim == 2 else a.reshape(1, -1))

class _SPF:
    csr_matrix = staticmethod(mk); csc_matrix = staticmethod(mk); coo_matrix = staticmethod(mk); lil_matrix = staticmethod(mk); csr_array = staticmethod(mk)
    @staticmethod
    def issparse(x): return isinstance(x, SpM)
    @staticmethod
    def eye(n, m=None, k=0, **kw): return SpM(np.eye(n, m, k))
    identity = eye
    @staticmethod
    def diags(d, offsets=0, shape=None, format=None, dtype=None, **k):
        """as scipy.sparse.diags: a diagonal longer than its place is truncated, a one-element diagonal is repeated"""
        if np.isscalar(offsets):
            if not len(d) or np.ndim(d[0]) == 0: d = [d]; offsets = [offsets]
            else: raise ValueError("Different number of diagonals and offsets.")
        d = [S.plain(S.f_atleast_1d(x)).tolist() for x in d]
        if len(d) != len(offsets): raise ValueError("Different number of diagonals and offsets.")
        if shape is None: n = len(d[0]) + abs(int(offsets[0])); shape = (n, n)
        M, N = shape
        m = np.empty(shape, object); m.fill(ZERO)
        for j, (x, o) in enumerate(zip(d, offsets)):
            ln = min(M + o, N - o, min(M, N))
            if ln < 0: raise ValueError("Offset %d (index %d) out of bounds" % (o, j))
            x = x[:ln]
            if len(x) not in (1, ln): raise ValueError("Diagonal length (index %d: %d at offset %d) does not agree with array size" % (j, len(x), o))
            for t in range(ln): m[t - min(o, 0), t + max(o, 0)] = x[t] if len(x) > 1 else x[0]
        return SpM(m)
    @staticmethod
    def block_diag(ms, format=None, dtype=None):
        ms = [m if isinstance(m, SpM) else mk(m) for m in ms]
        R = sum(m.shape[0] for m in ms); Cc = sum(m.shape[1] for m in ms)
        o = np.empty((R, Cc), object); o.fill(ZERO); r = c = 0
        for m in ms:
            o[r:r + m.shape[0], c:c + m.shape[1]] = m.a.view(np.ndarray); r += m.shape[0]; c += m.shape[1]
        return SpM(o)
    @staticmethod
    def bmat(blocks, format=None, dtype=None):
        blocks = [[None if b is None else (b if isinstance(b, SpM) else mk(b)) for b in row] for row in blocks]
        hs = [next(b.shape[0] for b in row if b is not None) for row in blocks]
        ws = [next(row[j].shape[1] for row in blocks if row[j] is not None) for j in range(len(blocks[0]))]
        o = np.empty((sum(hs), sum(ws)), object); o.fill(ZERO); r = 0
        for row, h in zip(blocks, hs):
            c = 0
            for b, w in zip(row, ws):
                if b is not None: o[r:r + h, c:c + w] = b.a.view(np.ndarray)
                c += w
            r += h
        return SpM(o)
    @staticmethod
    def hstack(ms, **k): return _SPF.bmat([list(ms)])
    @staticmethod
    def vstack(ms, **k): return _SPF.bmat([[m] for m in ms])
    class linalg:
        @staticmethod
        def inv(m):
            """inverse of a constant matrix, exact over the rationals (singular: error)"""
            a = m.a.view(np.ndarray); n = a.shape[0]
            if any(not (isinstance(t, Term) and t.op == "c") for t in a.ravel()): raise Unsupported("inverse of a symbolic matrix")
            A = [[t.args[0] for t in row] + [F0 if i != j else F1 for j in range(n)] for i, row in enumerate(a.tolist())]
            for c in range(n):
                p = next((r for r in range(c, n) if A[r][c] != 0), None)
                if p is None: raise RuntimeError("Factor is exactly singular")
                A[c], A[p] = A[p], A[c]
                k = A[c][c]; A[c] = [x / k for x in A[c]]
                for r in range(n):
                    if r != c and A[r][c] != 0:
                        k = A[r][c]; A[r] = [x - k * y for x, y in zip(A[r], A[c])]
            o = np.empty((n, n), object)
            for i in range(n):
                for j in range(n): o[i, j] = C(A[i][n + j])
            return SpM(o)
    def __getattr__(self, n): raise Unsupported("scipy.sparse." + n)
F0, F1 = Fraction(0), Fraction(1)
SPF = _SPF()
