"""dense stand-ins for scipy.sparse matrices (object entries)"""
import numpy as np
from . import shim


class SpMat:
    def __init__(self, a, shape=None, dtype=None):
        if isinstance(a, SpMat):
            self.a = a.a
        elif isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple):
            data, (r, c) = a
            r = np.asarray(r).astype(int); c = np.asarray(c).astype(int)
            if shape is None:
                shape = (int(r.max()) + 1, int(c.max()) + 1)
            self.a = shim.zeros(shim.toshape(shape))
            for d, i, j in zip(shim.lift_keep(data) if not isinstance(data, np.ndarray) else data, r, c):
                self.a[i, j] = self.a[i, j] + d
        elif isinstance(a, tuple) and len(a) == 2:
            self.a = shim.zeros(a)
        else:
            self.a = shim.lift_any(a) if not isinstance(a, np.ndarray) else shim.lift(a)
            if self.a.dtype != object:
                self.a = shim.lift(self.a.astype(float))

    @property
    def shape(self):
        return self.a.shape

    @property
    def T(self):
        return SpMat(self.a.T)

    @property
    def dtype(self):
        return self.a.dtype

    def transpose(self, *a, **k):
        return SpMat(self.a.T)

    def conj(self, *a, **k):
        return SpMat(shim.conj(self.a))
    conjugate = conj

    def getH(self):
        return SpMat(shim.conj(self.a.T))

    @property
    def real(self):
        return SpMat(shim.real(self.a))

    def tocsr(self, *a, **k):
        return self
    tocsc = tocoo = tocsr
    copy = tocsr

    def toarray(self, *a, **k):
        return self.a.copy()
    todense = toarray

    def dot(self, o):
        if isinstance(o, SpMat):
            return SpMat(shim.dot(self.a, o.a))
        return shim.dot(self.a, o)

    def __matmul__(self, o):
        return self.dot(o)

    def __rmatmul__(self, o):
        return shim.dot(o, self.a)

    def __mul__(self, o):
        if isinstance(o, (SpMat, np.ndarray)):
            return self.dot(o)
        return SpMat(self.a * o)

    def __rmul__(self, o):
        return SpMat(self.a * o)

    def __add__(self, o):
        return SpMat(self.a + (o.a if isinstance(o, SpMat) else o))

    def __sub__(self, o):
        return SpMat(self.a - (o.a if isinstance(o, SpMat) else o))

    def __getitem__(self, k):
        r = self.a[k]
        return SpMat(r) if isinstance(r, np.ndarray) and r.ndim == 2 else r

    def diagonal(self):
        return np.diag(self.a)

    @property
    def nnz(self):
        return int(np.sum([bool(x != 0) for x in self.a.reshape(-1)]))

    @property
    def data(self):
        return np.array([x for x in self.a.reshape(-1) if bool(x != 0)], dtype=object)


coo_matrix = csr_matrix = csc_matrix = SpMat


def issparse(x):
    return isinstance(x, SpMat)


def block_diag(ms, format=None, **k):
    return SpMat(shim.block_diag(*[m.a if isinstance(m, SpMat) else m for m in ms]))
