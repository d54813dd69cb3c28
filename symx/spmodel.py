"""Model of scipy.sparse matrices over symbolic entries: the algebra of the dense matrix (values, not storage)."""
import numpy as np
from . import arr
from .arr import to_obj, wrap
from .core import Unsupported


class Csr:
    __array_priority__ = 10.1
    __array_ufunc__ = None

    def __init__(self, d, fmt='csr'):
        if isinstance(d, Csr):
            d = d.d
        elif hasattr(d, 'tocsr') and hasattr(d, 'toarray') and not isinstance(d, np.ndarray):
            d = d.toarray()
        elif hasattr(d, 'todense'):
            d = d.todense()
        d = to_obj(d)
        if d.ndim == 1:
            d = d.reshape((1, d.shape[0]))
        if d.ndim != 2:
            raise TypeError('expected dimension <= 2 array or matrix')
        self.d, self.format = d, fmt

    shape = property(lambda s: s.d.shape)
    ndim = 2
    size = nnz = property(lambda s: int(s.d.size))
    dtype = property(lambda s: np.dtype(complex))

    def _o(self, o):
        if isinstance(o, Csr):
            return o.d
        if hasattr(o, 'toarray') and hasattr(o, 'tocsr') and not isinstance(o, np.ndarray) and not hasattr(o, 'sparse_matmul'):
            return to_obj(o.toarray())
        if hasattr(o, 'sparse_matmul'):
            raise RuntimeError("Cannot convert a sparse array to dense automatically. To manually densify, use the todense method.")
        return None

    def dot(self, o):
        v = self._o(o)
        if v is not None:
            return Csr(arr.dot_(self.d, v))
        if isinstance(o, np.ndarray) or isinstance(o, (list, tuple)):
            return arr.dot_(self.d, to_obj(o))
        return Csr(self.d * o)
    __matmul__ = dot
    __mul__ = dot

    def __rmatmul__(self, o):
        return arr.dot_(to_obj(o), self.d)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return arr.dot_(to_obj(o), self.d)
        return Csr(self.d * o)

    def __truediv__(self, o):
        return Csr(self.d / o)

    def multiply(self, o):
        v = self._o(o)
        return Csr(self.d * (v if v is not None else o))

    def _add(self, o, f):
        v = self._o(o)
        if v is not None:
            if v.shape != self.shape:
                raise ValueError('inconsistent shapes')
            return Csr(f(self.d, v))
        if isinstance(o, np.ndarray) and o.ndim:
            return f(self.d, to_obj(o))
        if isinstance(o, (int, float, complex)) and o == 0:
            return Csr(self.d.copy())
        raise NotImplementedError('adding a nonzero scalar to a sparse matrix is not supported')

    def __add__(self, o):
        return self._add(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, lambda a, b: a - b)

    def __neg__(self):
        return Csr(-self.d)

    def __abs__(self):
        return Csr(arr.map_(lambda z: abs(z), self.d, 'f'))

    def __lt__(self, o):
        return Csr(self.d < o)

    def __le__(self, o):
        return Csr(self.d <= o)

    def __gt__(self, o):
        return Csr(self.d > o)

    def __ge__(self, o):
        return Csr(self.d >= o)

    def __eq__(self, o):
        v = self._o(o)
        return Csr(self.d == (v if v is not None else o))

    def __ne__(self, o):
        v = self._o(o)
        return Csr(self.d != (v if v is not None else o))
    __hash__ = None

    def __bool__(self):
        if self.d.size == 1:
            return bool(self.d.base_view().reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all().")

    def conj(self, copy=True):
        return Csr(self.d.conj(), self.format)
    conjugate = conj

    @property
    def T(self):
        return Csr(self.d.T)

    def transpose(self, axes=None, copy=False):
        return self.T

    def getH(self):
        return self.T.conj()
    H = property(getH)

    def reshape(self, *shape, order='C', copy=False):
        if len(shape) == 1 and not isinstance(shape[0], (int, np.integer)):
            shape = tuple(shape[0])
        v = self.d.base_view().reshape(tuple(int(s) for s in shape), order=order)
        return Csr(wrap(np.array(v, dtype=object), self.d.kind))

    def tocsr(self, copy=False):
        return Csr(self.d, 'csr')

    def tocoo(self, copy=False):
        return Csr(self.d, 'coo')

    def tocsc(self, copy=False):
        return Csr(self.d, 'csc')

    tolil = todok = asfptype = tocsr

    def asformat(self, f, copy=False):
        return Csr(self.d, f)

    def copy(self):
        return Csr(self.d.copy(), self.format)

    def toarray(self, *a, **k):
        return self.d.copy()
    todense = toarray
    A = property(toarray)

    def max(self, *a, **k):
        return arr.HANDLERS['max'](self.d) if 'max' in arr.HANDLERS else self.d.max()

    def min(self, *a, **k):
        return self.d.min()

    def sum(self, axis=None):
        return self.d.sum(axis)

    def trace(self):
        return self.d.trace()

    def diagonal(self):
        return self.d.diagonal()

    # coordinates of every entry, zeros included
    @property
    def row(self):
        return np.repeat(np.arange(self.shape[0]), self.shape[1])

    @property
    def col(self):
        return np.tile(np.arange(self.shape[1]), self.shape[0])

    @property
    def data(self):
        return self.d.reshape((self.d.size,))

    def nonzero(self):
        raise Unsupported('nonzero pattern of a sparse matrix')

    def __getitem__(self, k):
        r = self.d[k]
        return Csr(r) if isinstance(r, np.ndarray) and r.ndim == 2 else r

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('sparse matrix .%s' % name)


def is_sp(x):
    return isinstance(x, Csr)


def install(h, *modules):
    """replace the scipy.sparse functions and constants of the modules (symbolic runs only)"""
    import scipy.sparse as sp

    def kron(a, b, format=None):
        a, b = Csr(a), Csr(b)
        return Csr(arr.HANDLERS['kron'](a.d, b.d), format or 'bsr')

    def ctor(fmt):
        def f(x, shape=None, dtype=None, copy=False):
            if isinstance(x, tuple):
                return Csr(arr.zeros_(tuple(x))) if len(x) == 2 and isinstance(x[0], (int, np.integer)) else _raise()
            return Csr(x, fmt)
        return f

    def _raise():
        raise Unsupported('sparse constructor from coordinates')

    def stack(which):
        def f(blocks, format=None, dtype=None):
            return Csr(arr.HANDLERS[which]([Csr(b).d for b in blocks]))
        return f
    tab = {'kron': kron, 'csr_matrix': ctor('csr'), 'coo_matrix': ctor('coo'), 'csc_matrix': ctor('csc'),
           'identity': lambda n, dtype=None, format=None: Csr(arr.eye_(n)), 'eye': lambda n, *a, **k: Csr(arr.eye_(n)),
           'issparse': is_sp, 'isspmatrix': is_sp, 'isspmatrix_csr': lambda x: is_sp(x) and x.format == 'csr',
           'isspmatrix_coo': lambda x: is_sp(x) and x.format == 'coo', 'vstack': stack('vstack'), 'hstack': stack('hstack')}
    for m in modules:
        for k, v in list(m.__dict__.items()):
            if k.startswith('__'):
                continue
            if sp.issparse(v):
                h.patch(m, k, Csr(v.toarray()))
            elif callable(v) and getattr(v, '__module__', '').startswith('scipy.sparse') and getattr(v, '__name__', '') in tab:
                h.patch(m, k, tab[v.__name__])
            elif v is sp:
                h.patch(m, k, type('sparse', (), {a: staticmethod(b) for a, b in tab.items()}))
