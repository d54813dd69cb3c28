"""Model of pydata-sparse 0.19 COO arrays over symbolic entries.

Contract modelled: same algebra as the dense array; sparse@sparse is sparse, sparse@dense is dense;
implicit densification (np.array / np.asarray of a COO, or of a list of COO) raises RuntimeError.
"""
import numpy as np
from . import arr
from .arr import to_obj, wrap, SymArray, join
from .core import Unsupported, Sym, SBool


class SparseArray:
    pass


class COO(SparseArray):
    sparse_matmul = True
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, coords, data=None, shape=None, **kw):
        if isinstance(coords, COO):
            self.d = coords.d
        elif data is not None:
            if shape is None:
                raise Unsupported("COO without shape")
            o = arr.zeros_(shape, dtype=complex)
            cs = [np.asarray(arr.to_numeric(to_obj(c)), dtype=int) for c in coords]
            ds = to_obj(data)
            for t in range(len(cs[0])):
                idx = tuple(int(c[t]) for c in cs)
                o[idx] = o[idx] + ds[t if ds.ndim else ()]
            self.d = o
        else:
            self.d = to_obj(coords)

    @classmethod
    def from_numpy(cls, x, **kw):
        return cls(x)

    def refuse_densify(self):
        raise RuntimeError("Cannot convert a sparse array to dense automatically. To manually densify, "
                           "use the todense method.")

    def __array__(self, *a, **k):
        self.refuse_densify()

    def tocsr(self):
        from .spmodel import Csr
        if self.d.ndim != 2:
            raise ValueError('This operation can only be performed on 2-dimensional arrays')
        return Csr(self.d, 'csr')

    def to_scipy_sparse(self, *a, **k):
        return self.tocsr().tocoo()

    def tocsc(self):
        return self.tocsr().tocsc()

    def __getattr__(self, n):
        if n.startswith('_uf_'):
            name = n[4:]

            def f(*a, **k):
                r = arr.call_ufunc(getattr(np, name), self.d, *[x.d if isinstance(x, COO) else x for x in a], **k)
                return COO(r)
            return f
        raise AttributeError(n)

    shape = property(lambda s: s.d.shape)
    ndim = property(lambda s: s.d.ndim)
    size = property(lambda s: s.d.size)
    dtype = property(lambda s: np.dtype({'f': float, 'c': complex, 'i': int, 'b': bool, 'O': object}[s.d.kind]))
    T = property(lambda s: COO(s.d.T))
    H = property(lambda s: COO(s.d.T.conj()))
    real = property(lambda s: COO(s.d.real))
    imag = property(lambda s: COO(s.d.imag))
    fill_value = 0

    def conj(self):
        return COO(self.d.conj())
    conjugate = conj

    def transpose(self, axes=None):
        return COO(wrap(np.transpose(self.d.base_view(), axes), self.d.kind))

    def swapaxes(self, a, b):
        return COO(wrap(np.swapaxes(self.d.base_view(), a, b), self.d.kind))

    def reshape(self, *shape, **k):
        shape = shape[0] if len(shape) == 1 else shape
        return COO(wrap(self.d.base_view().reshape(shape), self.d.kind))

    def astype(self, dt, **k):
        return COO(self.d.astype(dt))

    def todense(self):
        return self.d.copy()

    def copy(self, deep=True):
        return COO(self.d.copy() if deep else self.d)

    def enable_caching(self):
        return self

    def __len__(self):
        return len(self.d)

    def __getitem__(self, k):
        r = self.d[k]
        return COO(r) if isinstance(r, SymArray) else r

    def __setitem__(self, k, v):
        raise TypeError("'COO' object does not support item assignment")

    def __iter__(self):
        for i in range(len(self.d)):
            yield self[i]

    def dot(self, o):
        if isinstance(o, COO):
            r = arr.dot_(self.d, o.d)
            return COO(r) if isinstance(r, SymArray) else r
        return arr.dot_(self.d, o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def _ew(self, o, op, rev=False):
        ov = o.d if isinstance(o, COO) else o
        if isinstance(ov, (list, tuple)):
            return NotImplemented
        a, b = (ov, self.d) if rev else (self.d, ov)
        r = arr.call_ufunc(op, a, b)
        return COO(r)

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim and not isinstance(o, COO):
            return arr.call_ufunc(np.add, self.d, o)
        return self._ew(o, np.add)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return arr.call_ufunc(np.subtract, self.d, o)
        return self._ew(o, np.subtract)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return arr.call_ufunc(np.subtract, o, self.d)
        return self._ew(o, np.subtract, True)

    def __mul__(self, o):
        return self._ew(o, np.multiply)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._ew(o, np.true_divide)

    def __neg__(self):
        return COO(-self.d)

    def __abs__(self):
        return COO(arr.call_ufunc(np.absolute, self.d))

    def __pow__(self, n):
        return COO(self.d ** n)

    def _cmp(self, o, op):
        return COO(arr.call_ufunc(op, self.d, o.d if isinstance(o, COO) else o))

    def __eq__(self, o):
        return self._cmp(o, np.equal)

    def __ne__(self, o):
        return self._cmp(o, np.not_equal)

    def __lt__(self, o):
        return self._cmp(o, np.less)

    def __gt__(self, o):
        return self._cmp(o, np.greater)
    __hash__ = None

    def sum(self, axis=None, **k):
        return self.sparse_sum(axis)

    def sparse_sum(self, axis=None):
        r = arr.sum_(self.d, axis=axis)
        return COO(r) if isinstance(r, SymArray) else r

    def sparse_trace(self, offset=0, axis1=0, axis2=1):
        raise TypeError("no implementation found for 'numpy.trace' on types that implement "
                        "__array_function__: [<class 'sparse.COO'>]")

    def all(self, axis=None):
        return self.d.all(axis)

    def any(self, axis=None):
        return self.d.any(axis)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        if name == 'sum':
            return self.sparse_sum(*[a for a in args[1:]], **{k: v for k, v in kwargs.items() if k == 'axis'})
        if name == 'kron':
            return kron(*args)
        if name == 'tensordot':
            return tensordot(*args, **kwargs)
        if name in ('conj', 'conjugate'):
            return self.conj()
        if name == 'transpose':
            return self.transpose(*args[1:], **kwargs)
        if name == 'reshape':
            return self.reshape(*args[1:])
        if name in ('dot', 'matmul'):
            return matmul(*args)
        if name in ('concatenate', 'stack'):
            return globals()[name](*args, **kwargs)
        if name == 'einsum':
            return einsum(*args, **kwargs)
        if name in ('array', 'asarray'):
            self.refuse_densify()
        raise Unsupported("numpy.%s on a sparse array" % name)


def _d(x):
    return x.d if isinstance(x, COO) else to_obj(x)


def matmul(a, b):
    r = arr.matmul_(_d(a), _d(b))
    if isinstance(a, COO) and isinstance(b, COO):
        return COO(r) if isinstance(r, SymArray) else r
    return r


def dot(a, b):
    r = arr.dot_(_d(a), _d(b))
    if isinstance(a, COO) and isinstance(b, COO):
        return COO(r) if isinstance(r, SymArray) else r
    return r


def kron(a, b):
    if not isinstance(a, COO) and not isinstance(b, COO):
        raise ValueError("Performing this operation would produce a dense result: kron")
    return COO(arr.kron_(_d(a), _d(b)))


def tensordot(a, b, axes=2, return_type=None):
    r = arr.tensordot_(_d(a), _d(b), axes)
    if isinstance(a, COO) and isinstance(b, COO):
        return COO(r) if isinstance(r, SymArray) else r
    return r


def einsum(sub, *ops, **kw):
    r = arr.einsum_(sub, *[_d(o) for o in ops], **kw)
    if all(isinstance(o, COO) for o in ops):
        return COO(r) if isinstance(r, SymArray) else r
    return r


def stack(arrs, axis=0, **k):
    return COO(wrap(np.stack([_d(a).base_view() for a in arrs], axis=axis), join(*[_d(a).kind for a in arrs])))


def concatenate(arrs, axis=0, **k):
    return COO(wrap(np.concatenate([_d(a).base_view() for a in arrs], axis=axis), join(*[_d(a).kind for a in arrs])))


def asCOO(x, **k):
    return x if isinstance(x, COO) else COO(x)


as_coo = asCOO


def eye(n, *a, **k):
    return COO(arr.eye_(n))


def zeros(shape, dtype=float, **k):
    return COO(arr.zeros_(shape, dtype))


TABLE = {'COO': COO, 'SparseArray': SparseArray, 'kron': kron, 'tensordot': tensordot, 'matmul': matmul, 'dot': dot,
         'einsum': einsum, 'stack': stack, 'concatenate': concatenate, 'as_coo': as_coo, 'asCOO': asCOO}
