"""Object-dtype ndarray subclass and the numpy stand-in given to the modules under test.

Creation functions return `SymArray` (object dtype plus a logical kind: f, c, i, b), so that entries
may be symbolic; every other numpy function either runs natively on object arrays, or has a handler
here, or (when all entries are constants) is run on the converted numeric arrays.
"""
import builtins, math, operator, itertools
import numpy as np
import z3
from .core import Sym, SBool, E, A, Unsupported, _num, poly_of, mk

SYM = (Sym, SBool)
_obj = np.dtype(object)


def is_symbolic(x, depth=3):
    if isinstance(x, SYM):
        return True
    if isinstance(x, SymArray):
        return any(isinstance(v, SYM) for v in x.base_view().flat)
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, SYM) for v in x.flat)
    if isinstance(x, (list, tuple)) and depth:
        return any(is_symbolic(v, depth - 1) for v in x)
    return False


def has_sa(x, depth=3):
    """mentions a SymArray or a symbolic scalar"""
    if isinstance(x, SYM) or isinstance(x, SymArray):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth:
        return any(has_sa(v, depth - 1) for v in x)
    return False


def kind_of_scalar(v):
    if isinstance(v, SBool) or isinstance(v, (bool, np.bool_)):
        return 'b'
    if isinstance(v, Sym):
        from .core import _allbits
        if _allbits(v.p):
            return 'i'
        return 'f' if v.is_real() else 'c'
    if isinstance(v, (int, np.integer)):
        return 'i'
    if isinstance(v, (float, np.floating)):
        return 'f'
    if isinstance(v, (complex, np.complexfloating)):
        return 'c'
    return 'O'


_RANK = 'bifcO'


def join(*ks):
    return max(ks, key=_RANK.index) if ks else 'f'


def kind_of_dtype(dt):
    if dt is None:
        return None
    if dt in (builtins.float, FloatShim):
        return 'f'
    if dt in (builtins.complex, ComplexShim):
        return 'c'
    if dt in (builtins.int, IntShim):
        return 'i'
    if dt in (builtins.bool,):
        return 'b'
    if dt is object:
        return 'O'
    k = np.dtype(dt).kind
    return {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O'}.get(k, None)


def kind_of(x):
    if isinstance(x, SymArray):
        return x.kind
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            ks = [kind_of_scalar(v) for v in x.flat]
            return join(*ks) if ks else 'O'
        return kind_of_dtype(x.dtype) or 'O'
    if isinstance(x, (list, tuple)):
        return join(*[kind_of(v) for v in x]) if len(x) else 'f'
    return kind_of_scalar(x)


def np_scalar(v, kind):
    if isinstance(v, SYM):
        return v
    if kind == 'f' and isinstance(v, (int, float)):
        return np.float64(v)
    if kind == 'c' and isinstance(v, (int, float, complex)):
        return np.complex128(v)
    if kind == 'i' and isinstance(v, (int, float)) and not isinstance(v, bool):
        return np.int64(v)
    if kind == 'b' and isinstance(v, (bool, int)):
        return np.bool_(v)
    return v


def conv_scalar(v, kind):
    """value v stored into an array of the given kind"""
    if isinstance(v, SymArray) or isinstance(v, np.ndarray):
        v = v.item() if v.ndim == 0 or v.size == 1 else v
    if isinstance(v, SBool):
        return v if kind in 'bO' else v.as_sym()
    if isinstance(v, Sym):
        if kind == 'f' and not v.is_real():
            return v.real       # numpy drops the imaginary part (ComplexWarning)
        if kind == 'i':
            from .core import _allbits
            if not _allbits(v.p):
                raise Unsupported("real symbolic value stored in an integer array")
        if kind == 'b':
            return v != 0
        return v
    n = _num(v)
    if n is None:
        return v
    if kind == 'f' and isinstance(n, complex):
        return n.real
    if kind == 'i':
        return int(n.real if isinstance(n, complex) else n)
    if kind == 'b':
        return bool(n)
    return n


class SymArray(np.ndarray):
    kind = 'O'

    def __array_finalize__(self, obj):
        if obj is not None and isinstance(obj, SymArray):
            self.kind = obj.kind

    # -- raw access
    def base_view(self):
        return self.view(np.ndarray)

    def __reduce__(self):
        raise Unsupported("pickling of a symbolic array")

    def __getitem__(self, key):
        key = conv_index(key)
        r = self.base_view()[key]
        if isinstance(r, np.ndarray):
            r = r.view(SymArray)
            r.kind = self.kind
            return r
        return np_scalar(r, self.kind)

    def __setitem__(self, key, val):
        key = conv_index(key)
        k = self.kind
        if isinstance(val, np.ndarray) or isinstance(val, (list, tuple)):
            v = to_obj(val)
            if v.dtype == object and v.size:
                flat = [conv_scalar(x, k) for x in v.base_view().flat] if isinstance(v, SymArray) \
                    else [conv_scalar(x, k) for x in v.flat]
                o = np.empty(len(flat), dtype=object)
                for i, x in enumerate(flat):
                    o[i] = x
                v = o.reshape(v.shape)
            self.base_view()[key] = v
        elif hasattr(val, 'todense'):
            raise Unsupported("sparse stored into dense")
        else:
            self.base_view()[key] = conv_scalar(val, k)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def item(self, *a):
        return self.base_view().item(*a)

    def __bool__(self):
        if self.size == 1:
            return bool(self.base_view().flat[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __contains__(self, v):
        return bool(any_(elementwise2(operator.eq, self, v)))

    def __float__(self):
        return float(np_scalar(self.item(), self.kind))

    def __complex__(self):
        return complex(self.item())

    def __int__(self):
        return int(self.item())

    # -- complex views
    @property
    def real(self):
        return map_(lambda v: v.real if not isinstance(v, SBool) else v, self, 'f' if self.kind == 'c' else self.kind)

    @property
    def imag(self):
        return map_(lambda v: v.imag if not isinstance(v, SBool) else 0, self, 'f' if self.kind == 'c' else self.kind)

    def conj(self):
        return map_(_conj, self)

    conjugate = conj

    @property
    def H(self):
        return self.conj().T

    def astype(self, dt, *a, **k):
        kk = kind_of_dtype(dt)
        if kk is None:
            if self.kind in 'if' and np.dtype(dt).kind in 'SU':
                return np.array([str(np_scalar(v, self.kind)) for v in self.base_view().flat]).reshape(self.shape)
            raise Unsupported("astype(%r)" % (dt,))
        return map_(lambda v: conv_scalar(v, kk), self, kk)

    def copy(self, order='C'):
        r = self.base_view().copy().view(SymArray)
        r.kind = self.kind
        return r

    def tolist(self):
        return self.base_view().tolist()

    def all(self, axis=None, out=None, keepdims=False):
        return all_(self, axis)

    def any(self, axis=None, out=None, keepdims=False):
        return any_(self, axis)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return sum_(self, axis=axis, dtype=dtype, keepdims=keepdims)

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / float(n)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return trace_(self, offset, axis1, axis2)

    def max(self, axis=None, **kw):
        return extremum(self, axis, operator.gt)

    def min(self, axis=None, **kw):
        return extremum(self, axis, operator.lt)

    def clip(self, lo=None, hi=None, **kw):
        return clip_(self, lo, hi)

    def prod(self, axis=None, **kw):
        return prod_(self, axis)

    def argmax(self, axis=None, **kw):
        return argext(self, axis, operator.gt)

    def argmin(self, axis=None, **kw):
        return argext(self, axis, operator.lt)

    def nonzero(self):
        return nonzero_(self)

    def dot(self, o, out=None):
        return dot_(self, o)

    def round(self, *a, **k):
        return fallback_const(np.round, (self,) + a, k)

    # -- protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        if method == '__call__':
            r = call_ufunc(ufunc, *inputs, **kw)
        elif method == 'reduce':
            r = reduce_ufunc(ufunc, inputs[0], **kw)
        elif method == 'outer':
            a, b = to_obj(inputs[0]), to_obj(inputs[1])
            r = call_ufunc(ufunc, a.reshape(a.shape + (1,) * b.ndim), b)
        elif method == 'accumulate':
            a = to_obj(inputs[0])
            r = wrap(getattr(ufunc, method)(np.asarray(a.base_view()), **kw), a.kind)
        else:
            raise Unsupported("ufunc method %s.%s" % (ufunc.__name__, method))
        if out is not None:
            o = out[0]
            if isinstance(o, SymArray):
                if kind_of(r) == 'c' and o.kind in 'fi':
                    raise np.core._exceptions._UFuncOutputCastingError(
                        ufunc, 'same_kind', np.dtype(complex), np.dtype(float), 0)
                o[...] = r
            else:
                if is_symbolic(r):
                    raise Unsupported("symbolic values accumulated into a numeric array")
                o[...] = to_numeric(r)
            return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        h = HANDLERS.get(func.__name__ if not (getattr(func, '__module__', '') or '').startswith('numpy.linalg')
                         else 'linalg.' + func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        return generic(func, args, kwargs)


def _conj(v):
    if isinstance(v, SBool):
        return v
    return v.conjugate()


def conv_index(key):
    if isinstance(key, tuple):
        return tuple(conv_index1(k) for k in key)
    return conv_index1(key)


def conv_index1(k):
    if isinstance(k, SymArray):
        if k.ndim == 0:
            return conv_index1(k.item())
        if any(isinstance(v, SBool) for v in k.base_view().flat) or k.kind == 'b':
            return np.array([bool(v) for v in k.base_view().flat], dtype=bool).reshape(k.shape)
        return np.array([int(v) for v in k.base_view().flat], dtype=int).reshape(k.shape)
    if isinstance(k, SBool):
        return bool(k)
    if isinstance(k, Sym):
        return int(k)
    if isinstance(k, list):
        return [conv_index1(v) for v in k]
    if isinstance(k, float) and k == int(k):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and "
                         "integer or boolean arrays are valid indices")
    return k


# ------------------------------------------------------------------------------------------------
def wrap(x, kind=None):
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            k = kind_of_dtype(x.dtype)
            o = np.empty(x.shape, dtype=object)
            if x.size:
                if k == 'c':
                    o[...] = x
                    fl = o.reshape(-1)
                    for i, v in enumerate(x.reshape(-1)):
                        fl[i] = _num(v)
                    o = fl.reshape(x.shape)
                else:
                    fl = o.reshape(-1)
                    for i, v in enumerate(x.reshape(-1)):
                        fl[i] = bool(v) if k == 'b' else _num(v)
                    o = fl.reshape(x.shape)
            r = o.view(SymArray)
            r.kind = k or 'O'
            return r
        r = x.view(SymArray)
        r.kind = kind if kind is not None else kind_of(np.asarray(x))
        return r
    return x


def to_obj(x, kind=None):
    """SymArray from array-like (no copy when already a SymArray)"""
    if isinstance(x, Extremum):
        x = x.resolve()
    if isinstance(x, SymArray):
        return x
    if hasattr(x, 'todense') and not isinstance(x, np.ndarray):
        if hasattr(x, 'refuse_densify'):
            x.refuse_densify()
        x = x.todense()
        return to_obj(np.asarray(x) if not isinstance(x, SymArray) else x)
    if isinstance(x, np.ndarray):
        return wrap(x, kind)
    if isinstance(x, SYM):
        o = np.empty((), dtype=object)
        o[()] = x
        return wrap(o, kind or kind_of_scalar(x))
    if isinstance(x, (list, tuple)):
        return from_list(x, kind)
    if isinstance(x, (range,)):
        return from_list(list(x), kind)
    n = _num(x)
    if n is not None:
        o = np.empty((), dtype=object)
        o[()] = n
        return wrap(o, kind or kind_of_scalar(x))
    return wrap(np.asarray(x), kind)


def from_list(x, kind=None):
    x = list(x)
    if len(x) == 0:
        return wrap(np.empty((0,), dtype=object), kind or 'f')
    subs = []
    scal = True
    for v in x:
        if isinstance(v, (list, tuple, range)) or (isinstance(v, np.ndarray)) or hasattr(v, 'todense'):
            scal = False
            break
    if scal:
        o = np.empty((len(x),), dtype=object)
        for i, v in enumerate(x):
            n = v if isinstance(v, SYM) else _num(v)
            if isinstance(v, (bool, np.bool_)):
                n = bool(v)
            o[i] = v if n is None else n
        return wrap(o, kind or join(*[kind_of_scalar(v) for v in x]))
    subs = [to_obj(v) for v in x]
    shp = subs[0].shape
    if any(s.shape != shp for s in subs):
        raise ValueError("setting an array element with a sequence. The requested array has an "
                         "inhomogeneous shape after 1 dimensions.")
    o = np.empty((len(x),) + shp, dtype=object)
    for i, s in enumerate(subs):
        o[i] = s.base_view() if s.ndim else s.item()
    return wrap(o, kind or join(*[s.kind for s in subs]))


def to_numeric(x):
    """numeric numpy array from a SymArray (or nested list) whose entries are all constants"""
    if isinstance(x, SymArray):
        dt = {'f': float, 'c': complex, 'i': int, 'b': bool}.get(x.kind)
        vals = [v for v in x.base_view().flat]
        if any(isinstance(v, SYM) for v in vals):
            raise Unsupported("numeric value of a symbolic array")
        if dt is None:
            dt = complex if any(isinstance(v, complex) for v in vals) else float
        if dt in (float,) and any(isinstance(v, complex) for v in vals):
            dt = complex
        return np.array(vals, dtype=dt).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return type(x)(to_numeric(v) for v in x)
    return x


def map_(f, x, kind=None):
    x = to_obj(x)
    o = np.empty(x.shape, dtype=object)
    src = x.base_view()
    if x.ndim == 0:
        o[()] = f(src.item())
    else:
        fl = [f(v) for v in src.flat]
        of = np.empty(len(fl), dtype=object)
        for i, v in enumerate(fl):
            of[i] = v
        o = of.reshape(x.shape)
    return wrap(o, kind if kind is not None else x.kind)


def elementwise2(f, a, b, kind=None):
    a, b = to_obj(a), to_obj(b)
    av, bv = np.broadcast_arrays(a.base_view(), b.base_view())
    fl = [f(x, y) for x, y in zip(av.flat, bv.flat)]
    if av.ndim == 0:
        return fl[0]
    of = np.empty(len(fl), dtype=object)
    for i, v in enumerate(fl):
        of[i] = v
    return wrap(of.reshape(av.shape), kind)


def _logical(f):
    def g(x, y):
        x = x if isinstance(x, SBool) else (x != 0)
        y = y if isinstance(y, SBool) else (y != 0)
        return f(x, y)
    return g


def _and(x, y):
    if isinstance(x, SBool):
        return x & y
    return y if x else False


def _or(x, y):
    if isinstance(x, SBool):
        return x | y
    return True if x else y


def _not(x):
    if isinstance(x, SBool):
        return ~x
    r = (x != 0)
    return ~r if isinstance(r, SBool) else (not r)


def _xorb(x, y):
    if isinstance(x, SBool):
        return x ^ y
    if isinstance(y, SBool):
        return y ^ x
    return bool(x) != bool(y)


def _abs(v):
    return abs(v)


def _sqrt(v):
    if isinstance(v, Sym):
        return v.sqrt()
    if isinstance(v, complex):
        return v ** 0.5
    if v < 0:
        return float('nan')
    return math.sqrt(v)


def _log2(v):
    if isinstance(v, Sym):
        return v.log2()
    return float(np.log2(v))


def _u(name):
    def f(v):
        if isinstance(v, Sym):
            return getattr(v, name)()
        return _num(getattr(np, name)(v))
    return f


UNARY = {'absolute': (_abs, 'abs'), 'fabs': (_abs, 'f'), 'conjugate': (_conj, None), 'sqrt': (_sqrt, 'sqrt'),
         'log2': (_log2, 'f'), 'log': (_u('log'), 'f'), 'cos': (_u('cos'), 'f'), 'sin': (_u('sin'), 'f'),
         'exp': (_u('exp'), None), 'square': (lambda v: v * v, None), 'negative': (lambda v: -v, None),
         'positive': (lambda v: v, None), 'logical_not': (_not, 'b'),
         'invert': (lambda v: ~v if isinstance(v, SBool) else (not v if isinstance(v, bool) else ~v), None),
         'isnan': (lambda v: False if isinstance(v, SYM) else v != v, 'b'),
         'isfinite': (lambda v: True if isinstance(v, SYM) else bool(np.isfinite(v)), 'b'),
         'isinf': (lambda v: False if isinstance(v, SYM) else bool(np.isinf(v)), 'b'),
         'reciprocal': (lambda v: 1 / v, None), 'sign': (lambda v: 1. if v > 0 else (-1. if v < 0 else 0.), None)}


def _min2(x, y):
    c = x <= y
    return x if c else y


def _max2(x, y):
    c = x >= y
    return x if c else y


def _div(x, y):
    if not isinstance(x, SYM) and not isinstance(y, SYM):
        with np.errstate(all='ignore'):
            return _num(np.true_divide(x, y))
    return x / y


def _pow(x, y):
    if not isinstance(x, SYM) and not isinstance(y, SYM):
        return _num(np.power(complex(x) if isinstance(x, complex) else (float(x) if y < 0 or isinstance(y, float) else x), y))
    return x ** y


BINARY = {'equal': (operator.eq, 'b'), 'not_equal': (operator.ne, 'b'), 'less': (operator.lt, 'b'),
          'less_equal': (operator.le, 'b'), 'greater': (operator.gt, 'b'), 'greater_equal': (operator.ge, 'b'),
          'logical_and': (_logical(_and), 'b'), 'logical_or': (_logical(_or), 'b'),
          'logical_xor': (_logical(_xorb), 'b'), 'minimum': (_min2, None), 'maximum': (_max2, None),
          'true_divide': (_div, 'div'), 'divide': (_div, 'div'), 'power': (_pow, None),
          'add': (operator.add, None), 'subtract': (operator.sub, None), 'multiply': (operator.mul, None),
          'remainder': (lambda x, y: x % y, None), 'mod': (lambda x, y: x % y, None),
          'fmod': (lambda x, y: x % y, None),
          'floor_divide': (lambda x, y: x // y, None), 'float_power': (_pow, None),
          'hypot': (lambda x, y: _sqrt(x * x + y * y), None),
          'bitwise_xor': (lambda x, y: x ^ y, None), 'bitwise_and': (lambda x, y: x & y, None),
          'bitwise_or': (lambda x, y: x | y, None)}


def call_ufunc(ufunc, *inputs, **kw):
    name = ufunc.__name__
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('subok', None)
    kw.pop('order', None)
    where = kw.pop('where', True)
    if where is not True or kw:
        return fallback_const(ufunc, inputs, dict(kw, **({'where': where} if where is not True else {})))
    if name == 'matmul':
        r = matmul_(*inputs)
    elif name in UNARY and len(inputs) == 1:
        f, k = UNARY[name]
        x = to_obj(inputs[0])
        if k == 'abs':
            k = 'f' if x.kind == 'c' else x.kind
        elif k == 'sqrt':
            k = 'c' if x.kind == 'c' else 'f'
        r = map_(f, x, k if k else x.kind)
        if r.ndim == 0:
            r = np_scalar(r.item(), r.kind)
    elif name in BINARY and len(inputs) == 2:
        f, k = BINARY[name]
        a, b = to_obj(inputs[0]), to_obj(inputs[1])
        kk = join(a.kind, b.kind)
        if k == 'div':
            kk = 'c' if kk == 'c' else 'f'
        elif k:
            kk = k
        if kk == 'b' and k is None and name in ('add', 'multiply', 'subtract'):
            if name == 'subtract':
                raise TypeError("numpy boolean subtract is not supported")
            f = _logical(_or) if name == 'add' else _logical(_and)
        r = elementwise2(f, a, b, kk)
        if not isinstance(r, np.ndarray):
            r = np_scalar(r, kk)
    else:
        return fallback_const(ufunc, inputs, {})
    if dtype is not None:
        r = to_obj(r).astype(dtype)
    return r


def fallback_const(func, args, kw):
    """run on numeric arrays when nothing is symbolic"""
    if is_symbolic(list(args)) or is_symbolic(list(kw.values())):
        raise Unsupported("numpy.%s on symbolic values" % getattr(func, '__name__', func))

    def cv(x):
        if isinstance(x, SymArray):
            return to_numeric(x)
        if isinstance(x, (list, tuple)):
            return type(x)(cv(v) for v in x)
        return x
    r = func(*[cv(a) for a in args], **{k: cv(v) for k, v in kw.items()})
    return rewrap(r)


def rewrap(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in 'fciub':
        return wrap(r)
    if isinstance(r, tuple):
        return tuple(rewrap(v) for v in r) if type(r) is tuple else r
    if isinstance(r, list):
        return [rewrap(v) for v in r]
    return r


def generic(func, args, kwargs):
    """structural numpy functions run on the object arrays; others only on constants"""
    name = getattr(func, '__name__', '')
    if name in STRUCTURAL:
        kinds = []

        def cv(x):
            if isinstance(x, SymArray):
                kinds.append(x.kind)
                return x.base_view()
            if isinstance(x, list):
                if has_sa(x) or any(isinstance(v, np.ndarray) for v in x):
                    return [cv(to_obj(v)) if not isinstance(v, (int, slice)) else v for v in x]
                return [cv(v) for v in x]
            if isinstance(x, tuple):
                if has_sa(x):
                    return tuple(cv(to_obj(v)) for v in x)
                return x
            if isinstance(x, np.ndarray) and x.dtype != object:
                w = wrap(x)
                kinds.append(w.kind)
                return w.base_view()
            return x
        r = func(*[cv(a) for a in args], **{k: cv(v) for k, v in kwargs.items()})
        k = join(*kinds) if kinds else 'O'

        def rw(v):
            if isinstance(v, np.ndarray) and v.dtype == object:
                return wrap(v, k)
            if isinstance(v, list):
                return [rw(q) for q in v]
            if isinstance(v, tuple):
                return tuple(rw(q) for q in v)
            return v
        return rw(r)
    return fallback_const(func, args, kwargs)


STRUCTURAL = {'transpose', 'reshape', 'ravel', 'swapaxes', 'moveaxis', 'rollaxis', 'concatenate',
              'vstack', 'hstack', 'dstack', 'column_stack', 'row_stack', 'stack', 'squeeze', 'expand_dims', 'copy',
              'flip', 'fliplr', 'flipud', 'roll', 'rot90', 'repeat', 'tile', 'take', 'delete', 'insert',
              'append', 'diagonal', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_to', 'split',
              'array_split', 'hsplit', 'vsplit', 'tril', 'triu', 'size', 'ndim', 'shape', 'block', 'resize',
              'broadcast_arrays', 'take_along_axis'}


def reduce_ufunc(ufunc, x, axis=0, dtype=None, keepdims=False, **kw):
    name = ufunc.__name__
    if name == 'add':
        return sum_(x, axis=axis, dtype=dtype, keepdims=keepdims)
    if name == 'logical_and':
        return all_(x, axis)
    if name == 'logical_or':
        return any_(x, axis)
    if name == 'maximum':
        return extremum(x, axis, operator.gt)
    if name == 'minimum':
        return extremum(x, axis, operator.lt)
    if name == 'multiply':
        return prod_(x, axis=axis)
    f, k = BINARY.get(name, (None, None))
    if f is None:
        raise Unsupported("reduce of %s" % name)
    return fold(x, axis, f)


def fold(x, axis, f, init=None, kind=None):
    x = to_obj(x)
    if axis is None:
        axis = tuple(range(x.ndim))
    if isinstance(axis, int):
        axis = (axis,)
    axis = tuple(a % x.ndim for a in axis) if x.ndim else ()
    keep = [i for i in range(x.ndim) if i not in axis]
    src = x.base_view().transpose(keep + list(axis))
    shp = tuple(x.shape[i] for i in keep)
    src = src.reshape(shp + (-1,)) if x.size or shp else src.reshape((-1,))
    kk = kind or x.kind

    def red(v):
        it = list(v)
        if not it:
            return init
        a = it[0] if init is None else f(init, it[0])
        for q in it[1:]:
            a = f(a, q)
        return a
    if not shp:
        return np_scalar(red(src), kk)
    o = np.empty(shp, dtype=object)
    for idx in np.ndindex(*shp):
        o[idx] = red(src[idx])
    return wrap(o, kk)


def sum_(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if not isinstance(x, SymArray) and hasattr(x, 'sparse_sum'):
        return x.sparse_sum(axis)
    x = to_obj(x)
    k = 'i' if x.kind == 'b' else x.kind
    if x.kind == 'b':
        x = map_(lambda v: v.as_sym() if isinstance(v, SBool) else int(v), x, 'i')
    nd = x.ndim
    r = fold(x, axis, operator.add, 0, k)
    if keepdims:
        ax = range(nd) if axis is None else ([axis] if isinstance(axis, int) else list(axis))
        r = to_obj(r)
        for a in sorted(a % nd for a in ax):
            r = wrap(np.expand_dims(r.base_view(), a), r.kind)
    if dtype is not None:
        r = to_obj(r).astype(dtype)
        if r.ndim == 0:
            r = np_scalar(r.item(), r.kind)
    return r


def prod_(x, axis=None, **kw):
    return fold(x, axis, operator.mul, 1)


def all_(x, axis=None, **kw):
    x = to_obj(x)
    return fold(map_(lambda v: v if isinstance(v, SBool) else (v != 0), x, 'b'), axis, _and, True, 'b')


def any_(x, axis=None, **kw):
    x = to_obj(x)
    return fold(map_(lambda v: v if isinstance(v, SBool) else (v != 0), x, 'b'), axis, _or, False, 'b')


class Extremum:
    """maximum or minimum of several symbolic numbers: comparisons need no case split, other uses decide which one it is"""

    def __init__(self, vals, op, kind):
        self.vals, self.op, self.kind = vals, op, kind
        self.r = None

    def resolve(self):
        if self.r is None:
            r = self.vals[0]
            for v in self.vals[1:]:
                r = v if self.op(v, r) else r
            self.r = r
        return np_scalar(self.r, self.kind)

    def _cmp(self, o, f, every):
        """every: the comparison holds for the extremum iff it holds for each value"""
        if isinstance(o, np.ndarray) and o.ndim:
            return f(self.resolve(), o)
        if self.r is not None:
            return f(self.r, o)
        if isinstance(o, Extremum):
            flip = {operator.lt: operator.gt, operator.gt: operator.lt, operator.le: operator.ge, operator.ge: operator.le}[f]
            cs = [flip(o, v) for v in self.vals]
        else:
            cs = [f(v, o) for v in self.vals]
        r = cs[0]
        for c in cs[1:]:
            r = _and(r, c) if every else _or(r, c)
        return r

    def __lt__(self, o):
        return self._cmp(o, operator.lt, self.op is operator.gt)

    def __le__(self, o):
        return self._cmp(o, operator.le, self.op is operator.gt)

    def __gt__(self, o):
        return self._cmp(o, operator.gt, self.op is operator.lt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge, self.op is operator.lt)

    def __array__(self, *a, **k):
        return np.array(self.resolve(), dtype=object)

    def __getattr__(self, n):
        if n.startswith('__') or n in ('vals', 'op', 'kind', 'r'):
            raise AttributeError(n)
        return getattr(self.resolve(), n)


def _delegate():
    for n in ('add', 'sub', 'mul', 'truediv', 'pow', 'mod', 'floordiv'):
        f = getattr(operator, n)
        setattr(Extremum, '__%s__' % n, lambda s, o, f=f: f(s.resolve(), o))
        setattr(Extremum, '__r%s__' % n, lambda s, o, f=f: f(o, s.resolve()))
    for n, f in (('eq', operator.eq), ('ne', operator.ne)):
        setattr(Extremum, '__%s__' % n, lambda s, o, f=f: f(s.resolve(), o))
    for n, f in (('neg', operator.neg), ('abs', abs), ('bool', bool), ('hash', hash), ('pos', operator.pos)):
        setattr(Extremum, '__%s__' % n, lambda s, f=f: f(s.resolve()))


_delegate()


def extremum(x, axis, op):
    def f(a, b):
        return b if op(b, a) else a
    x = to_obj(x)
    if x.size == 0:
        raise ValueError("zero-size array to reduction operation which has no identity")
    if axis is None:
        vals, best = [], None
        for v in x.base_view().flat:
            if isinstance(v, Sym):
                if not any(v is w or (isinstance(w, Sym) and v.p == w.p) for w in vals):
                    vals.append(v)
            elif isinstance(v, SYM) or isinstance(v, complex):
                break
            elif best is None or op(v, best):
                best = v
        else:
            if best is not None:
                vals.append(best)
            if len(vals) > 1:
                return Extremum(vals, op, x.kind)
            return np_scalar(vals[0], x.kind)
    return fold(x, axis, f)


def decided(a):
    """arguments with every Extremum decided"""
    if not any(isinstance(x, Extremum) or isinstance(x, (list, tuple)) for x in a):
        return a
    return type(a)(x.resolve() if isinstance(x, Extremum) else decided(x) if type(x) in (list, tuple) else x for x in a)


def clip_(x, lo=None, hi=None, **kw):
    x = to_obj(x)
    if lo is not None:
        x = elementwise2(_max2, x, lo)
    if hi is not None:
        x = elementwise2(_min2, x, hi)
    return x


def sort_(x, axis=-1, **kw):
    x = to_obj(x)
    if axis is None:
        x, axis = x.ravel(), -1
    src = np.moveaxis(x.base_view().copy(), axis, -1)
    for idx in np.ndindex(*src.shape[:-1]):
        row = list(src[idx])
        for i in range(1, len(row)):
            j = i
            while j and bool(row[j] < row[j - 1]):
                row[j], row[j - 1] = row[j - 1], row[j]
                j -= 1
        for i, v in enumerate(row):
            src[idx + (i,)] = v
    return wrap(np.moveaxis(src, -1, axis), x.kind)


def isin_(x, vals, invert=False, **kw):
    vs = list(to_obj(vals).base_view().flat) if not isinstance(vals, (set, frozenset)) else []
    def f(v):
        r = False
        for w in vs:
            r = _or(r, v == w)
        return _not(r) if invert else r
    return map_(f, to_obj(x), 'b')


def average_(x, axis=None, weights=None, **kw):
    x = to_obj(x)
    if weights is None:
        return x.mean(axis)
    w = to_obj(weights)
    return sum_(x * w, axis=axis) / sum_(w, axis=axis)


def argext(x, axis, op):
    x = to_obj(x)
    if axis is None:
        best, bi = None, 0
        for i, v in enumerate(x.base_view().flat):
            if best is None or op(v, best):
                best, bi = v, i
        return np.int64(bi)
    src = np.moveaxis(x.base_view(), axis, -1)
    o = np.empty(src.shape[:-1], dtype=int)
    for idx in np.ndindex(*src.shape[:-1]):
        o[idx] = argext(wrap(src[idx].copy()), None, op)
    return wrap(o)


def nonzero_(x):
    x = to_obj(x)
    idx = [i for i in np.ndindex(*x.shape) if bool(x.base_view()[i] != 0)]
    if not idx:
        return tuple(np.array([], dtype=int) for _ in range(x.ndim))
    return tuple(np.array(c, dtype=int) for c in zip(*idx))


class FlatNZ:
    """indices of the nonzero entries of a 0/1 vector, forked only as far as they are looked at"""
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, bits):
        self.bits = bits
        self.full = None

    def _all(self):
        if self.full is None:
            self.full = np.array([i for i, b in enumerate(self.bits) if bool(b != 0)], dtype=int)
        return self.full

    @property
    def size(self):
        r = 0
        for b in self.bits:
            r = r + b
        return r

    @property
    def shape(self):
        return (len(self._all()),)

    def __len__(self):
        return len(self._all())

    def __iter__(self):
        return iter(self._all())

    def __array__(self, dtype=None):
        return self._all()

    def __getitem__(self, k):
        if self.full is None and isinstance(k, int) and k in (0, -1):
            for i in (range(len(self.bits)) if k == 0 else reversed(range(len(self.bits)))):
                if bool(self.bits[i] != 0):
                    return i
            raise IndexError('index %d is out of bounds for axis 0 with size 0' % k)
        return self._all()[k]

    def __getattr__(self, n):
        return getattr(self._all(), n)


def flatnonzero_(x):
    x = to_obj(x).ravel()
    bits = list(x.base_view().flat)
    from . import core
    if all(isinstance(b, (int, SBool)) or (isinstance(b, Sym) and core._allbits(b.p)) for b in bits):
        return FlatNZ([b.as_sym() if isinstance(b, SBool) else b for b in bits])
    return nonzero_(x)[0]


# ------------------------------------------------------------------------------------------------
# linear algebra
def _dotvec(u, v):
    acc = 0
    for a, b in zip(u, v):
        if not isinstance(a, SYM) and a == 0:
            continue
        if not isinstance(b, SYM) and b == 0:
            continue
        acc = acc + a * b
    return acc


def mm2(a, b):
    """2-d object matrices"""
    n, m = a.shape
    m2, p = b.shape
    if m != m2:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 "
                         "(size %d is different from %d)" % (m2, m))
    bt = [[(k, b[k, j]) for k in range(m) if isinstance(b[k, j], SYM) or b[k, j] != 0] for j in range(p)]
    o = np.empty((n, p), dtype=object)
    for i in range(n):
        row = a[i]
        for j in range(p):
            acc = 0
            for k, v in bt[j]:
                x = row[k]
                if not isinstance(x, SYM) and x == 0:
                    continue
                acc = acc + x * v
            o[i, j] = acc
    return o


def matmul_(a, b, **kw):
    if hasattr(a, 'sparse_matmul') or hasattr(b, 'sparse_matmul'):
        from . import stubs_sparse
        return stubs_sparse.matmul(a, b)
    a, b = to_obj(a), to_obj(b)
    k = join(a.kind, b.kind)
    av, bv = a.base_view(), b.base_view()
    if av.ndim == 0 or bv.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    sa, sb = av.ndim == 1, bv.ndim == 1
    if sa:
        av = av[None, :]
    if sb:
        bv = bv[:, None]
    if av.ndim == 2 and bv.ndim == 2:
        o = mm2(av, bv)
    else:
        if av.shape[-1] != bv.shape[-2]:
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
        bs = np.broadcast_shapes(av.shape[:-2], bv.shape[:-2])
        av = np.broadcast_to(av, bs + av.shape[-2:])
        bv = np.broadcast_to(bv, bs + bv.shape[-2:])
        o = np.empty(bs + (av.shape[-2], bv.shape[-1]), dtype=object)
        for i in np.ndindex(*bs):
            o[i] = mm2(av[i], bv[i])
    if sa:
        o = o[..., 0, :]
    if sb:
        o = o[..., 0]
    if not isinstance(o, np.ndarray) or o.ndim == 0:
        return np_scalar(o if not isinstance(o, np.ndarray) else o.item(), k)
    return wrap(o, k)


def dot_(a, b, out=None):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return call_ufunc(np.multiply, a, b)
    if a.ndim <= 2 and b.ndim <= 2:
        if a.shape[-1] != b.shape[0]:
            raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
        return matmul_(a, b)
    return tensordot_(a, b, axes=([a.ndim - 1], [b.ndim - 2 if b.ndim > 1 else 0]))


def einsum_(*ops, **kw):
    sub = ops[0]
    arrs = [to_obj(o) for o in ops[1:]]
    dtype = kw.get('dtype')
    if not isinstance(sub, str):
        raise Unsupported("einsum operand-list form")
    sub = sub.replace(' ', '')
    if '.' in sub:
        raise Unsupported("einsum ellipsis")
    if '->' in sub:
        ins, out = sub.split('->')
    else:
        ins = sub
        allc = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ins = ins.split(',')
    if len(ins) != len(arrs):
        raise ValueError("more operands provided to einstein sum function than specified in the subscripts string")
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ValueError("einstein sum subscripts string contains too many subscripts for operand")
        for c, d in zip(s, a.shape):
            if dims.setdefault(c, d) != d:
                if dims[c] == 1:
                    dims[c] = d
                elif d != 1:
                    raise ValueError("operands could not be broadcast together with remapped shapes")
    k = join(*[a.kind for a in arrs])
    # sparse dictionaries index-tuple -> value, joined one operand at a time
    cur_lab, cur = '', {(): 1}
    for t, (s, a) in enumerate(zip(ins, arrs)):
        rest = ''.join(ins[t + 1:]) + out
        shared = [c for c in dict.fromkeys(s) if c in cur_lab]
        # group operand entries by the shared labels
        groups = {}
        v = a.base_view()
        shp = a.shape
        newl = [c for c in dict.fromkeys(s) if c not in cur_lab]
        pos = {c: s.index(c) for c in s}
        for idx in np.ndindex(*shp):
            x = v[idx]
            if not isinstance(x, SYM) and x == 0:
                continue
            if len(set(s)) < len(s) and any(idx[i] != idx[pos[c]] for i, c in enumerate(s)):
                continue
            groups.setdefault(tuple(idx[pos[c]] for c in shared), []).append(
                (tuple(idx[pos[c]] for c in newl), x))
        labs = list(cur_lab) + newl
        keep = [i for i, c in enumerate(labs) if c in rest]
        cpos = [cur_lab.index(c) for c in shared]
        nxt = {}
        for ci, cv in cur.items():
            for ni, x in groups.get(tuple(ci[i] for i in cpos), ()):
                full = ci + ni
                kk = tuple(full[i] for i in keep)
                y = x if (not isinstance(cv, SYM) and cv == 1) else cv * x
                if kk in nxt:
                    nxt[kk] = nxt[kk] + y
                else:
                    nxt[kk] = y
        cur, cur_lab = nxt, ''.join(labs[i] for i in keep)
    shp = tuple(dims[c] for c in out)
    perm = [cur_lab.index(c) for c in out]
    if not out:
        r = cur.get((), 0)
        r = np_scalar(r, k)
        return r
    o = np.empty(shp, dtype=object)
    o.fill(0)
    for i, x in cur.items():
        o[tuple(i[p] for p in perm)] = x
    r = wrap(o, k)
    if dtype is not None:
        r = r.astype(dtype)
    return r


def tensordot_(a, b, axes=2):
    if hasattr(a, 'sparse_matmul') or hasattr(b, 'sparse_matmul'):
        from . import stubs_sparse
        return stubs_sparse.tensordot(a, b, axes)
    a, b = to_obj(a), to_obj(b)
    if isinstance(axes, (int, np.integer)):
        ax = list(range(a.ndim - axes, a.ndim))
        bx = list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ax = [i % a.ndim for i in ax]
    bx = [i % b.ndim for i in bx]
    for i, j in zip(ax, bx):
        if a.shape[i] != b.shape[j]:
            raise ValueError("shape-mismatch for sum")
    al = [chr(97 + i) for i in range(a.ndim)]
    bl = [chr(65 + i) for i in range(b.ndim)]
    for i, j in zip(ax, bx):
        bl[j] = al[i]
    out = [c for i, c in enumerate(al) if i not in ax] + [c for i, c in enumerate(bl) if i not in bx]
    return einsum_(''.join(al) + ',' + ''.join(bl) + '->' + ''.join(out), a, b)


def kron_(a, b):
    a, b = to_obj(a), to_obj(b)
    nd = max(a.ndim, b.ndim)
    av = a.base_view().reshape((1,) * (nd - a.ndim) + a.shape)
    bv = b.base_view().reshape((1,) * (nd - b.ndim) + b.shape)
    shp = tuple(x * y for x, y in zip(av.shape, bv.shape))
    o = np.empty(shp, dtype=object)
    o.fill(0)
    for i in np.ndindex(*av.shape):
        x = av[i]
        if not isinstance(x, SYM) and x == 0:
            continue
        for j in np.ndindex(*bv.shape):
            y = bv[j]
            if not isinstance(y, SYM) and y == 0:
                continue
            o[tuple(p * q + r for p, q, r in zip(i, bv.shape, j))] = x * y
    return wrap(o, join(a.kind, b.kind))


def outer_(a, b, out=None):
    a, b = to_obj(a).ravel(), to_obj(b).ravel()
    return elementwise2(operator.mul, a.reshape((-1, 1)), b.reshape((1, -1)), join(a.kind, b.kind))


def inner_(a, b):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 1 and b.ndim == 1:
        return matmul_(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return call_ufunc(np.multiply, a, b)
    return tensordot_(a, b, axes=([a.ndim - 1], [b.ndim - 1]))


def vdot_(a, b):
    a, b = to_obj(a).ravel(), to_obj(b).ravel()
    return matmul_(a.conj(), b)


def trace_(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    if hasattr(a, 'sparse_trace'):
        return a.sparse_trace(offset, axis1, axis2)
    a = to_obj(a)
    if axis1 % a.ndim == axis2 % a.ndim:
        raise ValueError("axis1 and axis2 cannot be the same")
    d = np.diagonal(a.base_view(), offset, axis1, axis2)
    return sum_(wrap(d, a.kind), axis=-1, dtype=dtype)


def diag_(a, k=0):
    a = to_obj(a)
    if a.ndim == 1:
        n = a.shape[0] + abs(k)
        o = np.empty((n, n), dtype=object)
        o.fill(0)
        for i, v in enumerate(a.base_view()):
            o[i + max(-k, 0), i + max(k, 0)] = v
        return wrap(o, a.kind)
    return wrap(np.diagonal(a.base_view(), k).copy(), a.kind)


def fill_diagonal_(a, v, wrap=False):
    n = min(a.shape)
    vs = to_obj(v)
    for i in range(n):
        a[i, i] = vs.item() if vs.ndim == 0 else vs[i % vs.shape[0]]


# -- creation
def array_(x, dtype=None, copy=True, ndmin=0, **kw):
    if hasattr(x, 'refuse_densify') :
        x.refuse_densify()
    k = kind_of_dtype(dtype)
    if dtype is not None and k is None:
        return np.array(x, dtype=dtype)
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in 'SUO' and x.dtype != object:
        return np.array(x, dtype=dtype)
    if isinstance(x, (list, tuple)) and _has_str(x):
        if k is not None:
            return wrap(np.array(x, dtype={'f': float, 'c': complex, 'i': int, 'b': bool}[k]))
        return np.array(x)
    r = to_obj(x)
    if r is x or (isinstance(x, np.ndarray) and r.base is not None):
        r = r.copy()
    if k is not None and k != r.kind:
        if r.kind == 'c' and k == 'f' and not isinstance(x, np.ndarray):
            # np.array([1j], dtype=float) raises
            if any((isinstance(v, Sym) and not v.is_real()) or isinstance(v, complex) for v in r.base_view().flat):
                raise TypeError("can't convert complex to float")
        r = map_(lambda v: conv_scalar(v, k), r, k)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _has_str(x, d=3):
    return any(isinstance(v, (str, bytes)) or (d and isinstance(v, (list, tuple)) and _has_str(v, d - 1)) for v in x)


def asarray_(x, dtype=None, **kw):
    if isinstance(x, SymArray) and dtype is None:
        return x
    return array_(x, dtype=dtype)


def full_(shape, v, dtype=None, **kw):
    if isinstance(shape, (Sym, SymArray)):
        shape = int(shape)
    if isinstance(shape, (list, tuple)):
        shape = tuple(int(s) for s in shape)
    o = np.empty(shape, dtype=object)
    k = kind_of_dtype(dtype) or kind_of_scalar(v)
    o.fill(conv_scalar(v, k))
    return wrap(o, k)


def zeros_(shape, dtype=float, order='C', **kw):
    return full_(shape, 0, dtype=dtype)


def ones_(shape, dtype=float, order='C', **kw):
    return full_(shape, 1, dtype=dtype)


def eye_(n, m=None, k=0, dtype=float, **kw):
    return wrap(np.eye(int(n), None if m is None else int(m), k)).astype(dtype)


def like_(v):
    def f(a, dtype=None, **kw):
        a = to_obj(a)
        return full_(a.shape, v, dtype={'f': float, 'c': complex, 'i': int, 'b': bool, 'O': object}[a.kind]
                     if dtype is None else dtype)
    return f


def full_like_(a, v, dtype=None, **kw):
    a = to_obj(a)
    return full_(a.shape, v, dtype={'f': float, 'c': complex, 'i': int, 'b': bool, 'O': object}[a.kind]
                 if dtype is None else dtype)


def arange_(*a, **k):
    return wrap(np.arange(*[int(x) if isinstance(x, (Sym, np.integer)) else x for x in a], **k))


# -- predicates
def isclose_(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if not isinstance(x, SYM) and not isinstance(y, SYM):
            return bool(np.isclose(x, y, rtol, atol))
        x = x.as_sym() if isinstance(x, SBool) else x
        y = y.as_sym() if isinstance(y, SBool) else y
        return abs(x - y) <= atol + rtol * abs(y)
    r = elementwise2(f, a, b, 'b')
    return r


def allclose_(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all_(isclose_(a, b, rtol, atol))


def array_equal_(a, b, **kw):
    a, b = to_obj(a), to_obj(b)
    if a.shape != b.shape:
        return False
    return all_(elementwise2(operator.eq, a, b, 'b'))


def where_(c, x=None, y=None):
    if x is None:
        return nonzero_(c)
    c, x, y = to_obj(c), to_obj(x), to_obj(y)
    cv, xv, yv = np.broadcast_arrays(c.base_view(), x.base_view(), y.base_view())
    o = np.empty(cv.shape, dtype=object)
    for i in np.ndindex(*cv.shape):
        q = cv[i]
        if isinstance(q, SYM):
            a, b = xv[i], yv[i]
            qs = q.as_sym() if isinstance(q, SBool) else q
            o[i] = b + qs * (a - b)
        else:
            o[i] = xv[i] if q else yv[i]
    return wrap(o, join(x.kind, y.kind))


def real_(x):
    return to_obj(x).real if isinstance(x, (np.ndarray, list, tuple)) else (x.real if not isinstance(x, SBool) else x)


def imag_(x):
    return to_obj(x).imag if isinstance(x, (np.ndarray, list, tuple)) else (x.imag if not isinstance(x, SBool) else 0)


def unsup(name):
    def f(*a, **k):
        raise Unsupported("numpy.%s on symbolic values" % name)
    return f


def count_nonzero_(x, axis=None, **kw):
    return sum_(map_(lambda v: v != 0, to_obj(x), 'b'), axis=axis)


def multi_dot_(arrs, **kw):
    r = arrs[0]
    for a in arrs[1:]:
        r = dot_(r, a)
    return r


def matrix_power_(m, n):
    r = eye_(m.shape[0])
    for _ in range(n):
        r = dot_(r, m)
    return r


def norm_(x, ord=None, axis=None, keepdims=False):
    x = to_obj(x)
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim != 1) or axis is not None:
        return fallback_const(np.linalg.norm, (x, ord, axis), {})
    return _sqrt(sum_(map_(lambda v: (v * v.conjugate()) if not isinstance(v, Sym) else (v * v.conjugate()), x)).real)


def cumsum_(x, axis=None, **kw):
    x = to_obj(x)
    if axis is None:
        x = x.ravel()
        axis = 0
    return wrap(np.cumsum(x.base_view(), axis=axis), x.kind)


def solve_(a, b):
    """exact elimination; pivots are taken as nonzero (recorded as divisions)"""
    a, b = to_obj(a), to_obj(b)
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n or b.shape[0] != n:
        raise np.linalg.LinAlgError('bad shapes')
    vec = b.ndim == 1
    M = [list(r) for r in a.base_view().tolist()]
    B = [[x] for x in b.base_view().tolist()] if vec else [list(r) for r in b.base_view().tolist()]
    zero = lambda x: (not isinstance(x, Sym) and x == 0)
    low = all(zero(M[i][j]) for i in range(n) for j in range(i + 1, n))
    if not B or not B[0]:
        return zeros_((n, 0), dtype=complex)
    if low:
        X = []
        for i in range(n):
            row = list(B[i])
            for k in range(i):
                if not zero(M[i][k]):
                    row = [row[c] - M[i][k] * X[k][c] for c in range(len(row))]
            X.append([_div(v, M[i][i]) if not zero(v) else v for v in row])
    else:
        for i in range(n):
            if zero(M[i][i]):
                raise Unsupported('solve: zero pivot')
            for r in range(i + 1, n):
                if zero(M[r][i]):
                    continue
                f = _div(M[r][i], M[i][i])
                M[r] = [0 if c == i else M[r][c] - f * M[i][c] for c in range(n)]
                B[r] = [B[r][c] - f * B[i][c] for c in range(len(B[r]))]
        X = [None] * n
        for i in reversed(range(n)):
            row = list(B[i])
            for k in range(i + 1, n):
                row = [row[c] - M[i][k] * X[k][c] for c in range(len(row))]
            X[i] = [_div(v, M[i][i]) if not zero(v) else v for v in row]
    return wrap(from_list([x[0] for x in X])) if vec else wrap(from_list(X))


HANDLERS = {
    'linalg.solve': solve_, 'linalg.inv': lambda m: solve_(m, eye_(to_obj(m).shape[0])),
    'einsum': einsum_, 'tensordot': tensordot_, 'kron': kron_, 'dot': dot_, 'matmul': matmul_, 'outer': outer_,
    'inner': inner_, 'vdot': vdot_, 'trace': trace_, 'diag': diag_, 'sum': sum_, 'prod': prod_, 'all': all_, 'any': any_,
    'alltrue': all_, 'sometrue': any_, 'max': lambda x, axis=None, **k: extremum(x, axis, operator.gt),
    'min': lambda x, axis=None, **k: extremum(x, axis, operator.lt),
    'amax': lambda x, axis=None, **k: extremum(x, axis, operator.gt),
    'amin': lambda x, axis=None, **k: extremum(x, axis, operator.lt),
    'argmax': lambda x, axis=None, **k: argext(x, axis, operator.gt),
    'argmin': lambda x, axis=None, **k: argext(x, axis, operator.lt),
    'isclose': isclose_, 'allclose': allclose_, 'array_equal': array_equal_, 'where': where_, 'real': real_,
    'imag': imag_, 'nonzero': nonzero_, 'count_nonzero': count_nonzero_, 'zeros_like': like_(0), 'ones_like': like_(1),
    'empty_like': like_(0), 'full_like': full_like_, 'fill_diagonal': fill_diagonal_, 'cumsum': cumsum_,
    'linalg.multi_dot': multi_dot_, 'linalg.matrix_power': matrix_power_, 'linalg.norm': norm_,
    'mean': lambda x, axis=None, **k: to_obj(x).mean(axis), 'flatnonzero': flatnonzero_,
    'clip': clip_, 'sort': sort_, 'isin': isin_, 'in1d': isin_, 'average': average_,
    'array_equiv': lambda a, b: array_equal_(*np.broadcast_arrays(to_obj(a), to_obj(b))) if to_obj(a).shape != to_obj(b).shape else array_equal_(a, b),
    'ptp': lambda x, axis=None, **k: extremum(x, axis, operator.gt) - extremum(x, axis, operator.lt),
    'nan_to_num': lambda x, *a, **k: to_obj(x),
    'argwhere': lambda x: np.array(nonzero_(x)).T, 'fix': unsup('fix'), 'iscomplexobj': lambda x: to_obj(x).kind == 'c',
    'isrealobj': lambda x: to_obj(x).kind != 'c',
}

CREATE = {'array': array_, 'asarray': asarray_, 'asanyarray': asarray_, 'ascontiguousarray': asarray_,
          'zeros': zeros_, 'ones': ones_, 'empty': zeros_, 'full': full_, 'eye': eye_, 'identity':
          lambda n, dtype=float: eye_(n, dtype=dtype), 'arange': arange_,
          'linspace': lambda *a, **k: wrap(np.linspace(*a, **k)),
          'zeros_like': like_(0), 'ones_like': like_(1), 'empty_like': like_(0), 'full_like': full_like_,
          'asmatrix': unsup('asmatrix'), 'matrix': unsup('matrix')}


class _Linalg:
    def __init__(self, proxy):
        self._p = proxy
        self.LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        ov = self._p._linalg_over.get(name)
        if ov is not None:
            return ov
        f = getattr(np.linalg, name)
        h = HANDLERS.get('linalg.' + name)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **k):
            if h is not None:
                return h(*a, **k)
            if is_symbolic(list(a)) and name == 'matrix_rank':
                raise Unsupported("linalg.matrix_rank on symbolic values")
            return fallback_const(f, tuple(to_obj(x) if isinstance(x, (list, np.ndarray)) else x for x in a), k)
        return g


class NPProxy:
    """what the modules under test see as `np`"""

    def __init__(self):
        self._over = {}
        self._linalg_over = {}
        self.linalg = _Linalg(self)

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        if name in CREATE:
            return CREATE[name]
        f = getattr(np, name)
        if name == 'random':
            return f
        if isinstance(f, type) or not callable(f):
            if name in ('float64', 'complex128', 'int64', 'float32', 'complex64'):
                return f
            return f
        if isinstance(f, np.ufunc):
            return _UfuncProxy(f)
        h = HANDLERS.get(name)

        def g(*a, **k):
            a = decided(a)
            if h is not None and (has_sa(a) or has_sa(list(k.values())) or any(hasattr(x, 'sparse_matmul') for x in a)):
                return h(*a, **k)
            if has_sa(a) or has_sa(list(k.values())):
                return generic(f, tuple(to_obj(x) if isinstance(x, SYM) or (isinstance(x, list) and is_symbolic(x) and name not in
                                        ('concatenate', 'vstack', 'hstack', 'stack', 'dstack', 'column_stack', 'block'))
                                        else x for x in a), k)
            return rewrap(f(*a, **k)) if h is not None else rewrap(f(*a, **k))
        g.__name__ = name
        return g


class _UfuncProxy:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        a = decided(a)
        if has_sa(a) or has_sa(list(k.values())):
            out = k.pop('out', None)
            if out is None and len(a) > self.f.nin:
                out = a[self.f.nin]
                a = a[:self.f.nin]
            if any(hasattr(x, 'sparse_matmul') for x in a):
                return getattr(a[0], '_uf_' + self.f.__name__)(*a[1:], **k)
            r = call_ufunc(self.f, *a, **k)
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                o[...] = r
                return o
            return r
        if any(hasattr(x, 'sparse_matmul') for x in a):
            return getattr(a[0], '_uf_' + self.f.__name__)(*a[1:], **k)
        return rewrap(self.f(*a, **k))

    def reduce(self, x, axis=0, **k):
        if has_sa((x,)):
            return reduce_ufunc(self.f, x, axis=axis, **k)
        return rewrap(self.f.reduce(x, axis=axis, **k))

    def outer(self, a, b):
        if has_sa((a, b)):
            a, b = to_obj(a), to_obj(b)
            return call_ufunc(self.f, a.reshape(a.shape + (1,) * b.ndim), b)
        return rewrap(self.f.outer(a, b))

    def __getattr__(self, n):
        return getattr(self.f, n)


# -- builtin shims placed in the globals of the modules under test -------------------------------
class _ShimMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class FloatShim(metaclass=_ShimMeta):
    _real = builtins.float

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x.item()
        if isinstance(x, SBool):
            x = x.as_sym()
        if isinstance(x, Sym):
            if not x.is_real():
                raise TypeError("can't convert complex to float")
            return x
        return builtins.float(x)


class ComplexShim(metaclass=_ShimMeta):
    _real = builtins.complex

    def __new__(cls, x=0.0, y=None):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x.item()
        if y is None:
            if isinstance(x, SYM):
                return x
            return builtins.complex(x)
        if isinstance(x, SYM) or isinstance(y, SYM):
            return x + 1j * y
        return builtins.complex(x, y)


class IntShim(metaclass=_ShimMeta):
    _real = builtins.int

    def __new__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x.item()
        if isinstance(x, SBool):
            x = x.as_sym()
        if isinstance(x, Sym):
            from .core import _allbits
            if _allbits(x.p):
                return x
            raise Unsupported("int() of a real symbolic value")
        return builtins.int(x, *a)


def sum_builtin(it, start=0):
    r = start
    for v in it:
        r = r + v
    return r


BUILTINS = {'float': FloatShim, 'complex': ComplexShim, 'int': IntShim}
