"""Symbolic scalars, symbolic booleans and the path-forking explorer.

A symbolic scalar (`Sym`) is a polynomial with complex floating coefficients over *atoms*:
  real atoms, complex atoms (a pair z, conj z), bits (0/1, idempotent), and defined atoms (square
  roots, inverses, absolute values, uninterpreted applications, parities), whose defining
  constraint is handed to the solver.
A symbolic boolean (`SBool`) wraps a z3 expression; asking for its truth value forks the path.
z3 decides every branch feasibility and every assertion.
"""
import itertools, time, fractions, math, random
import numbers
import z3
import numpy as np

PRUNE = 1e-12


class Unsupported(Exception):
    """The engine cannot represent this operation symbolically."""


class PathEnd(BaseException):
    """Raised to leave an infeasible or assumed-away path."""


class Budget(Exception):
    """Path budget exhausted."""


# ------------------------------------------------------------------------------------------------
# atoms
class Atoms:
    def __init__(self):
        self.reset()

    def reset(self):
        self.name = []
        self.kind = []        # 'r','z','zb','b','d' (defined real), 'x' parity
        self.conj = []        # id of the conjugate atom
        self.zv = []          # z3 Real (r,d) / (re,im) pair (z) / Bool (b,x)
        self.square = {}      # atom -> Poly dict its square rewrites to
        self.nonneg = set()
        self.anf = {}         # parity atom -> frozenset of monomials
        self.cache = {}
        self.defs = []        # (atom id, z3 constraint)
        self.lazy = {}
        self.inputs = []      # input atoms, in creation order: (id, name)
        self.byname = {}
        self._mono_re = {}
        self.nonlinear = False

    def _new(self, name, kind, conj, zv):
        i = len(self.name)
        self.name.append(name); self.kind.append(kind)
        self.conj.append(i if conj is None else conj); self.zv.append(zv)
        return i

    def real(self, name, inp=True):
        if name in self.byname:
            return self.byname[name]
        i = self._new(name, 'r', None, z3.Real(name))
        if inp:
            self.inputs.append((i, name))
        self.byname[name] = i
        return i

    def cplx(self, name, inp=True):
        if name in self.byname:
            return self.byname[name]
        re, im = z3.Real(name + '.re'), z3.Real(name + '.im')
        i = self._new(name, 'z', None, (re, im))
        j = self._new(name + '~', 'zb', i, (re, im))
        self.conj[i] = j
        if inp:
            self.inputs.append((i, name))
        self.byname[name] = i
        return i

    def bit(self, name, inp=True):
        if name in self.byname:
            return self.byname[name]
        i = self._new(name, 'b', None, z3.Bool(name))
        if inp:
            self.inputs.append((i, name))
        self.byname[name] = i
        return i

    def defined(self, name, mk):
        """defined real atom; mk(var) -> list of constraints, asserted when the atom is first used"""
        v = z3.Real('%s!%d' % (name, len(self.name)))
        i = self._new(str(v), 'd', None, v)
        self.lazy[i] = mk
        return i

    def use(self, i):
        mk = self.lazy.pop(i, None)
        if mk is not None:
            for c in mk(self.zv[i]):
                self.defs.append((i, c))


A = Atoms()


# ------------------------------------------------------------------------------------------------
# polynomials: dict monomial(tuple of sorted atom ids) -> complex/float/int coefficient
def _clean(d):
    out = {}
    for m, c in d.items():
        if c == 0:
            continue
        if isinstance(c, complex):
            if c.imag == 0 or abs(c.imag) < PRUNE:
                c = c.real
            elif abs(c.real) < PRUNE:
                c = complex(0.0, c.imag)
        if not isinstance(c, int) and abs(c) < PRUNE:
            continue
        out[m] = c
    return out


def _mono_mul(m1, m2):
    """product of monomials; returns monomial or Poly dict if a rewrite applies"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    m = tuple(sorted(m1 + m2))
    kinds = A.kind
    # idempotent bits, squares of defined atoms
    prev = -1
    need = False
    for a in m:
        if a == prev:
            k = kinds[a]
            if k == 'b' or k == 'x' or a in A.square:
                need = True
                break
        prev = a
    if not need:
        return m, None
    out = []
    extra = []
    i = 0
    n = len(m)
    while i < n:
        a = m[i]
        k = kinds[a]
        if k == 'b' or k == 'x':
            while i + 1 < n and m[i + 1] == a:
                i += 1
            out.append(a)
        elif a in A.square and i + 1 < n and m[i + 1] == a:
            extra.append(A.square[a])
            i += 1
        else:
            out.append(a)
        i += 1
    if not extra:
        return tuple(out), None
    p = {tuple(out): 1}
    for e in extra:
        p = pmul(p, e)
    return None, p


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            if c == 1:
                return q
            return _clean({k: v * c for k, v in q.items()})
    if len(q) == 1:
        (m, c), = q.items()
        if m == ():
            if c == 1:
                return p
            return _clean({k: v * c for k, v in p.items()})
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, poly = _mono_mul(m1, m2)
            c = c1 * c2
            if poly is None:
                if m in out:
                    out[m] = out[m] + c
                else:
                    out[m] = c
            else:
                for k, v in poly.items():
                    out[k] = out.get(k, 0) + v * c
    return _clean(out)


def padd(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        if m in out:
            out[m] = out[m] + s * c
        else:
            out[m] = s * c
    return _clean(out)


def pconj(p):
    cj = A.conj
    out = {}
    for m, c in p.items():
        mm = tuple(sorted(cj[a] for a in m))
        cc = c.conjugate() if isinstance(c, complex) else c
        out[mm] = out.get(mm, 0) + cc
    return _clean(out)


def pscale(p, s):
    return _clean({m: c * s for m, c in p.items()})


def pconst(p):
    """constant value or None"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def pkey(p):
    def r(c):
        if isinstance(c, int):
            return (float(c), 0.0)
        if isinstance(c, complex):
            return (round(c.real, 10) + 0.0, round(c.imag, 10) + 0.0)
        return (round(c, 10) + 0.0, 0.0)
    return frozenset((m, r(c)) for m, c in p.items())


# -- translation to z3 ---------------------------------------------------------------------------
def _rat(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    f = fractions.Fraction(c).limit_denominator(10 ** 14)
    return z3.RealVal(f)


def _mono_reim(m):
    """monomial -> (re, im) as dicts from real-variable multisets (tuples of (id, part)) to coeff"""
    got = A._mono_re.get(m)
    if got is not None:
        return got
    if not m:
        res = ({(): 1}, {})
    else:
        re, im = _mono_reim(m[:-1])
        a = m[-1]
        k = A.kind[a]
        if k in ('r', 'd', 'b', 'x'):
            def add(d):
                return {tuple(sorted(v + ((a, 0),))): c for v, c in d.items()}
            res = (add(re), add(im))
        else:
            base = a if k == 'z' else A.conj[a]
            s = 1 if k == 'z' else -1
            nre, nim = {}, {}

            def acc(d, src, var, f):
                for v, c in src.items():
                    kk = tuple(sorted(v + (var,)))
                    d[kk] = d.get(kk, 0) + c * f
            acc(nre, re, (base, 0), 1)
            acc(nre, im, (base, 1), -s)
            acc(nim, re, (base, 1), s)
            acc(nim, im, (base, 0), 1)
            nre = {k2: v for k2, v in nre.items() if v}
            nim = {k2: v for k2, v in nim.items() if v}
            res = (nre, nim)
    A._mono_re[m] = res
    return res


def p_reim(p):
    re, im = {}, {}
    for m, c in p.items():
        mr, mi = _mono_reim(m)
        cr, ci = (c.real, c.imag) if isinstance(c, complex) else (c, 0)
        if cr:
            for v, k in mr.items():
                re[v] = re.get(v, 0) + k * cr
            for v, k in mi.items():
                im[v] = im.get(v, 0) + k * cr
        if ci:
            for v, k in mr.items():
                im[v] = im.get(v, 0) + k * ci
            for v, k in mi.items():
                re[v] = re.get(v, 0) - k * ci
    return ({v: c for v, c in re.items() if abs(c) > PRUNE},
            {v: c for v, c in im.items() if abs(c) > PRUNE})


def _zvar(v):
    a, part = v
    k = A.kind[a]
    if k in ('r', 'd'):
        if a in A.lazy:
            A.use(a)
        return A.zv[a]
    if k in ('b', 'x'):
        return z3.If(A.zv[a], z3.RealVal(1), z3.RealVal(0))
    return A.zv[a][part]


def rdict_z3(d):
    terms = []
    for v, c in d.items():
        if not v:
            terms.append(_rat(c))
            continue
        fs = [_zvar(x) for x in v]
        if c != 1:
            fs.insert(0, _rat(c))
        terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    if not terms:
        return z3.RealVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def _allbits(p):
    for m, c in p.items():
        if not isinstance(c, int):
            if isinstance(c, complex) or c != int(c):
                return False
        for a in m:
            if A.kind[a] not in 'bx':
                return False
    return True


def p_z3int(p):
    terms = []
    for m, c in p.items():
        c = int(c)
        if not m:
            terms.append(z3.IntVal(c))
        else:
            b = A.zv[m[0]] if len(m) == 1 else z3.And(*[A.zv[a] for a in m])
            terms.append(z3.If(b, z3.IntVal(c), z3.IntVal(0)))
    if not terms:
        return z3.IntVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def p_z3real(p):
    re, im = p_reim(p)
    if im:
        raise Unsupported("ordering of a complex value")
    return rdict_z3(re)


def p_defs(polys):
    """nothing: definitions are asserted as they are created"""


# ------------------------------------------------------------------------------------------------
def _num(x):
    """python number from any numeric constant, else None"""
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f == f and abs(f) < 2 ** 52 and f == int(f) if not math.isinf(f) and f == f else False:
            return int(f)
        return f
    if isinstance(x, (complex, np.complexfloating)):
        c = complex(x)
        if c.imag == 0:
            return _num(c.real)
        return c
    if isinstance(x, fractions.Fraction):
        return float(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _num(x.item())
    return None


def poly_of(x):
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, SBool):
        return x.as_sym().p
    n = _num(x)
    if n is not None:
        if isinstance(n, float) and (n != n or math.isinf(n)):
            raise Unsupported("nan/inf constant meets a symbolic value")
        return {} if n == 0 else {(): n}
    return None


def mk(p):
    """Sym or a python constant"""
    c = pconst(p)
    if c is not None:
        return c
    return Sym(p)


class Sym:
    __slots__ = ('p',)
    __array_ufunc__ = None
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, p):
        self.p = p

    # -- arithmetic
    def _bin(self, o, f, rev=False):
        if isinstance(o, np.ndarray):
            from . import arr
            return arr.elementwise2(f, o, self) if rev else arr.elementwise2(f, self, o)
        q = poly_of(o)
        if q is None:
            return NotImplemented
        return f(o, self) if rev else f(self, o)

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: a + b)
        q = poly_of(o)
        if q is None:
            return NotImplemented
        return mk(padd(self.p, q))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: a - b)
        q = poly_of(o)
        if q is None:
            return NotImplemented
        return mk(padd(self.p, q, -1))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: a - b, True)
        q = poly_of(o)
        if q is None:
            return NotImplemented
        return mk(padd(q, self.p, -1))

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: a * b)
        q = poly_of(o)
        if q is None:
            return NotImplemented
        return mk(pmul(self.p, q))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return mk(pscale(self.p, -1))

    def __pos__(self):
        return self

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: a / b)
        q = poly_of(o)
        if q is None:
            return NotImplemented
        c = pconst(q)
        if c is not None:
            if c == 0:
                raise Unsupported("division of a symbolic value by zero")
            return mk(pscale(self.p, 1.0 / c if not (c in (1, -1)) else c))
        return self * inverse(q)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda a, b: a / b, True)
        q = poly_of(o)
        if q is None:
            return NotImplemented
        return mk(pmul(q, poly_of(inverse(self.p))))

    def __pow__(self, n):
        if isinstance(n, np.ndarray):
            return self._bin(n, lambda a, b: a ** b)
        n = _num(n)
        if n is None:
            return NotImplemented
        if n == 0.5:
            return self.sqrt()
        if isinstance(n, int):
            if n >= 0:
                r = {(): 1}
                for _ in range(n):
                    r = pmul(r, self.p)
                return mk(r)
            return 1 / (self ** (-n))
        if n == -0.5:
            return 1 / self.sqrt()
        raise Unsupported("power %r" % (n,))

    def __rpow__(self, base):
        b = _num(base)
        # (-1)**bit, c**bit
        if b is not None and _allbits(self.p):
            r = 1
            for m, c in self.p.items():
                c = int(c)
                v = b ** c if b != 0 else 0 ** c
                if not m:
                    r = r * v
                else:
                    r = r * (1 + (v - 1) * mk({m: 1}))
            return r
        raise Unsupported("symbolic exponent")

    def __mod__(self, n):
        if isinstance(n, np.ndarray):
            return self._bin(n, lambda a, b: a % b)
        n = _num(n)
        if n == 2 and _allbits(self.p):
            return parity(self.p)
        return bits_table(self.p, lambda v: v % n, "modulo %r of a symbolic value" % (n,))

    def __rmod__(self, n):
        raise Unsupported("modulo a symbolic value")

    def __floordiv__(self, n):
        if isinstance(n, np.ndarray):
            return self._bin(n, lambda a, b: a // b)
        n = _num(n)
        return bits_table(self.p, lambda v: v // n, "floor division of a symbolic value")

    def __xor__(self, o):
        return (self + o) % 2
    __rxor__ = __xor__

    def __and__(self, o):
        return self * o
    __rand__ = __and__

    def __or__(self, o):
        return self + o - self * o
    __ror__ = __or__

    # -- views
    @property
    def real(self):
        return mk(pscale(padd(self.p, pconj(self.p)), 0.5))

    @property
    def imag(self):
        return mk(pscale(padd(self.p, pconj(self.p), -1), -0.5j))

    @property
    def T(self):
        return self

    def conjugate(self):
        return mk(pconj(self.p))
    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        return self

    def tolist(self):
        return self

    def is_real(self):
        return not padd(self.p, pconj(self.p), -1)

    def sqrt(self):
        p = self.p
        if not self.is_real():
            raise Unsupported("square root of a complex symbolic value")
        key = ('sqrt', pkey(p))
        if key in A.cache:
            return A.cache[key]
        def mkd(v):
            zp = p_z3real(p)
            return [v >= 0, z3.Implies(zp >= 0, v * v == zp)]
        i = A.defined('sqrt', mkd)
        A.square[i] = p
        A.nonneg.add(i)
        s = Sym({(i,): 1})
        A.cache[key] = s
        E.new_defs()
        return s

    def __abs__(self):
        p = self.p
        if _allbits(p) and len(p) > 1:
            lo, hi = bits_range(p)
            if lo >= 0:
                return self
            if hi <= 0:
                return -self
            c = bits_cond(p, 'lt')
            return self - 2 * (SBool(c).as_sym() * self)
        if self.is_real():
            # a single nonnegative defined atom (square root) is its own absolute value
            if len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and (m[0] in A.square or A.kind[m[0]] in 'bx') and not isinstance(c, complex):
                    return mk({m: abs(c)})
            key = ('abs', min(pkey(p), pkey(pscale(p, -1)), key=lambda k: sorted(map(repr, k))))
            if key in A.cache:
                return A.cache[key]
            def mkd(v):
                zp = p_z3real(p)
                return [v == z3.If(zp >= 0, zp, -zp)]
            i = A.defined('abs', mkd)
            A.square[i] = pmul(p, p)
            A.nonneg.add(i)
        else:
            sq = pmul(p, pconj(p))
            key = ('abs', pkey(sq))
            if key in A.cache:
                return A.cache[key]
            def mkd(v):
                zp = p_z3real(sq)
                return [v >= 0, v * v == zp]
            i = A.defined('abs', mkd)
            A.square[i] = sq
            A.nonneg.add(i)
        s = Sym({(i,): 1})
        A.cache[key] = s
        E.new_defs()
        return s

    def log2(self):
        return uf('log2', self)

    def log(self):
        return uf('log2', self) * math.log(2.0)

    def cos(self):
        return trig('cos', self)

    def sin(self):
        return trig('sin', self)

    def exp(self):
        # only exp(i * real)
        p = pscale(self.p, -1j)
        s = mk(p)
        if isinstance(s, Sym) and s.is_real():
            return s.cos() + 1j * s.sin()
        return uf('exp', self)

    def rint(self):
        raise Unsupported("rounding")

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            from . import arr
            import operator
            return arr.elementwise2(getattr(operator, op), self, o)
        if o is None or isinstance(o, str):
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            return {'eq': False, 'ne': True, 'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0}[op]
        q = poly_of(o)
        if q is None:
            return NotImplemented
        d = padd(self.p, q, -1)
        return compare(d, op)

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __hash__(self):
        # a set or dictionary of the code under test: decide the value, as equal values must have equal hashes
        if _allbits(self.p):
            return hash(E.concretise_int(self))
        raise Unsupported('hash of a symbolic value')

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        if _allbits(self.p):
            return E.concretise_int(self)
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if _allbits(self.p):
            return E.concretise_int(self)
        raise Unsupported("symbolic index")

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic value")

    def __str__(self):
        if self.p and _allbits(self.p) and E.str_concretise:
            return str(E.concretise_int(self))
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        def mono(m):
            return '*'.join(A.name[a] for a in m)
        return 'Sym(' + ' + '.join('%s*%s' % (c, mono(m)) if m else str(c)
                                   for m, c in list(self.p.items())[:12]) + (' ...' if len(self.p) > 12 else '') + ')'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


numbers.Complex.register(Sym)


def compare(d, op):
    """SBool for  d op 0"""
    c = pconst(d)
    if c is not None:
        if isinstance(c, complex):
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            c = c.real
        return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[op]
    if _allbits(d):
        # single bit against a constant
        ms = [m for m in d if m]
        k = int(d.get((), 0))
        if len(ms) == 1:
            m = ms[0]
            w = int(d[m])
            b = A.zv[m[0]] if len(m) == 1 else z3.And(*[A.zv[a] for a in m])
            v1, v0 = w + k, k
            f = {'eq': lambda v: v == 0, 'ne': lambda v: v != 0, 'lt': lambda v: v < 0,
                 'le': lambda v: v <= 0, 'gt': lambda v: v > 0, 'ge': lambda v: v >= 0}[op]
            t1, t0 = f(v1), f(v0)
            if t1 and t0:
                return True
            if not t1 and not t0:
                return False
            return SBool(b if t1 else z3.Not(b))
        e = bits_cond(d, op)
        return True if z3.is_true(e) else False if z3.is_false(e) else SBool(e)
    re, im = p_reim(d)
    if op in ('eq', 'ne'):
        cs = []
        if re:
            cs.append(rdict_z3(re) == 0)
        if im:
            cs.append(rdict_z3(im) == 0)
        e = z3.And(*cs) if len(cs) > 1 else cs[0]
        return SBool(e if op == 'eq' else z3.Not(e))
    if im:
        raise Unsupported("ordering of complex values")
    ms = [m for m in d if m]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0] in A.square and ms[0][0] in A.nonneg:
        w, k = d[ms[0]], d.get((), 0)
        if not isinstance(w, complex) and not isinstance(k, complex):
            # w*s + k op 0  with s >= 0:  s op' c
            c = -k / w
            if w < 0:
                op = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[op]
            if c < 0 or (c == 0 and op in ('lt', 'ge')):
                return op in ('gt', 'ge')
            return compare(padd(A.square[ms[0][0]], {(): c * c} if c else {}, -1), op)
    e = rdict_z3(re)
    return SBool({'lt': e < 0, 'le': e <= 0, 'gt': e > 0, 'ge': e >= 0}[op])


class SBool:
    __slots__ = ('e',)
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __and__(self, o):
        if isinstance(o, SBool):
            return SBool(z3.And(self.e, o.e))
        if isinstance(o, (bool, np.bool_, int)):
            return self if o else False
        if isinstance(o, Sym):
            return self.as_sym() * o
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SBool):
            return SBool(z3.Or(self.e, o.e))
        if isinstance(o, (bool, np.bool_, int)):
            return True if o else self
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SBool):
            return SBool(z3.Xor(self.e, o.e))
        if isinstance(o, (bool, np.bool_, int)):
            return ~self if o else self
        return NotImplemented
    __rxor__ = __xor__

    def as_sym(self):
        key = ('boolbit', self.e.get_id())
        if key in A.cache:
            return A.cache[key][0]
        i = A._new('bb%d' % len(A.name), 'b', None, self.e)
        s = Sym({(i,): 1})
        A.cache[key] = (s, self.e)
        return s

    def __add__(self, o):
        return self.as_sym() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.as_sym() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_sym() - o

    def __rsub__(self, o):
        return o - self.as_sym()

    def __mod__(self, o):
        return self.as_sym() % o

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(self.e == o.e)
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        return self.as_sym() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __repr__(self):
        return 'SBool(%s)' % (str(self.e)[:200],)

    def astype(self, t):
        return self.as_sym()

    def any(self):
        return self
    all = any

    def item(self):
        return self


def parity(p):
    """value of an integer bit polynomial modulo 2, as canonical algebraic normal form"""
    anf = set()
    for m, c in p.items():
        if int(c) % 2 == 0:
            continue
        # expand parity atoms in m
        cur = {()}
        for a in m:
            terms = A.anf.get(a)
            if terms is None:
                terms = ((a,),)
            nxt = set()
            for x in cur:
                for t in terms:
                    mm = tuple(sorted(set(x) | set(t)))
                    nxt ^= {mm}
            cur = nxt
        anf ^= cur
    return from_anf(frozenset(anf))


def from_anf(anf):
    if not anf:
        return 0
    if anf == frozenset({()}):
        return 1
    if len(anf) == 1:
        (m,) = anf
        return Sym({m: 1})
    key = ('par', anf)
    if key in A.cache:
        return A.cache[key]
    neg = () in anf
    base = sorted(m for m in anf if m)
    if len(base) == 1:
        # 1 - m : arithmetic negation stays a polynomial
        s = Sym({(): 1, base[0]: -1})
        # but keep it a bit: use a parity atom so products stay idempotent
    e = None
    for m in base:
        b = A.zv[m[0]] if len(m) == 1 else z3.And(*[A.zv[a] for a in m])
        e = b if e is None else z3.Xor(e, b)
    if neg:
        e = z3.Not(e)
    i = A._new('x%d' % len(A.name), 'x', None, e)
    if len(anf) <= 24:
        A.anf[i] = anf       # larger parities stay opaque to later reductions (the solver still sees their definition)
    s = Sym({(i,): 1})
    A.cache[key] = s
    return s


def bits_range(p):
    k = [int(c) for m, c in p.items() if m]
    c0 = int(p.get((), 0))
    return c0 + sum(c for c in k if c < 0), c0 + sum(c for c in k if c > 0)


def bits_table(p, f, what):
    """f of an integer polynomial over bits, by the values it can take"""
    if not _allbits(p):
        raise Unsupported(what)
    lo, hi = bits_range(p)
    if hi - lo > 40:
        raise Unsupported(what)
    r = 0
    for v in range(lo, hi + 1):
        w = f(v)
        if w == 0:
            continue
        c = bits_cond(padd(p, {(): v} if v else {}, -1), 'eq')
        if z3.is_true(c):
            return w
        if not z3.is_false(c):
            r = r + w * SBool(c).as_sym()
    return r


def bits_cond(d, op):
    """z3 Bool for  d op 0, d an integer polynomial over bits"""
    ms = [m for m in d if m]
    k = int(d.get((), 0))
    f = {'eq': lambda v: v == 0, 'ne': lambda v: v != 0, 'lt': lambda v: v < 0,
         'le': lambda v: v <= 0, 'gt': lambda v: v > 0, 'ge': lambda v: v >= 0}[op]
    if len(ms) <= 4:
        bs = [A.zv[m[0]] if len(m) == 1 else z3.And(*[A.zv[a] for a in m]) for m in ms]
        if len(ms) == 2 and k == 0 and op in ('eq', 'ne') and int(d[ms[0]]) == -int(d[ms[1]]):
            return bs[0] == bs[1] if op == 'eq' else z3.Xor(bs[0], bs[1])
        good = []
        n = 0
        for vals in itertools.product((0, 1), repeat=len(ms)):
            if f(k + sum(int(d[m]) for m, v in zip(ms, vals) if v)):
                good.append(z3.And(*[b if v else z3.Not(b) for b, v in zip(bs, vals)]) if bs else z3.BoolVal(True))
            n += 1
        if len(good) == n:
            return z3.BoolVal(True)
        if not good:
            return z3.BoolVal(False)
        return good[0] if len(good) == 1 else z3.Or(*good)
    e = p_z3int(d)
    z = z3.IntVal(0)
    return {'eq': e == z, 'ne': e != z, 'lt': e < z, 'le': e <= z, 'gt': e > z, 'ge': e >= z}[op]


def inverse(q):
    """1/q for a non-constant polynomial q"""
    if pkey(padd(q, pconj(q), -1)) == pkey({}):
        # real: strip scale so that q and c*q share the atom
        lead = min(q, key=lambda m: (len(m), m))
        sc = q[lead]
        qn = pscale(q, 1.0 / sc)
        key = ('inv', pkey(qn))
        if key not in A.cache:
            def mkd(v):
                zq = p_z3real(qn)
                return [z3.Implies(zq != 0, v * zq == 1)]
            i = A.defined('inv', mkd)
            A.cache[key] = i
            # 1/s for s a defined square root: (1/s)^2 = 1/s^2
            E.new_defs()
            E.divisions.append(qn)
        return Sym({(A.cache[key],): 1.0 / sc if sc != 1 else 1})
    # complex: conj(q) / |q|^2
    return mk(pmul(pconj(q), poly_of(inverse(pmul(q, pconj(q))))))


_UF = {}


def uf(name, s):
    key = ('uf', name, pkey(s.p))
    if key in A.cache:
        return A.cache[key]
    f = _UF.setdefault(name, z3.Function(name, z3.RealSort(), z3.RealSort()))
    t = f(p_z3real(s.p))
    i = A._new('%s!%d' % (name, len(A.name)), 'd', None, t)
    r = Sym({(i,): 1})
    A.cache[key] = r
    return r


def trig(name, s):
    """cos/sin as a pair of reals on the unit circle, sharing one pair per argument (up to sign)"""
    if not s.is_real():
        raise Unsupported("trigonometric function of a complex value")
    p = s.p
    lead = min(p, key=lambda m: (len(m), m))
    sign = 1
    c0 = p[lead]
    if (c0.real if isinstance(c0, complex) else c0) < 0:
        sign = -1
        p = pscale(p, -1)
    key = ('trig', pkey(p))
    if key not in A.cache:
        # prefer half-angle relation when the half argument is already present is left to z3
        c = z3.Real('cos!%d' % len(A.name)); sn = z3.Real('sin!%d' % len(A.name))
        ic = A._new(str(c), 'd', None, c)
        is_ = A._new(str(sn), 'd', None, sn)
        A.lazy[ic] = lambda v: [c * c + sn * sn == 1]
        A.lazy[is_] = lambda v: (A.use(ic), [])[1]
        A.square[is_] = {(): 1, (ic, ic): -1}
        A.cache[key] = (ic, is_)
        E.new_defs()
        E.trigs.append((p, ic, is_))
    ic, is_ = A.cache[key]
    if name == 'cos':
        return Sym({(ic,): 1})
    return Sym({(is_,): sign})


# ------------------------------------------------------------------------------------------------
def var_kinds(e):
    """1: boolean variables occur, 2: real variables occur, 3: both"""
    k = 0
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                k |= 1 if z3.is_bool(x) else 2
                if k == 3:
                    return 3
        else:
            st.extend(x.children())
    return k


class Explorer:
    """depth-first re-execution; the solver decides feasibility of each side of each branch"""

    def __init__(self):
        self.str_concretise = True
        self.reset_all()

    def reset_all(self):
        self.stats = dict(paths=0, branch_queries=0, assert_queries=0, solver_s=0.0, forks=0,
                          forced=0, inconclusive=0)
        self.active = False
        self.divisions = []
        self.trigs = []
        self.prefix = []
        self.solver = None
        self.def_i = 0
        self.branch_timeout = 2000
        self.assert_timeout = 20000
        self.hints = []
        self.pc = []

    # one path
    def start_path(self, prefix):
        A.reset()
        self.divisions = []
        self.trigs = []
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.solver = z3.Solver()
        self.bsolver = z3.Solver()     # constraints over bits only
        self.mixed = False             # some constraint relates bits and reals
        self.def_i = 0
        self.pc = []
        self.active = True
        self.pending = []

    def new_defs(self):
        while self.def_i < len(A.defs):
            c = A.defs[self.def_i][1]
            self.def_i += 1
            if self.solver is not None:
                self._put(c)

    def _put(self, c):
        self.solver.add(c)
        self.pc.append(c)
        k = var_kinds(c)
        if k == 1:
            self.bsolver.add(c)
        elif k == 3:
            self.mixed = True

    def add(self, c):
        self.new_defs()
        self._put(c)

    def check(self, *cs, timeout=None, kind='branch_queries'):
        self.new_defs()
        self.solver.set('timeout', int(timeout or self.branch_timeout))
        t = time.time()
        r = self.solver.check(*cs)
        self.stats['solver_s'] += time.time() - t
        self.stats[kind] += 1
        return r

    def sat_by_hint(self, c):
        """a hint assignment (complete values for the input atoms) satisfying path + c"""
        for h in self.hints:
            cs = h()
            if cs is None:
                continue
            r = self.check(c, *cs, timeout=1500)
            if r == z3.sat:
                return self.solver.model()
        return None

    def feasible(self, c):
        if not self.mixed and var_kinds(c) <= 1:
            # independent of every real-valued constraint of the path
            self.bsolver.set('timeout', int(self.branch_timeout))
            t = time.time()
            r = self.bsolver.check(c)
            self.stats['solver_s'] += time.time() - t
            self.stats['branch_queries'] += 1
            return r != z3.unsat
        if self.hints:
            if self.sat_by_hint(c) is not None:
                return True
        r = self.check(c)
        if r == z3.unsat:
            return False
        return True

    def branch(self, e):
        if not self.active:
            raise Unsupported("symbolic truth value outside a path")
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            s = z3.simplify(e)
            if z3.is_true(s):
                d = (True, False)
            elif z3.is_false(s):
                d = (False, False)
            else:
                t = self.feasible(e)
                f = self.feasible(z3.Not(e)) if t else True
                if t and f:
                    d = (True, True)
                    self.stats['forks'] += 1
                else:
                    d = (bool(t), False)
                    self.stats['forced'] += 1
        self.pos += 1
        self.trace.append(d)
        if self.pos > 20000:
            raise Budget("branch depth")
        val = d[0]
        self.add(e if val else z3.Not(e))
        return val

    def concretise_int(self, s):
        """value of a bit expression, forking over its possible values"""
        p = s.p
        lo = sum(min(0, int(c)) for m, c in p.items() if m) + int(p.get((), 0))
        hi = sum(max(0, int(c)) for m, c in p.items() if m) + int(p.get((), 0))
        for v in range(lo, hi + 1):
            r = compare(padd(p, {(): v} if v else {}, -1), 'eq')
            if r is True or (r is not False and bool(r)):
                return v
        raise PathEnd()

    def assume(self, c):
        if isinstance(c, SBool):
            c = c.e
        elif c is True or c is False or isinstance(c, (bool, np.bool_)):
            if c:
                return
            raise PathEnd()
        self.add(c)
        if self.check(timeout=self.branch_timeout) == z3.unsat:
            raise PathEnd()

    def next_prefixes(self):
        """unexplored siblings of the finished path"""
        t = self.trace
        out = []
        for i in range(len(t) - 1, len(self.prefix) - 1, -1):
            if t[i][1]:
                out.append(t[:i] + [(not t[i][0], False)])
        return out


E = Explorer()
E.start_path([])
E.active = False


def model_value(m, v):
    val = m.eval(v, model_completion=True)
    if z3.is_bool(val):
        return 1 if z3.is_true(val) else 0
    if z3.is_rational_value(val):
        return float(fractions.Fraction(val.numerator_as_long(), val.denominator_as_long()))
    if z3.is_algebraic_value(val):
        ap = val.approx(20)
        return float(fractions.Fraction(ap.numerator_as_long(), ap.denominator_as_long()))
    return float(str(val))


def model_inputs(m):
    out = {}
    for i, name in A.inputs:
        k = A.kind[i]
        if k in 'rb':
            out[name] = model_value(m, A.zv[i])
        else:
            out[name] = [model_value(m, A.zv[i][0]), model_value(m, A.zv[i][1])]
    return out
