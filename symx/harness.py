"""Harness objects: the same harness function runs symbolically (deciding) and concretely (replay)."""
import sys, os, json, time, random, traceback, importlib, math
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
MODS = ['PyQCodes.chan._kraus', 'PyQCodes.chan._choi', 'PyQCodes.chan._coherent', 'PyQCodes.chan.channel',
        'PyQCodes.chan.param', 'PyQCodes._optimize', 'PyQCodes.avgfid.avg_fidelity', 'PyQCodes.codes',
        'PyQCodes.find_codes', 'PyQCodes.device_adaptor']


class AssumptionFailed(Exception):
    pass


class CheckFailed(Exception):
    """an assertion of the harness failed on this path"""


class Viol(Exception):
    def __init__(self, label, values, kind='assert', note=''):
        Exception.__init__(self, label)
        self.label, self.values, self.kind, self.note = label, values, kind, note


def load_mods():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings('ignore')
    for m in MODS:
        importlib.import_module(m)
    for m in MODS:
        f = os.path.realpath(sys.modules[m].__file__)
        assert f.startswith(os.path.realpath(REPO) + os.sep), f


class Restart(BaseException):
    pass


class Base:
    def __init__(self):
        self._undo = []
        self.stub_log = []

    def mod(self, name):
        return sys.modules[name if name.startswith('PyQCodes') else 'PyQCodes.' + name]

    def patch(self, obj, name, val):
        missing = object()
        if isinstance(obj, dict):
            old = obj.get(name, missing)
            obj[name] = val
            self._undo.append((obj, name, old, missing, True))
        else:
            old = obj.__dict__.get(name, missing) if isinstance(obj, type(sys)) else getattr(obj, name, missing)
            setattr(obj, name, val)
            self._undo.append((obj, name, old, missing, False))

    def undo(self):
        for obj, name, old, missing, isd in reversed(self._undo):
            if isd:
                if old is missing:
                    obj.pop(name, None)
                else:
                    obj[name] = old
            elif old is missing:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self._undo = []

    def reals(self, name, n):
        return [self.real('%s%d' % (name, i)) for i in range(n)]

    def cmat(self, name, r, c=None):
        c = r if c is None else c
        return self.arr([[self.cplx('%s_%d_%d' % (name, i, j)) for j in range(c)] for i in range(r)], 'c')

    def rmat(self, name, r, c=None):
        c = r if c is None else c
        return self.arr([[self.real('%s_%d_%d' % (name, i, j)) for j in range(c)] for i in range(r)], 'f')

    def rvec(self, name, n):
        return self.arr([self.real('%s_%d' % (name, i)) for i in range(n)], 'f')

    def herm(self, name, d):
        m = [[0] * d for _ in range(d)]
        for i in range(d):
            m[i][i] = self.real('%s_%d_%d' % (name, i, i))
            for j in range(i + 1, d):
                z = self.cplx('%s_%d_%d' % (name, i, j))
                m[i][j] = z
                m[j][i] = self.conj(z)
        return self.arr(m, 'c')

    def bits(self, name, *shape):
        if len(shape) == 1:
            return self.arr([self.bit('%s_%d' % (name, i)) for i in range(shape[0])], 'i')
        return self.arr([[self.bit('%s_%d_%d' % (name, i, j)) for j in range(shape[1])] for i in range(shape[0])], 'i')

    # plain python reference arithmetic on nested lists, usable in both modes
    def lst(self, x):
        """nested python list of entries"""
        x = self.dense(x)
        if hasattr(x, 'tolist'):
            return x.tolist()
        return x

    @staticmethod
    def conj(z):
        return z.conjugate() if hasattr(z, 'conjugate') else z

    def dag(self, m):
        return [[self.conj(m[i][j]) for i in range(len(m))] for j in range(len(m[0]))]

    @staticmethod
    def mul(a, b):
        if len(a[0]) != len(b):
            raise AssertionError('harness: dimension mismatch')
        return [[_s(a[i][k] * b[k][j] for k in range(len(b)) if not _z(a[i][k]) and not _z(b[k][j]))
                 for j in range(len(b[0]))] for i in range(len(a))]

    @staticmethod
    def addm(a, b):
        return [[a[i][j] + b[i][j] for j in range(len(a[0]))] for i in range(len(a))]

    @staticmethod
    def smul(c, a):
        return [[c * x for x in r] for r in a]

    @staticmethod
    def tr(a):
        return _s(a[i][i] for i in range(min(len(a), len(a[0]))))

    @staticmethod
    def kron2(a, b):
        return [[a[i][j] * b[k][l] for j in range(len(a[0])) for l in range(len(b[0]))]
                for i in range(len(a)) for k in range(len(b))]

    @staticmethod
    def eye(n):
        return [[1 if i == j else 0 for j in range(n)] for i in range(n)]

    def kron_n(self, ops, n):
        cur = [[[1]]]
        for _ in range(n):
            cur = [self.kron2(a, b) for a in cur for b in ops]
        return cur


def _z(x):
    return isinstance(x, (int, float, complex)) and x == 0


def _s(it):
    r = 0
    for v in it:
        r = r + v
    return r


class Expect(Exception):
    pass


# ------------------------------------------------------------------------------------------------
class ConcH(Base):
    """concrete values; assertions evaluated numerically on the unpatched code"""
    symbolic = False

    def __init__(self, values, rng=None, tol=2e-6):
        Base.__init__(self)
        self.values = dict(values)
        self.rng = rng
        self.tol = tol
        self.failures = []
        self.checked = 0
        self.scale = 1.0

    def _get(self, name, gen):
        if name not in self.values:
            self.values[name] = gen() if self.rng is not None else 0
        return self.values[name]

    def real(self, name, env=False):
        return float(self._get(name, lambda: round(self.rng.uniform(-1, 1), 3)))

    def cplx(self, name):
        v = self._get(name, lambda: [round(self.rng.uniform(-1, 1), 3), round(self.rng.uniform(-1, 1), 3)])
        if isinstance(v, (list, tuple)):
            return complex(v[0], v[1])
        return complex(v)

    def bit(self, name):
        return int(self._get(name, lambda: self.rng.randint(0, 1)))

    def choose(self, name, n):
        nb = max(1, (n - 1).bit_length())
        v = 0
        for i in range(nb):
            v |= self.bit('%s#%d' % (name, i)) << i
        self.assume(v < n)
        return v

    def arr(self, x, kind='c'):
        return np.array(x, dtype={'c': complex, 'f': float, 'i': int}[kind])

    def dense(self, x):
        if isinstance(x, np.ndarray):
            return np.asarray(x)
        if hasattr(x, 'todense'):
            return np.asarray(x.todense())
        if hasattr(x, 'toarray'):
            return x.toarray()
        return x

    def assume(self, c):
        if not bool(c):
            raise AssumptionFailed()

    def assume_eq(self, a, b):
        if not np.all(np.abs(np.asarray(a, dtype=complex) - np.asarray(b, dtype=complex)) < 1e-7):
            raise AssumptionFailed()

    def eq(self, a, b, label):
        self.checked += 1
        a, b = self.dense(a), self.dense(b)
        try:
            a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
        except Exception as e:
            self.failures.append((label, 'not numeric: %s' % e))
            return
        if a.shape != b.shape:
            self.failures.append((label, 'shape %s vs %s' % (a.shape, b.shape)))
            return
        if a.size and not (np.abs(a - b) <= self.tol * (1 + np.abs(b))).all():
            i = np.unravel_index(np.nanargmax(np.where(np.isnan(np.abs(a - b)), 1e300, np.abs(a - b))), a.shape) if a.ndim else ()
            self.failures.append((label, 'entry %s: got %r, required %r' % (tuple(int(q) for q in i), a[i], b[i])))

    def true(self, c, label, note=''):
        self.checked += 1
        if not bool(c):
            self.failures.append((label, 'required condition is false %s' % note))

    def true_any(self, thunks, label):
        """one of the conditions holds (different ones for different inputs)"""
        self.true(any(bool(t()) for t in thunks), label)

    def le(self, a, b, label):
        self.checked += 1
        if not (a <= b + self.tol):
            self.failures.append((label, '%r > %r' % (a, b)))

    def fail(self, label, note=''):
        self.checked += 1
        self.failures.append((label, note))

    def attempt(self, f, *a, **k):
        try:
            return 'ok', f(*a, **k)
        except Exception as e:
            return 'raise', e

    def sqrt(self, x):
        return math.sqrt(x) if not isinstance(x, complex) else x ** .5

    def log2(self, x):
        return math.log2(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def env(self, f_sym, f_conc=None):
        return f_conc() if f_conc else None

    def pstr(self, row):
        n = len(row) // 2
        return ''.join('IZXY'[2 * int(row[i]) + int(row[n + i])] for i in range(n))

    def same(self, a, b):
        a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) < 1e-9))

    def int_of(self, b):
        return int(b)

    def simp(self, x):
        return x


class SymH(Base):
    symbolic = True

    def __init__(self):
        Base.__init__(self)
        from . import core, arr
        self.core, self.A, self.E, self._arr = core, core.A, core.E, arr
        self.n_asserts = 0
        self.box = 4.0
        self.tol = 1e-5

    # inputs
    def real(self, name, env=False):
        return self.core.Sym({(self.A.real(name),): 1})

    def cplx(self, name):
        return self.core.Sym({(self.A.cplx(name),): 1})

    def bit(self, name):
        return self.core.Sym({(self.A.bit(name),): 1})

    def choose(self, name, n):
        """an arbitrary value in range(n), by forking"""
        nb = max(1, (n - 1).bit_length())
        v = 0
        for i in range(nb):
            if bool(self.bit('%s#%d' % (name, i)) == 1):
                v |= 1 << i
        self.assume(v < n)
        return v

    def arr(self, x, kind='c'):
        return self._arr.from_list(x, kind) if len(x) else self._arr.zeros_((0,))

    def dense(self, x):
        if isinstance(x, np.ndarray):
            return x
        if hasattr(x, 'todense'):
            return x.todense()
        return x

    def assume(self, c):
        self.E.assume(c)

    def assume_eq(self, a, b):
        a, b = self._arr.to_obj(a), self._arr.to_obj(b)
        for x, y in zip(a.base_view().flat, b.base_view().flat):
            c = (x == y)
            if isinstance(c, self.core.SBool):
                self.E.add(c.e)
            elif not c:
                raise self.core.PathEnd()
        import z3
        if self.E.check() == z3.unsat:
            raise self.core.PathEnd()

    def _prove(self, bad, label, trivially=False, nonlinear=False):
        """bad: list of z3 conditions, any of which is a violation"""
        import z3
        self.n_asserts += 1
        E = self.E
        if not bad:
            bad = [z3.BoolVal(False)]
        goal = z3.Or(*bad) if len(bad) > 1 else bad[0]
        if not trivially:
            m = E.sat_by_hint(goal) if E.hints else None
            if m is None and any(k in 'rz' for k in self.A.kind):
                m = self._by_random(goal, 2)
            if m is not None:
                raise Viol(label, self.core.model_inputs(m))
        r = E.check(goal, timeout=E.assert_timeout, kind='assert_queries')
        if r == z3.unsat:
            return
        if r == z3.sat:
            m = E.solver.model()
            raise Viol(label, self.core.model_inputs(m))
        # inconclusive: try random assignments of the inputs, each decided by the solver
        m = self._by_random(goal, 20)
        if m is not None:
            raise Viol(label, self.core.model_inputs(m))
        E.stats['inconclusive'] += 1
        self.inconclusive.append(label)

    def _by_random(self, goal, tries):
        import z3
        rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
        for t in range(tries):
            cs = []
            for i, name in self.A.inputs:
                k = self.A.kind[i]
                for v in (self.A.zv[i] if isinstance(self.A.zv[i], tuple) else (self.A.zv[i],)):
                    if k == 'b':
                        cs.append(v == bool(rng.getrandbits(1)))
                    else:
                        cs.append(v == z3.RealVal(rng.choice(['-3/2', '-1', '-1/2', '1/2', '1', '2', '1/4'])))
            if self.E.check(goal, *cs, timeout=1000) == z3.sat:
                return self.E.solver.model()
        return None

    inconclusive = []

    def eq(self, a, b, label):
        import z3
        core = self.core
        try:
            a, b = self._arr.to_obj(self.dense(a)), self._arr.to_obj(self.dense(b))
        except ValueError as e:
            raise Viol(label, None, 'shape', str(e))
        if a.shape != b.shape:
            raise Viol(label, None, 'shape', 'shape %s vs %s' % (a.shape, b.shape))
        bad = []
        triv = True
        budget = 1500
        for x, y in zip(a.base_view().flat, b.base_view().flat):
            px, py = core.poly_of(x), core.poly_of(y)
            if px is None or py is None:
                raise Viol(label, None, 'shape', 'not numeric: %r / %r' % (x, y))
            d = core.padd(px, py, -1)
            if not d:
                size = sum(2 ** len(m) for m in px) if len(px) < 500 else 10 ** 6
                if px and size < budget:
                    budget -= size
                    lx, ly = core.p_reim(px), core.p_reim(py)
                    for p, q in zip(lx, ly):
                        if p or q:
                            # coefficients that agree up to rounding are compared as equal numbers
                            q = {v: (p[v] if v in p and abs(c - p[v]) < 1e-9 else c) for v, c in q.items() if v in p or abs(c) > 1e-9}
                            p = {v: c for v, c in p.items() if v in q or abs(c) > 1e-9}
                            bad.append(core.rdict_z3(p) != core.rdict_z3(q))
                continue
            triv = False
            c = core.pconst(d)
            if c is not None:
                if abs(c) > self.tol:
                    bad.append(z3.BoolVal(True))
                continue
            if core._allbits(d):
                bad.append(core.bits_cond(d, 'ne'))
                continue
            re, im = core.p_reim(d)
            for p in (re, im):
                if p:
                    t = core.rdict_z3(p)
                    bad.append(z3.Or(t > self.tol, t < -self.tol))
        if not triv:
            bx = []
            for i, name in self.A.inputs:
                if self.A.kind[i] == 'b':
                    continue
                for v in (self.A.zv[i] if isinstance(self.A.zv[i], tuple) else (self.A.zv[i],)):
                    bx += [v <= self.box, v >= -self.box]
            if bx:
                bad = [z3.And(z3.Or(*bad), *bx)] if bad else bad
        self._prove(bad, label, trivially=triv)

    def true(self, c, label, note=''):
        import z3
        core = self.core
        if isinstance(c, np.ndarray):
            c = c.all()
        if isinstance(c, core.Sym):
            c = (c != 0)
        if isinstance(c, core.SBool):
            self._prove([z3.Not(c.e)], label)
        elif not c:
            self._prove([z3.BoolVal(True)], label)
        else:
            self._prove([z3.BoolVal(False)], label, trivially=True)

    def true_any(self, thunks, label):
        """the disjunction holds; conditions are built one after the other until the solver confirms it"""
        import z3
        acc = False
        for t in thunks:
            c = t()
            if not isinstance(c, self.core.SBool):
                if c:
                    acc = True
                    break
                continue
            acc = c if acc is False else acc | c
            if self.core.E.check(z3.Not(acc.e), timeout=2000) == z3.unsat:
                break
        self.true(acc, label)

    def le(self, a, b, label):
        self.true(a <= b, label)

    def fail(self, label, note=''):
        self.true(False, label)

    def attempt(self, f, *a, **k):
        try:
            return 'ok', f(*a, **k)
        except self.core.Unsupported:
            raise
        except self.core.Budget:
            raise
        except Viol:
            raise
        except Exception as e:
            if self.merge is not None and self.merge.GUARDS:
                self.merge.fail('exception %r' % (e,))
            return 'raise', e

    merge = None

    def sqrt(self, x):
        return self._arr._sqrt(x)

    def log2(self, x):
        return self._arr._log2(x)

    def cos(self, x):
        return x.cos() if isinstance(x, self.core.Sym) else math.cos(x)

    def sin(self, x):
        return x.sin() if isinstance(x, self.core.Sym) else math.sin(x)

    def env(self, f_sym, f_conc=None):
        return f_sym()

    def pstr(self, row):
        """Pauli string of a binary row; its letters are symbolic"""
        from . import merge
        import z3
        n = len(row) // 2
        cs = []
        for i in range(n):
            x, z = merge.bit_of(row[i]), merge.bit_of(row[n + i])
            al = [(z3.simplify(z3.And(a, b)), ch) for a, b, ch in ((z3.Not(x), z3.Not(z), 'I'), (x, z3.Not(z), 'X'),
                                                                   (x, z, 'Y'), (z3.Not(x), z, 'Z'))]
            al = [(c, ch) for c, ch in al if not z3.is_false(c)]
            cs.append(al[0][1] if len(al) == 1 else merge.PChar(al))
        return merge.PStr(cs)

    def same(self, a, b):
        """syntactic (canonical) equality of two arrays"""
        a, b = self._arr.to_obj(a), self._arr.to_obj(b)
        if a.shape != b.shape:
            return False
        for x, y in zip(a.base_view().flat, b.base_view().flat):
            if self.core.pkey(self.core.padd(self.core.poly_of(x), self.core.poly_of(y), -1)):
                return False
        return True

    def int_of(self, b):
        return int(b)


def patch_modules(h):
    """give the modules under test the symbolic numpy, builtins and sparse model"""
    from . import arr, stubs_sparse
    import numpy
    h.np = arr.NPProxy()
    try:
        import sparse as real_sparse
    except Exception:
        real_sparse = None
    for name in MODS:
        m = sys.modules[name]
        for k, v in list(m.__dict__.items()):
            if v is numpy:
                h.patch(m, k, h.np)
            elif real_sparse is not None and k in stubs_sparse.TABLE and getattr(v, '__module__', '').startswith('sparse'):
                h.patch(m, k, stubs_sparse.TABLE[k])
            elif v is real_sparse and real_sparse is not None:
                h.patch(m, k, stubs_sparse)
        for k, v in arr.BUILTINS.items():
            if k not in m.__dict__:
                h.patch(m, k, v)
