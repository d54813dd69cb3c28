"""Environment models: qutip objects, matrix square roots, eigenvalue routines."""
import numpy as np
from . import arr
from .arr import to_obj, wrap, SymArray
from .core import Sym, SBool, Unsupported, E, A


class FakeData:
    """sparse csr data of a Qobj: dot with dense gives dense"""

    def __init__(self, m):
        self.m = to_obj(m)
        self.shape = self.m.shape

    def dot(self, o):
        if isinstance(o, FakeData):
            return FakeData(arr.dot_(self.m, o.m))
        return arr.dot_(self.m, o)

    def __matmul__(self, o):
        return self.dot(o)

    def __mul__(self, o):
        return self.dot(o) if isinstance(o, (np.ndarray, FakeData)) else FakeData(self.m * o)

    def todense(self):
        return self.m.copy()

    toarray = todense

    @property
    def T(self):
        return FakeData(self.m.T)

    def conj(self):
        return FakeData(self.m.conj())


def flat_dims(d):
    """as qutip: the nested list of dims must be rectangular"""
    a = np.asarray(d, dtype=np.int32).ravel()
    return [int(x) for x in a]


def make_qutip(h):
    """stand-ins for qutip.Qobj and qutip.ptrace; records constructions in h.stub_log"""

    class FakeQobj:
        def __init__(self, inpt=None, dims=None, shape=None, type=None, isherm=None, superrep=None, **kw):
            if isinstance(inpt, FakeQobj):
                m = inpt.m
            elif isinstance(inpt, FakeData):
                m = inpt.m
            else:
                m = to_obj(inpt)
            self.m = m
            self.dims = dims
            self.type = type
            self.superrep = superrep
            self.data = FakeData(m)
            self.shape = m.shape
            h.stub_log.append(('Qobj', self))

        def full(self):
            return self.m.copy()

        def ptrace(self, sel, sparse=None):
            rd = flat_dims(self.dims[0])
            sel = [sel] if isinstance(sel, int) else sorted(int(s) for s in sel)
            for x in sel:
                if not 0 <= x < len(rd):
                    raise IndexError("Invalid selection index in ptrace.")
            if len(set(sel)) != len(sel):
                raise ValueError("Duplicate selection index in ptrace.")
            n = len(rd)
            tot = int(np.prod(rd))
            v = self.m.base_view()
            if v.shape != (tot, tot):
                raise ValueError("cannot reshape array of size %d into shape %s" % (v.size, rd + rd))
            keep = sel
            dk = [rd[i] for i in keep]
            K = int(np.prod(dk)) if dk else 1
            o = np.empty((K, K), dtype=object)
            o.fill(0)
            t = v.reshape(rd + rd)
            for i in np.ndindex(*rd):
                for jk in np.ndindex(*dk):
                    j = list(i)
                    for p, q in zip(keep, jk):
                        j[p] = q
                    a = int(np.ravel_multi_index([i[p] for p in keep], dk)) if dk else 0
                    b = int(np.ravel_multi_index(jk, dk)) if dk else 0
                    o[a, b] = o[a, b] + t[tuple(i) + tuple(j)]
            return FakeQobj(wrap(o, self.m.kind), dims=[dk, dk])

        @property
        def istp(self):
            # collapsed dims [[in],[out]]: partial trace over the output equals the identity
            if self.type not in ('super', 'oper') or self.superrep != 'choi':
                raise Unsupported("istp of a Qobj that is not a Choi matrix")
            di = int(np.prod(self.dims[0][0]))
            do = int(np.prod(self.dims[0][1]))
            v = self.m.base_view().reshape(di, do, di, do)
            o = np.empty((di, di), dtype=object)
            for i in range(di):
                for j in range(di):
                    s = 0
                    for k in range(do):
                        s = s + v[i, k, j, k]
                    o[i, j] = s
            return arr.all_(arr.map_(lambda z: abs(z) <= 1e-9, wrap(o) - arr.eye_(di), 'b'))

        @property
        def iscp(self):
            if self.type not in ('super', 'oper') or self.superrep != 'choi':
                raise Unsupported("iscp of a Qobj that is not a Choi matrix")
            return h.cp_oracle(self.m) if hasattr(h, 'cp_oracle') else True

    def ptrace(Q, sel):
        return Q.ptrace(sel)
    return FakeQobj, ptrace


class LinEnv:
    """Environment model of the eigenvalue routines and sqrtm.

    register(m, w, V): m = V diag(w) V^dag by construction.  Any other matrix gets fresh eigenvalues, the same for a matrix and its
    transpose (Hermitian inputs).  Matrices are recognised by canonical polynomial equality, so algebraically equal expressions of
    the same matrix get the same answer.  sqrtm of an unregistered matrix is a fresh Hermitian matrix with trace sum sqrt(w)."""

    def __init__(self, h, psd=True, floor=0):
        self.h, self.psd, self.floor = h, psd, floor
        self.tab = []        # (matrix, w list, V or None, root or None)
        self.n = 0
        self.misses = []
        import scipy.linalg
        h.np._linalg_over.update(eigvalsh=self.eigvalsh, eigvals=self.eigvalsh, eigh=self.eigh, eig=self.eigh)
        from .harness import MODS
        import sys
        for name in MODS:
            m = sys.modules[name]
            for k, v in list(m.__dict__.items()):
                if callable(v) and getattr(v, '__module__', '').startswith('scipy.linalg'):
                    f = {'sqrtm': self.sqrtm, 'eigh': self.eigh, 'eigvalsh': self.eigvalsh, 'eigvals': self.eigvalsh}.get(v.__name__)
                    if f:
                        h.patch(m, k, f)
        self.sqrtm_fn = self.sqrtm

    def register(self, m, w=None, V=None, root=None):
        self.tab.append([to_obj(m), list(w) if w is not None else None, V, root])

    def lookup(self, m):
        for e in self.tab:
            if self.h.same(e[0], m):
                return e, False
        for e in self.tab:
            if e[0].shape == m.shape and self.h.same(e[0], m.T):
                return e, True
        d = m.shape[0]
        self.n += 1
        e = [m, [self.h.real('env_eig%d_%d' % (self.n, i)) for i in range(d)], None, None]
        if self.psd:
            for x in e[1]:
                self.h.assume(x >= self.floor)
        self.tab.append(e)
        return e, False

    def _w(self, e):
        if e[1] is None:
            self.n += 1
            e[1] = [self.h.real('env_eig%d_%d' % (self.n, i)) for i in range(e[0].shape[0])]
        return e[1]

    def eigvalsh(self, m, *a, **k):
        m = to_obj(m)
        if m.ndim == 3:
            return self.h.arr([[x for x in self._w(self.lookup(to_obj(b))[0])] for b in m], 'f')
        return self.h.arr(list(self._w(self.lookup(m)[0])), 'f')

    def eigh(self, m, *a, **k):
        m = to_obj(m)
        e, tr = self.lookup(m)
        if e[2] is None:
            raise Unsupported('eigenvectors of an unregistered matrix')
        V = to_obj(e[2])
        return self.h.arr(list(e[1]), 'f'), (V.conj() if tr else V.copy())

    def sqrtm(self, m, *a, **k):
        m = to_obj(m)
        e, tr = self.lookup(m)
        if e[3] is None:
            h, d = self.h, m.shape[0]
            w = self._w(e)
            if e[2] is not None:
                V = h.lst(e[2])
                e[3] = h.arr([[sum((V[i][q] * h.sqrt(w[q]) * h.conj(V[j][q]) for q in range(d)), 0) for j in range(d)] for i in range(d)], 'c')
            else:
                self.n += 1
                r = h.lst(h.herm('env_root%d' % self.n, d))
                t = 0
                for q in range(d):
                    t = t + h.sqrt(w[q])
                for q in range(d - 1):
                    t = t - r[q][q]
                r[d - 1][d - 1] = t
                e[3] = h.arr(r, 'c')
        r = to_obj(e[3])
        return r.T.copy() if tr else r.copy()
