"""shared pieces of the channel harnesses"""
import math


def kops(h, nk, r, c, name='A'):
    return [h.cmat('%s%d' % (name, k), r, c) for k in range(nk)]


def ksum(h, ops, rho, n, adjoint=False):
    ks = h.kron_n([h.lst(a) for a in ops], n)
    rho = h.lst(rho)
    out = None
    for k in ks:
        t = h.mul(h.mul(h.dag(k), rho), k) if adjoint else h.mul(h.mul(k, rho), h.dag(k))
        out = t if out is None else h.addm(out, t)
    return out


def exch(h, ops, rho, n):
    """W_ij = Tr(A_i rho A_j^dagger) over the n-fold tensor products"""
    ks = h.kron_n([h.lst(a) for a in ops], n)
    rho = h.lst(rho)
    kr = [h.mul(k, rho) for k in ks]
    N = len(ks)

    def ent(i, j):
        acc = 0
        for a in range(len(ks[0])):
            for b in range(len(ks[0][0])):
                x, y = kr[i][a][b], ks[j][a][b]
                if (isinstance(x, (int, float, complex)) and x == 0) or (isinstance(y, (int, float, complex)) and y == 0):
                    continue
                acc = acc + x * h.conj(y)
        return acc
    return [[ent(i, j) for j in range(N)] for i in range(N)]


def exch_adj(h, ops, x, n):
    ks = h.kron_n([h.lst(a) for a in ops], n)
    x = h.lst(x)
    out = None
    for i in range(len(ks)):
        for j in range(len(ks)):
            t = h.smul(x[i][j], h.mul(h.dag(ks[i]), ks[j]))
            out = t if out is None else h.addm(out, t)
    return out


def isometry_hint(rng, nk, r, c, name='A'):
    """numeric trace preserving Kraus set"""
    import numpy as np
    g = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    m = g.normal(size=(nk * r, c)) + 1j * g.normal(size=(nk * r, c))
    q, _ = np.linalg.qr(m)
    out = {}
    for k in range(nk):
        for i in range(r):
            for j in range(c):
                z = q[k * r + i, j]
                out['%s%d_%d_%d' % (name, k, i, j)] = [round(float(z.real), 7), round(float(z.imag), 7)]
    return out


def dens_hint(rng, d, name='rho'):
    import numpy as np
    g = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    m = g.normal(size=(d, d)) + 1j * g.normal(size=(d, d))
    m = m.dot(m.conj().T)
    m = m / m.trace().real
    out = {}
    for i in range(d):
        for j in range(d):
            out['%s_%d_%d' % (name, i, j)] = round(float(m[i, i].real), 6) if i == j else \
                [round(float(m[i, j].real), 6), round(float(m[i, j].imag), 6)]
    return out


def tr2(h, m, d1, d2):
    """partial trace of the second factor"""
    return [[sum((m[i * d2 + k][j * d2 + k] for k in range(1, d2)), m[i * d2][j * d2]) for j in range(d1)] for i in range(d1)]


COMMON_ASSUME = ['floating point numbers are treated as reals; rounding is outside the claim (tolerance 1e-5)',
                 'shapes, numbers of operators and n are concrete per harness (listed under harnesses)']
SPARSE_STUB = 'pydata-sparse COO/kron/tensordot/matmul/SparseArray: algebraic model; implicit densification raises'
NP_STUB = 'numpy: object-array model of the numpy functions the code calls'
ACCEPT_STUB = ('trace preservation gate of the constructor answers yes in the public-class harnesses (declared environment model; '
               'the gate itself is decided by C05), so the property is decided for every Kraus set, trace preserving or not')


def accept_all(h):
    """the constructor gate accepts: Kraus sets need not be trace preserving (both modes)"""
    for cls in ('DenseKraus', 'SparseKraus'):
        h.patch(getattr(h.mod('chan._kraus'), cls), 'is_trace_perserving', lambda self: True)


def qchan(h, *a, **k):
    accept_all(h)
    return h.mod('chan.channel').AnalyticQChan(*a, **k)


def choi_of(h, ops, din, dout):
    """sum_ij |i><j| (x) K |i><j| K^dag"""
    n = din * dout
    m = [[0] * n for _ in range(n)]
    for o in ops:
        o = h.lst(o)
        for i in range(din):
            for j in range(din):
                for a in range(dout):
                    for b in range(dout):
                        m[i * dout + a][j * dout + b] = m[i * dout + a][j * dout + b] + o[a][i] * h.conj(o[b][j])
    return m


QUTIP_STUB = 'qutip.Qobj / qutip.ptrace: dense container with the documented partial trace'
CHOI_ACCEPT = 'the CP/TP gate of the Choi constructor answers yes (the gate is decided by C10)'


def choi_env(h, accept=True):
    """qutip model in the symbolic run; the gate of the Choi constructor accepts in both runs"""
    from symx import stubs
    Q = h.mod('chan._choi')
    if h.symbolic:
        F, P = stubs.make_qutip(h)
        h.patch(Q, 'Qobj', F)
        h.patch(Q, 'ptrace', P)
        if accept:
            F.istp = True
            F.iscp = True
        return F
    elif accept:
        import qutip

        class Accepting(qutip.Qobj):
            istp = True
            iscp = True
        h.patch(Q, 'Qobj', Accepting)
        return Accepting


EIGH_STUB = ('numpy.linalg.eigh: returns the decomposition (w, V) the matrix was built from (any w, any V with C = V diag(w) V^dag); '
             'counterexamples are replayed with the real eigh')


def spectral_hint(rng, d, zeros=(), name='v'):
    """orthonormal eigenvectors, ascending eigenvalues over several orders of magnitude"""
    import numpy as np
    g = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    q, _ = np.linalg.qr(g.normal(size=(d, d)) + 1j * g.normal(size=(d, d)))
    ev = sorted(round(10 ** rng.uniform(-4, 0), 6) for _ in range(d - len(zeros)))
    out = {}
    for i, x in zip([i for i in range(d) if i not in zeros], ev):
        out['w%s%d' % (name, i)] = x
    for i in range(d):
        for a in range(d):
            out['%s%d_%d' % (name, i, a)] = [float(q[a, i].real), float(q[a, i].imag)]
    return out


def spectral(h, d, zeros=(), name='v', w=None, floor=1e-3, ascending=False):
    """(C, w, V): C = sum_i w_i v_i v_i^dag with symbolic w_i > 0 (0 for i in zeros) and eigh answering (w, V)"""
    ws, vs = [], []
    C = [[0] * d for _ in range(d)]
    for i in range(d):
        if i in zeros:
            ws.append(0.0)
        else:
            x = h.real('w%s%d' % (name, i)) if w is None else w[i]
            h.assume(x > floor)
            if ascending and ws:
                h.assume(x >= ws[-1])
            ws.append(x)
        v = [h.cplx('%s%d_%d' % (name, i, a)) for a in range(d)]
        vs.append(v)
        if i not in zeros:
            for a in range(d):
                for b in range(d):
                    C[a][b] = C[a][b] + ws[i] * (v[a] * h.conj(v[b]))
    C = h.arr(C, 'c')
    V = h.arr([[vs[i][a] for i in range(d)] for a in range(d)], 'c')
    if h.symbolic:
        W = h.arr(ws, 'f')

        def eigh(m, *a, **k):
            if not h.same(m, C):
                raise h.core.Unsupported('eigh of an unregistered matrix')
            return W.copy(), V.copy()
        h.np._linalg_over['eigh'] = eigh
    return C, ws, V


def cells(cost, limit, nks=(1, 2, 3, 4, 5, 6, 8, 9, 16, 17, 32), dims=(1, 2, 3, 4, 5), ns=(1, 2, 3, 4, 5, 6)):
    """all (number of operators, input dimension, output dimension, uses) whose number of terms is below the limit"""
    return [(nk, ri, ro, n) for n in ns for nk in nks for ri in dims for ro in dims
            if cost(nk, ri, ro, n) <= limit and nk ** n <= 70]


def chunks(cs, cost, parts):
    """distribute the cells over harnesses of about equal cost"""
    out = [[0, []] for _ in range(parts)]
    for c in sorted(cs, key=lambda c: -cost(*c)):
        g = min(out, key=lambda g: g[0])
        g[0] += cost(*c) + 200
        g[1].append(c)
    return [g[1] for g in out]


def grid(Harness, name, f, cost, quick, thorough, parts=8, **kw):
    """harnesses over a grid of sizes; f(h, nk, ri, ro, n) checks one of them"""
    def body(h, cs):
        for c in cs:
            f(h, *c)
    out = []
    cq = cells(cost, quick, **kw)
    for i, g in enumerate(chunks(cq, cost, parts)):
        out.append(Harness('%s-%d' % (name, i), body, cs=g, time_s=300, samples=1, bounds='all numbers of operators, dimensions and uses with at most %d terms, part %d' % (quick, i)))
    ct = [c for c in cells(cost, thorough, **kw) if c not in cq]
    for i, g in enumerate(chunks(ct, cost, parts * 2)):
        out.append(Harness('%s-large-%d' % (name, i), body, cs=g, tier='thorough', time_s=3000, samples=1,
                           bounds='all numbers of operators, dimensions and uses with at most %d terms, part %d' % (thorough, i)))
    return out


def chan_cost(nk, ri, ro, n):
    return nk ** n * (ri * ro) ** (2 * n)


def exch_cost(nk, ri, ro, n):
    return nk ** (2 * n) * (ri * ri * ro) ** n
