"""C23: the encoder matrix is an isometry onto the joint plus one eigenspace of the generators."""
from symx.run import Harness
from checks.codelib import *

from checks.chanlib import NP_STUB, SPARSE_STUB
MERGE = [NAME]
BOUNDS = 'every code with (n,k) = (1,0), (2,1), (2,0), (3,2), (3,1) quick, (4,3), (4,2) thorough, dense'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness', 'paths that differ only in a bit are merged into one symbolic value (if-conversion of the real source, regenerated on every run)', 'generators are independent and commute', 'the x part of the generators is split into cases by the solver-driven explorer, the z part stays symbolic']
STUBS = [NP_STUB, 'numpy.linalg.eigh / null spaces: exact eigenvectors of Pauli operators in an eigenbasis']
EXPLANATION = 'the returned matrix V is compared with V^dag V = 1 and S V = V for every generator'


def eigh_monomial(h):
    """numpy.linalg.eigh on a Hermitian matrix with one entry of modulus one in every row (a Pauli operator in an eigenbasis of
    others): pairs (e_r +- M_cr e_c)/sqrt(2), diagonal entries as they are; ascending eigenvalues"""
    core, arr = h.core, h._arr
    s = .5 ** .5

    def zero(v):
        p = core.poly_of(v)
        if p is not None and all(isinstance(c, (int, float)) and abs(c) < 1e-9 or abs(c) < 1e-9 for c in p.values()):
            return True
        r = (v == 0)
        return bool(r)

    def eigh(m, *a, **k):
        m = h.lst(m)
        n = len(m)
        col = []
        for r in range(n):
            nz = [c for c in range(n) if not zero(m[r][c])]
            if len(nz) != 1:
                raise core.Unsupported('eigh of a matrix that is not a Pauli operator in an eigenbasis')
            col.append(nz[0])
        lo, hi = [], []
        for r in range(n):
            c = col[r]
            if col[c] != r:
                raise core.Unsupported('eigh of a non-Hermitian matrix')
            if c == r:
                d = m[r][r]
                pos = bool((d.real if hasattr(d, 'real') else d) > 0)
                (hi if pos else lo).append([1 if i == r else 0 for i in range(n)])
            elif c > r:
                for sg, lst in ((1, hi), (-1, lo)):
                    lst.append([s if i == r else sg * s * m[c][r] if i == c else 0 for i in range(n)])
        vecs = lo + hi
        w = np.array([-1.] * len(lo) + [1.] * len(hi))
        return w, h.arr([[vecs[j][i] for j in range(n)] for i in range(n)], 'c')
    return eigh


def check(h, n, k, sparse=False, part=None):
    m = n - k
    g, rows = generators(h, n, k, part=part)
    # the x part is split into cases, the z part stays symbolic
    if h.symbolic:
        rows = [[(1 if bool(b == 1) else 0) if j < n else b for j, b in enumerate(r)] for r in rows]
        g = h.arr(rows, 'i')
        h.np._linalg_over['eigh'] = eigh_monomial(h)
    code = code_class(h)(g, n, k)
    V = h.lst(code.encode_krauss_operators(sparse=sparse))
    h.true(len(V) == 2 ** n and all(len(r) == 2 ** k for r in V), 'the encoder maps k qubits to n qubits')
    h.eq(h.mul(h.dag(V), V), h.eye(2 ** k), 'the encoder is an isometry')
    for r in rows:
        S = [[1]]
        for i in range(n):
            x, z = r[i], r[n + i]
            S = h.kron2(S, [[1 - x, x * (1 - 2 * z)], [x, (1 - x) * (1 - 2 * z)]])
        y = sum(r[i] * r[n + i] for i in range(n)) % 2
        # products XZ: an odd number is made Hermitian by i
        SV = h.mul(S, V)
        h.eq(h.smul(1 + y * (1j - 1), SV), V, 'every column of the encoder is in the plus one eigenspace of every generator')


HARNESSES = [Harness('n%d-k%d%s' % (n, k, '-sparse' if sp else ''), check, n=n, k=k, sparse=bool(sp), tier=t, sampler=sampler(n, k), samples=6, max_paths=20000, time_s=s,
                     bounds='all %d bits of %d generators on %d qubits' % (2 * n * (n - k), n - k, n))
             for n, k, sp, t, s in [(1, 0, 0, 'quick', 100), (2, 1, 0, 'quick', 100), (2, 0, 0, 'quick', 200), (3, 2, 0, 'quick', 200), (4, 3, 0, 'thorough', 2000)]]
# the same check in eight parts
HARNESSES += in_parts(3, 1, 3, lambda sfx, part, smp: Harness('n3-k1' + sfx, check, n=3, k=1, part=part, sampler=smp, samples=2, max_paths=20000, time_s=700,
                                                               bounds='generators on 3 qubits whose first begins with the bits %s, all other bits' % (part,)))
HARNESSES += in_parts(4, 2, 4, lambda sfx, part, smp: Harness('n4-k2' + sfx, check, n=4, k=2, part=part, sampler=smp, tier='thorough', samples=1, max_paths=20000, time_s=2500,
                                                               bounds='generators on 4 qubits whose first begins with the bits %s, all other bits' % (part,)))
