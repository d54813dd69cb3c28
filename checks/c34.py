"""C34: errors are corrected by a stabilizer generator that detects them."""
from symx.run import Harness
from checks.codelib import *

BOUNDS = 'every code with (n,k) = (1,0), (2,1), (2,0), every scaled Pauli error, one and two errors, dense and sparse'
EXPLANATION = 'returned operator compared with the product of the error and an anticommuting generator, or the error itself'
ASSUMPTIONS = ['entries are reals and complex numbers (rounding outside the claim)', 'codes, errors and sizes are concrete per harness where stated']
from checks.chanlib import NP_STUB, SPARSE_STUB
STUBS = [NP_STUB, SPARSE_STUB, 'scipy.sparse: algebraic model of the matrices']
MERGE = []

def local(x, z):
    return [[(1 - x), x * (1 - 2 * z)], [x, (1 - x) * (1 - 2 * z)]]


def mat(h, r, n):
    m = [[1]]
    for i in range(n):
        m = h.kron2(m, local(r[i], r[n + i]))
    return m


def check(h, n, k, sparse, ne):
    g, rows = generators(h, n, k)
    if h.symbolic:       # x and z parts by cases
        rows = [[1 if bool(b == 1) else 0 for b in r] for r in rows]
        g = h.arr(rows, 'i')
        h_code = h.mod(NAME)
        from symx import spmodel
        if sparse:
            spmodel.install(h, h_code)
    code = code_class(h)(g, n, k)
    errs, paulis = [], []
    for e in range(ne):
        v = h.lst(h.bits('e%d' % e, 2 * n))
        if h.symbolic:       # the x part of an error is split into cases, its z part stays symbolic
            v = [(1 if bool(b == 1) else 0) if i < n else b for i, b in enumerate(v)]
        c = h.real('c%d' % e)
        h.assume(c * c > .01)
        m = h.arr(h.smul(c, mat(h, v, n)), 'c')
        if sparse:
            if h.symbolic:
                m = spmodel.Csr(m)
            else:
                from scipy.sparse import csr_matrix
                m = csr_matrix(m)
        errs.append(m)
        paulis.append((v, c))
    out = code.kraus_operators_correcting_errors(errs, bool(sparse))
    h.true(len(out) == ne, 'one operator per error')
    for o, (v, c) in zip(out, paulis):
        E = h.smul(c, mat(h, v, n))
        o = h.arr(h.lst(o), 'c')
        detected = [symp(v, r) == 1 for r in rows]
        some = anyof(detected)
        if bool(some):
            # by the first generator that anticommutes, or any other one
            i = next(i for i, d in enumerate(detected) if bool(d))
            want = [(d, h.mul(mat(h, r, n), E)) for d, r in zip(detected, rows)]
            ok = [allof([d, close(h, o, w)]) for d, w in want]
            h.true(anyof(ok), 'a detected error is multiplied by a generator that anticommutes with it')
        else:
            h.true(close(h, o, E), 'an error that commutes with every generator is left as it is')


def close(h, a, b):
    a = h.lst(a)
    cs = []
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            d = p - q
            if isinstance(d, (int, float, complex)):
                cs.append(abs(d) < 1e-6)
            else:
                cs.append((d == 0))
    return allof([c if not isinstance(c, bool) else c for c in cs])


HARNESSES = [Harness('n%d-k%d-%s-errors%d' % (n, k, 'sparse' if sp else 'dense', ne), check, n=n, k=k, sparse=sp, ne=ne, tier=t, sampler=sampler(n, k), samples=5,
                     max_paths=20000, time_s=s, bounds='all generators, every scaled Pauli error on %d qubits, %d errors' % (n, ne))
             for n, k, sp, ne, t, s in [(1, 0, 0, 1, 'quick', 100), (2, 1, 0, 1, 'quick', 200), (2, 1, 1, 1, 'quick', 200), (2, 0, 0, 1, 'quick', 300), (2, 1, 0, 2, 'quick', 300)]]
