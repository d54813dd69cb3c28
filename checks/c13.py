"""C13: OverParam: every real vector is a density matrix of bounded rank, and every state is reached."""
from symx.run import Harness
from checks.chanlib import *

BOUNDS = 'dimension 1-4 with every rank 1..dimension (real vectors of length 2*dimension*rank, arbitrary); counts for dimension and rank up to 8'
ASSUMPTIONS = COMMON_ASSUME + ['the vector is not zero', 'for the way back, nonzero eigenvalues are above 1e-3']
STUBS = [NP_STUB, EIGH_STUB]
EXPLANATION = 'the state is compared with A A^dag / Tr(A A^dag) for the dimension x rank matrix A read from the vector, and the way back with the state itself'


def ref(h, A):
    P = h.mul(A, h.dag(A))
    t = h.tr(P)
    t = t.real if hasattr(t, 'real') and not callable(t.real) else t
    return [[x / t for x in r] for r in P], t


def from_vec(h, d=2, rank=2, none=False, form='array'):
    P = h.mod('chan.param').OverParam
    v = h.rvec('v', 2 * d * rank)
    vs = h.lst(v)
    A = [[vs[2 * (i * rank + j)] + 1j * vs[2 * (i * rank + j) + 1] for j in range(rank)] for i in range(d)]
    nz = 0
    for x in vs:
        nz = nz + x * x
    h.assume(nz > 0.01)
    arg = vs if form == 'list' else v
    st, out = h.attempt(lambda: P.rho_from_vec(arg, d) if none else P.rho_from_vec(arg, d, rank))
    if st == 'raise':
        raise out
    h.eq(out, ref(h, A)[0], 'state of a vector')
    h.eq(v, vs, 'vector unchanged')


def wrong_length(h):
    P = h.mod('chan.param').OverParam
    L = 1 + h.choose('L', 16)
    d, r = 1 + h.choose('d', 2), 1 + h.choose('r', 3)
    st, out = h.attempt(P.rho_from_vec, h.arr([0.25 + 0.01 * i for i in range(L)], 'f'), d, r)
    ok = r <= d and L == 2 * d * r
    h.true((st == 'ok') == ok, 'accepted exactly when length and rank fit')


def back(h, d=2, rank=2):
    P = h.mod('chan.param').OverParam
    C, ws, V = spectral(h, d, tuple(range(d - rank)))
    keep = h.lst(C)
    vec = P.vec_from_rho(C, d, rank)
    h.true(len(vec) == P.numb_variables(d, rank), 'number of variables')
    t = h.tr(keep)
    t = t.real if hasattr(t, 'real') and not callable(t.real) else t
    if h.symbolic:
        h.assume(t > 0.01)
    out = P.rho_from_vec(vec, d, rank)
    h.eq(out, [[x / t for x in r] for r in keep], 'state to vector to state')
    h.eq(C, keep, 'state unchanged')


def counts(h):
    P = h.mod('chan.param').OverParam
    d = 1 + h.choose('d', 8)
    r = 1 + h.choose('r', 8)
    h.assume(r <= d)
    n = P.numb_variables(d, r)
    b = P.bounds(d, r)
    h.true(n == 2 * d * r and len(b) == n, 'one bound per variable')
    h.true(all(lo <= -1 and hi >= 1 for lo, hi in b), 'bounds contain every entry of a factor of a state')
    for dist in ('normal', 'uniform'):
        v = P.random_vectors(d, r, dist)
        h.true(len(v) == n, 'length of a random vector')
    st, e = h.attempt(P.random_vectors, d, r, 'other')
    h.true(st == 'raise' and isinstance(e, TypeError), 'unknown distribution is refused')


HARNESSES = [Harness('vec-d%d-r%d' % (d, r), from_vec, d=d, rank=r) for d in (1, 2, 3) for r in range(1, d + 1)]
HARNESSES += [Harness('vec-d4-r1', from_vec, d=4, rank=1), Harness('vec-d4-r2', from_vec, d=4, rank=2),
              Harness('vec-d4-r4', from_vec, d=4, rank=4), Harness('vec-d4-r3', from_vec, d=4, rank=3),
              Harness('vec-none-d2', from_vec, none=True), Harness('vec-none-d3-r1', from_vec, d=3, rank=1, none=True), Harness('vec-none-d4-r2', from_vec, d=4, rank=2, none=True),
              Harness('vec-list', from_vec, form='list'), Harness('wrong-length', wrong_length, max_paths=500), Harness('counts', counts, max_paths=500)]
HARNESSES += [Harness('back-d%d-r%d' % (d, r), back, d=d, rank=r) for d in (1, 2, 3) for r in range(1, d + 1)]
HARNESSES += [Harness('back-d4-r%d' % r, back, d=4, rank=r) for r in (1, 2)] + [Harness('back-d4-r%d' % r, back, d=4, rank=r) for r in (3, 4)]
