"""C14: CholeskyParam."""
from symx.run import Harness
from checks.chanlib import *
from checks.c13 import ref

BOUNDS = 'dimension 1-4, every rank 1..dimension, arbitrary real vectors; way back: every state with a lower triangular factor of positive diagonal; counts up to 8'
ASSUMPTIONS = COMMON_ASSUME + ['the factor is not zero', 'way back: the leading rank x rank block is positive definite (diagonal of the factor above 1e-2)']
STUBS = [NP_STUB, 'numpy.linalg.cholesky: returns the lower triangular factor the matrix was built from; numpy.linalg.solve: exact']
EXPLANATION = 'the state is compared with L L^dag / Tr, L read from the documented layout, and the way back with the state itself'


def factor(h, v, d, rank):
    L = [[0] * rank for _ in range(d)]
    for i in range(rank):
        L[i][i] = v[i]
    k = rank
    for i in range(d):
        for j in range(min(i, rank)):
            L[i][j] = v[k] + 1j * v[k + 1]
            k += 2
    return L, k


def from_vec(h, d=2, rank=2, none=False):
    P = h.mod('chan.param').CholeskyParam
    n = rank + 2 * sum(min(i, rank) for i in range(d))
    v = h.rvec('v', n)
    vs = h.lst(v)
    L, k = factor(h, vs, d, rank)
    nz = 0
    for x in vs:
        nz = nz + x * x
    h.assume(nz > 0.01)
    out = P.rho_from_vec(v, d) if none else P.rho_from_vec(v, d, rank)
    h.eq(out, ref(h, L)[0], 'state of a vector')
    h.eq(v, vs, 'vector unchanged')


def wrong_length(h):
    P = h.mod('chan.param').CholeskyParam
    L = 1 + h.choose('L', 16)
    d, r = 1 + h.choose('d', 3), h.choose('r', 4)
    st, out = h.attempt(P.rho_from_vec, h.arr([0.25 + 0.01 * i for i in range(L)], 'f'), d, r)
    ok = 1 <= r <= d and L == r + 2 * sum(min(i, r) for i in range(d))
    h.true((st == 'ok') == ok, 'accepted exactly when length and rank fit')


def back(h, d=2, rank=2, none=False):
    P = h.mod('chan.param').CholeskyParam
    n = rank + 2 * sum(min(i, rank) for i in range(d))
    vs = [h.real('v_%d' % i) for i in range(n)]
    for i in range(rank):
        h.assume(vs[i] > 0.05)
    L, k = factor(h, vs, d, rank)
    R = h.mul(L, h.dag(L))
    rho = h.arr(R, 'c')
    if h.symbolic:
        tab = []
        for r in range(1, rank + 1):
            tab.append((h.arr([x[:r] for x in R[:r]], 'c'), h.arr([x[:r] for x in L[:r]], 'c')))

        def chol(m, *a, **k):
            for x, f in tab:
                if x.shape == m.shape and h.same(x, m):
                    return f.copy()
            if rank < d and m.shape[0] == d:
                import numpy
                raise numpy.linalg.LinAlgError('Matrix is not positive definite')
            raise h.core.Unsupported('cholesky of an unregistered matrix')
        h.np._linalg_over['cholesky'] = chol
        exact = h._arr.solve_

        def solve(a, b):
            # the unique solution is known when it is the lower part of the factor
            a, b = h._arr.to_obj(a), h._arr.to_obj(b)
            rows = [[h.conj(x) for x in r] for r in L[rank:]]
            for cand in ([list(c) for c in zip(*rows)], [list(c) for c in zip(*L[rank:])]):
                if cand and b.ndim == 2 and a.shape == (rank, rank) and b.shape == (rank, d - rank):
                    if h.same(h.arr(h.mul(h.lst(a), cand), 'c'), b):
                        return h.arr(cand, 'c')
            return exact(a, b)
        h.np._linalg_over['solve'] = solve
    vec = P.vec_from_rho(rho, d) if none else P.vec_from_rho(rho, d, rank)
    h.true(len(vec) == P.numb_variables(d, rank), 'number of variables')
    h.eq(vec, vs, 'vector of a state')
    h.eq(P.rho_from_vec(vec, d, rank), ref(h, L)[0], 'state to vector to state')
    h.eq(rho, R, 'state unchanged')


def pos(rng):
    return {'v_%d' % i: round(rng.uniform(.1, .9), 3) for i in range(16)}


def counts(h):
    P = h.mod('chan.param').CholeskyParam
    d = 1 + h.choose('d', 8)
    r = 1 + h.choose('r', 8)
    h.assume(r <= d)
    n = P.numb_variables(d, r)
    b = P.bounds(d, r)
    h.true(n == r + 2 * sum(min(i, r) for i in range(d)) and len(b) == n, 'one bound per variable')
    h.true(all(lo == 0 for lo, hi in b[:r]) and all(hi >= 1 for lo, hi in b), 'diagonal of the factor is nonnegative')
    h.true(all(lo <= -1 for lo, hi in b[r:]), 'bounds contain every off-diagonal entry of a factor')
    b = P.bounds(d, r, -0.5, 2.0)
    h.true(all((lo, hi) == (0, 2.0) for lo, hi in b[:r]) and all((lo, hi) == (-0.5, 2.0) for lo, hi in b[r:]), 'bounds given by the user')
    for dist in ('normal', 'uniform'):
        v = P.random_vectors(d, r, dist)
        h.true(len(v) == n, 'length of a random vector')
        h.true(all(float(x) >= 0 for x in list(v)[:r]), 'diagonal of a random factor is nonnegative')
    st, e = h.attempt(P.random_vectors, d, r, 'other')
    h.true(st == 'raise' and isinstance(e, TypeError), 'unknown distribution is refused')


HARNESSES = [Harness('vec-d%d-r%d' % (d, r), from_vec, d=d, rank=r) for d in (1, 2, 3) for r in range(1, d + 1)]
HARNESSES += [Harness('vec-d4-r1', from_vec, d=4, rank=1), Harness('vec-d4-r3', from_vec, d=4, rank=3), Harness('vec-d4-r2', from_vec, d=4, rank=2),
              Harness('vec-d4-r4', from_vec, d=4, rank=4), Harness('vec-none-d2', from_vec, none=True), Harness('vec-none-d3', from_vec, d=3, rank=3, none=True),
              Harness('wrong-length', wrong_length, max_paths=1000), Harness('counts', counts, max_paths=500)]
HARNESSES += [Harness('back-d%d-r%d' % (d, r), back, d=d, rank=r, sampler=pos) for d in (1, 2, 3) for r in range(1, d + 1)]
HARNESSES += [Harness('back-none-d2', back, none=True, sampler=pos), Harness('back-d4-r2', back, d=4, rank=2, sampler=pos), Harness('back-d4-r4', back, d=4, rank=4, sampler=pos)]
