"""C15: StandardBasis is a bijection between real vectors and Hermitian matrices; random vectors respect the bounds."""
from symx.run import Harness
from checks.chanlib import *

BOUNDS = 'dimension 1-5 (arbitrary real vectors of length dimension^2 and arbitrary Hermitian matrices); uniform samplers: every outcome in the requested range, dimension 1-3, every rank'
ASSUMPTIONS = COMMON_ASSUME
STUBS = [NP_STUB, 'numpy.random: any value in the requested range']
EXPLANATION = 'both directions are compared entry by entry with the documented row-by-row layout'


def layout(h, v, d):
    m = [[0] * d for _ in range(d)]
    k = 0
    for i in range(d):
        m[i][i] = v[k]
        k += 1
        for j in range(i + 1, d):
            m[i][j] = v[k] + 1j * v[k + 1]
            m[j][i] = v[k] - 1j * v[k + 1]
            k += 2
    return m


def there(h, d=2):
    P = h.mod('chan.param').StandardBasis
    v = h.rvec('v', d * d)
    vs = h.lst(v)
    rho = P.rho_from_vec(v, d)
    h.eq(rho, layout(h, vs, d), 'matrix of a vector')
    h.eq(P.vec_from_rho(rho, d), vs, 'vector to matrix to vector')
    h.eq(v, vs, 'vector unchanged')


def back(h, d=2):
    P = h.mod('chan.param').StandardBasis
    m = h.herm('m', d)
    keep = h.lst(m)
    v = P.vec_from_rho(m, d)
    h.true(len(v) == d * d == P.numb_variables(d) == len(P.bounds(d)), 'number of variables')
    h.eq(P.rho_from_vec(v, d), keep, 'matrix to vector to matrix')


class Rand:
    """numpy.random: arbitrary outcomes"""

    def __init__(self, h):
        self.h, self.n = h, 0

    def uniform(self, low=0., high=1., size=None):
        n = int(np_prod(size))
        out = []
        for _ in range(n):
            x = self.h.real('u%d' % self.n)
            self.n += 1
            self.h.assume(x >= low)
            self.h.assume(x <= high)
            out.append(x)
        return self.h.arr(out, 'f')

    def normal(self, loc=0., scale=1., size=None):
        n = int(np_prod(size))
        out = []
        for _ in range(n):
            out.append(self.h.real('g%d' % self.n))
            self.n += 1
        return self.h.arr(out, 'f')


def np_prod(s):
    if s is None:
        return 1
    if isinstance(s, (tuple, list)):
        p = 1
        for x in s:
            p *= x
        return p
    return s


def sampler(h, cls='OverParam', d=2, rank=2, bnd=None):
    P = getattr(h.mod('chan.param'), cls)
    if h.symbolic:
        h.np._over['random'] = Rand(h)
    if bnd:
        v, b = P.random_vectors(d, rank, 'uniform', *bnd), P.bounds(d, rank, *bnd)
    else:
        v, b = P.random_vectors(d, rank, 'uniform'), P.bounds(d, rank)
    h.true(len(v) == len(b) == P.numb_variables(d, rank), 'length of a random vector')
    for i, (lo, hi) in enumerate(b):
        h.true(v[i] >= lo, 'above the lower bound')
        h.true(v[i] <= hi, 'below the upper bound')


HARNESSES = [Harness('there-d%d' % d, there, d=d) for d in (1, 2, 3, 4)] + [Harness('back-d%d' % d, back, d=d) for d in (1, 2, 3, 4)]
HARNESSES += [Harness('there-d6', there, d=6), Harness('back-d6', back, d=6)]
for c in ('OverParam', 'CholeskyParam'):
    HARNESSES += [Harness('uniform-%s-d%d-r%d' % (c, d, r), sampler, cls=c, d=d, rank=r) for d, r in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3))]
HARNESSES += [Harness('uniform-CholeskyParam-bounds', sampler, cls='CholeskyParam', d=2, rank=2, bnd=(-0.5, 2.0)),
              Harness('uniform-CholeskyParam-bounds2', sampler, cls='CholeskyParam', d=3, rank=1, bnd=(-3.0, 0.25))]
