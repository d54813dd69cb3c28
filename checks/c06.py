"""C06: serial concatenation."""
from symx.run import Harness
from checks.chanlib import *

BOUNDS = ('a third of the grid of up to 17 by 17 operators and dimensions 1-5 with at most 300 terms (thorough: up to 2000 terms), channels that were used before, chains of concatenations; 1-3 by 1-3 Kraus operators, dimensions 2, 3, 4 including 1->2 and 2->1 particle maps, lists / arrays / sparse arrays, '
          'arbitrary complex entries; every mismatch of inner dimension among {2,3,4}')
ASSUMPTIONS = COMMON_ASSUME
STUBS = [SPARSE_STUB, NP_STUB, ACCEPT_STUB]
EXPLANATION = 'operators of the combination are compared with the products A_i B_j, the combined channel with the composition, metadata with the outer spaces'


def prods(h, a, b):
    return [h.mul(h.lst(x), h.lst(y)) for x in a for y in b]


def static(h, cls='DenseKraus', na=2, nb=2, shape_a=(2, 2), shape_b=(2, 2), fa='list', fb='list'):
    K = getattr(h.mod('chan._kraus'), cls)
    a, b = kops(h, na, *shape_a, name='A'), kops(h, nb, *shape_b, name='B')
    fix = {'list': list, 'array': lambda x: h.arr(x, 'c')}
    out = K.serial_concatenate(fix[fa](a), fix[fb](b))
    h.eq(out, prods(h, a, b), 'serial operators')


def build(h, cls, ops, q, din, dout):
    if cls == 'Analytic' or cls == 'AnalyticSparse':
        return qchan(h, list(ops), list(q), din, dout, sparse=cls == 'AnalyticSparse')
    return getattr(h.mod('chan._kraus'), cls)(list(ops), list(q), din, dout)


def add(h, cls='DenseKraus', na=2, nb=2, da=(2, 2), qa=(1, 1), db=(2, 2), qb=(1, 1), cls2=None):
    """A + B : B first.  da = (dim_in, dim_out) of one particle"""
    a = kops(h, na, da[1] ** qa[1], da[0] ** qa[0], name='A')
    b = kops(h, nb, db[1] ** qb[1], db[0] ** qb[0], name='B')
    A = build(h, cls, a, qa, *da)
    B = build(h, cls2 or cls, b, qb, *db)
    public = cls.startswith('Analytic')
    st, C = h.attempt(lambda: A + B)
    if da[0] ** qa[0] != db[1] ** qb[1]:
        h.true(st == 'raise' and isinstance(C, TypeError), 'mismatched dimensions raise TypeError')
        return
    if st == 'raise':
        raise C
    want = prods(h, a, b)
    h.true(C.dim_in == db[0] and C.dim_out == da[1], 'particle dimensions of the combination')
    h.true(list(C.numb_qubits) == [qb[0], qa[1]], 'particle numbers of the combination')
    if public:
        h.true(C.input_dimension == db[0] ** qb[0] and C.output_dimension == da[1] ** qa[1], 'outer dimensions')
        h.eq(C.kraus, want, 'operators of the combination')
    else:
        h.true(C.input_dim == db[0] ** qb[0] and C.output_dim == da[1] ** qa[1], 'outer dimensions')
        h.eq(C.kraus_ops, want, 'operators of the combination')
    rho = h.cmat('rho', db[0] ** qb[0])
    out = C.channel(rho, 1) if public else C.channel(rho)
    h.eq(out, ksum(h, a, ksum(h, b, rho, 1), 1), 'combined channel is B then A')


def static_mismatch(h, cls='DenseKraus'):
    K = getattr(h.mod('chan._kraus'), cls)
    p, q = 2 + h.choose('p', 3), 2 + h.choose('q', 3)
    a, b = kops(h, 1, 2, p, name='A'), kops(h, 2, q, 2, name='B')
    st, out = h.attempt(K.serial_concatenate, list(a), list(b))
    if p != q:
        h.true(st == 'raise' and isinstance(out, TypeError), 'mismatched dimensions raise TypeError')
    else:
        h.true(st == 'ok', 'matching dimensions are accepted')
        h.eq(out, prods(h, a, b), 'serial operators')


HARNESSES = []
for cls in ('DenseKraus', 'SparseKraus'):
    s = cls[:-5].lower()
    HARNESSES += [
        Harness(s + '-static-list', static, cls=cls), Harness(s + '-static-array', static, cls=cls, na=3, nb=2, fa='array', fb='array'),
        Harness(s + '-static-mixed', static, cls=cls, na=1, nb=3, fa='list', fb='array', shape_a=(3, 2), shape_b=(2, 4)),
        Harness(s + '-static-mismatch', static_mismatch, cls=cls),
        Harness(s + '-add', add, cls=cls), Harness(s + '-add-3x2', add, cls=cls, na=3, nb=2, da=(2, 3)),
        Harness(s + '-add-2x3', add, cls=cls, na=2, nb=3, da=(3, 2), db=(2, 3)),
        Harness(s + '-add-1to2', add, cls=cls, na=2, nb=1, qa=(2, 1), qb=(1, 2)),
        Harness(s + '-add-2to2', add, cls=cls, na=1, nb=2, qa=(1, 2), qb=(1, 1)),
        Harness(s + '-add-4dim', add, cls=cls, na=2, nb=1, da=(4, 2), qb=(1, 2)),
        Harness(s + '-add-4to2particles', add, cls=cls, na=1, nb=1, da=(4, 2), qa=(1, 2), db=(2, 4)),
        Harness(s + '-add-particles-4', add, cls=cls, na=1, nb=1, da=(2, 4), qa=(2, 1), db=(4, 2), qb=(1, 2)),
        Harness(s + '-add-mismatch', add, cls=cls, da=(3, 2), db=(2, 2)),
        Harness(s + '-add-mismatch2', add, cls=cls, qa=(2, 1), nb=1),
    ]
HARNESSES += [
    Harness('public-dense', add, cls='Analytic'),
    Harness('public-sparse', add, cls='AnalyticSparse'),
    Harness('public-mixed', add, cls='Analytic', cls2='AnalyticSparse', nb=1),
    Harness('public-mixed2', add, cls='AnalyticSparse', cls2='Analytic', na=1),
    Harness('public-1to2', add, cls='Analytic', nb=1, qa=(2, 1), qb=(1, 2)),
    Harness('public-4to2particles', add, cls='Analytic', na=1, nb=1, da=(4, 2), qa=(1, 2), db=(2, 4)),
    Harness('public-particles-4', add, cls='AnalyticSparse', na=1, nb=1, da=(2, 4), qa=(2, 1), db=(4, 2), qb=(1, 2)),
    Harness('public-2to2particles', add, cls='Analytic', na=1, nb=1, qa=(1, 1), qb=(2, 1)),
    Harness('public-3x2', add, cls='Analytic', na=2, nb=2, da=(2, 3)),
    Harness('public-mismatch', add, cls='Analytic', na=1, nb=1, da=(3, 3)),
]


def used(h, form, times, sparse=(False, False), n=2):
    """concatenation of channels that have been used before; the parts stay what they were and the combination can be used n times"""
    a, b, c3 = kops(h, 2, 2, 2, name='A'), kops(h, 1, 2, 2, name='B'), kops(h, 1, 2, 2, name='C')
    A, B, C3 = (qchan(h, list(x), [1, 1], 2, 2, sparse=s) for x, s in ((a, sparse[0]), (b, sparse[1]), (c3, sparse[0])))
    r2 = h.cmat('s', 2 ** n)
    A.channel(r2, n)
    B.channel(r2, n, adjoint=True)
    B.entropy_exchange(r2, n)
    f = (lambda x, y: x * y) if times else (lambda x, y: x + y)
    comb = krons if times else prods
    if form == 'pair':
        R, want = f(A, B), comb(h, a, b)
    elif form == 'self':
        R, want = f(A, A), comb(h, a, a)
    elif form == 'chain':
        R, want = f(f(A, B), C3), comb(h, comb(h, a, b), c3)
    else:               # both combinations in one expression
        R = f(A, B) + f(B, A)
        want = prods(h, comb(h, a, b), comb(h, b, a))
    h.eq(R.kraus, want, 'operators of the combination')
    d = len(want[0])
    m = 2 if d == 2 and len(want) <= 2 else 1
    rho = h.cmat('rho', d ** m)
    h.eq(R.channel(rho, m), ksum(h, want, rho, m), 'the combination used %d times' % m)
    r1 = h.cmat('t', 2)
    h.eq(A.channel(r1, 1), ksum(h, a, r1, 1), 'the first channel is unchanged')
    h.eq(B.channel(r1, 1), ksum(h, b, r1, 1), 'the second channel is unchanged')
    h.eq(A.channel(r2, n), ksum(h, a, r2, n), 'the first channel, used n times, is unchanged')


def krons(h, a, b):
    return [h.kron2(h.lst(x), h.lst(y)) for x in a for y in b]


def cell(h, na, nb, x, y, z):
    """B from dimension x to y, A from y to z"""
    for cls in ('Analytic', 'AnalyticSparse'):
        add(h, cls=cls, na=na, nb=nb, da=(y, z), db=(x, y))


def cell_sizes(limit):
    return [(na, nb, x, y, z) for na in (1, 2, 3, 4, 5, 8, 9, 17) for nb in (1, 2, 3, 4, 5, 8, 9, 17) for x in (1, 2, 3, 4, 5) for y in (1, 2, 3, 4, 5) for z in (1, 2, 3, 4, 5)
            if na * nb * (x * z * y) ** 2 <= limit and max(na, nb) * max(x, y, z) >= 8]


def cells_of(h, f, cs):
    for c in cs:
        f(h, *c)


HARNESSES += [Harness('used-%s-%s' % (f, nm), used, form=f, times=False, sparse=sp, samples=2, bounds='channels used twice before')
              for f in ('pair', 'self', 'chain', 'mixed') for nm, sp in (('dense', (False, False)), ('sparse', (True, True)), ('both', (True, False)))]
for tier, cs in (('quick', cell_sizes(300)[::3]), ('thorough', [c for c in cell_sizes(2000) if c not in cell_sizes(300)[::3]])):
    HARNESSES += [Harness('sizes-%s-%d' % (tier, i), cells_of, f=cell, cs=cs[i::8], tier=tier, samples=1, time_s=600 if tier == 'quick' else 3000,
                          bounds='numbers of operators up to 17, dimensions up to 5, part %d' % i) for i in range(8)]
