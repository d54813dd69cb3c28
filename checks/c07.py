"""C07: parallel concatenation."""
from symx.run import Harness
from checks.chanlib import *
from checks.c06 import build

BOUNDS = ('a quarter of the grid of up to 17 by 17 operators and dimensions 1-5 with at most 80 terms (thorough: up to 300 terms), channels that were used before, chains of concatenations; 1-3 by 1-3 Kraus operators, dimensions 2 and 3, one or two particles on either side, lists / arrays / sparse arrays, '
          'arbitrary complex entries')
ASSUMPTIONS = COMMON_ASSUME
STUBS = [SPARSE_STUB, NP_STUB, ACCEPT_STUB]
EXPLANATION = 'operators are compared with all A_i (x) B_j, the combined channel with A (x) B on product and on arbitrary inputs, dimensions with the products'


def krons(h, a, b):
    return [h.kron2(h.lst(x), h.lst(y)) for x in a for y in b]


def static(h, cls='DenseKraus', na=2, nb=2, shape_a=(2, 2), shape_b=(2, 2), fa='list', fb='list'):
    K = getattr(h.mod('chan._kraus'), cls)
    a, b = kops(h, na, *shape_a, name='A'), kops(h, nb, *shape_b, name='B')
    fix = {'list': list, 'array': lambda x: h.arr(x, 'c')}
    h.eq(K.parallel_concatenate(fix[fa](a), fix[fb](b)), krons(h, a, b), 'parallel operators')


def mul(h, cls='DenseKraus', na=2, nb=2, da=(2, 2), qa=(1, 1), db=(2, 2), qb=(1, 1), cls2=None, product=True):
    a = kops(h, na, da[1] ** qa[1], da[0] ** qa[0], name='A')
    b = kops(h, nb, db[1] ** qb[1], db[0] ** qb[0], name='B')
    A, B = build(h, cls, a, qa, *da), build(h, cls2 or cls, b, qb, *db)
    public = cls.startswith('Analytic')
    st, C = h.attempt(lambda: A * B)
    if st == 'raise':
        raise C
    want = krons(h, a, b)
    ia, ib = da[0] ** qa[0], db[0] ** qb[0]
    di, do = ia * ib, da[1] ** qa[1] * db[1] ** qb[1]
    if public:
        h.true(C.input_dimension == di and C.output_dimension == do, 'dimensions are the products')
        h.eq(C.kraus, want, 'operators of the combination')
    else:
        h.true(C.input_dim == di and C.output_dim == do, 'dimensions are the products')
        h.eq(C.kraus_ops, want, 'operators of the combination')
    if product:
        r, s = h.cmat('r', ia), h.cmat('s', ib)
        rho = h.arr(h.kron2(h.lst(r), h.lst(s)), 'c')
        out = C.channel(rho, 1) if public else C.channel(rho)
        h.eq(out, h.kron2(ksum(h, a, r, 1), ksum(h, b, s, 1)), 'product input gives product output, first channel on the first factor')


HARNESSES = []
for cls in ('DenseKraus', 'SparseKraus'):
    s = cls[:-5].lower()
    HARNESSES += [
        Harness(s + '-static-list', static, cls=cls), Harness(s + '-static-array', static, cls=cls, na=3, fa='array', fb='array'),
        Harness(s + '-static-mixed', static, cls=cls, na=1, nb=3, fb='array', shape_a=(3, 2), shape_b=(2, 3)),
        Harness(s + '-static-mixed2', static, cls=cls, na=2, nb=1, fa='array', shape_a=(3, 2), shape_b=(4, 2)),
        Harness(s + '-mul', mul, cls=cls), Harness(s + '-mul-3x2', mul, cls=cls, na=3, nb=2, da=(2, 3)),
        Harness(s + '-mul-2x3', mul, cls=cls, na=1, nb=2, db=(3, 2)),
        Harness(s + '-mul-two-particles', mul, cls=cls, na=1, nb=2, qa=(2, 2)),
        Harness(s + '-mul-1to2', mul, cls=cls, na=1, nb=2, qb=(1, 2)),
    ]
HARNESSES += [
    Harness('public-dense', mul, cls='Analytic'),
    Harness('public-sparse', mul, cls='AnalyticSparse'),
    Harness('public-mixed', mul, cls='Analytic', cls2='AnalyticSparse', nb=1),
    Harness('public-mixed2', mul, cls='AnalyticSparse', cls2='Analytic', na=1),
    Harness('public-1to2', mul, cls='Analytic', na=1, nb=2, qa=(1, 2), product=False),
    Harness('public-2to2', mul, cls='Analytic', na=1, nb=1, qa=(2, 2), qb=(1, 2), product=False),
    Harness('public-3x2', mul, cls='Analytic', na=2, nb=2, da=(2, 3)),
]


from checks.c06 import used, cells_of


def cell(h, na, nb, da, db):
    for cls in ('Analytic', 'AnalyticSparse'):
        mul(h, cls=cls, na=na, nb=nb, da=da, db=db, product=False)


def cell_sizes(limit):
    ds = [(i, o) for i in (1, 2, 3, 4, 5) for o in (1, 2, 3, 4, 5)]
    return [(na, nb, p, q) for na in (1, 2, 3, 5, 9, 17) for nb in (1, 2, 3, 5, 9, 17) for p in ds for q in ds
            if na * nb * p[0] * p[1] * q[0] * q[1] <= limit and max(na * max(p), nb * max(q)) >= 8]


HARNESSES += [Harness('used-%s-%s' % (f, nm), used, form=f, times=True, sparse=sp, samples=2, bounds='channels used twice before')
              for f in ('pair', 'self', 'chain', 'mixed') for nm, sp in (('dense', (False, False)), ('sparse', (True, True)), ('both', (True, False)))]
for tier, cs in (('quick', cell_sizes(80)[::4]), ('thorough', [c for c in cell_sizes(300) if c not in cell_sizes(80)[::4]])):
    HARNESSES += [Harness('sizes-%s-%d' % (tier, i), cells_of, f=cell, cs=cs[i::8], tier=tier, samples=1, time_s=600 if tier == 'quick' else 3000,
                          bounds='numbers of operators up to 17, dimensions up to 5, part %d' % i) for i in range(8)]
