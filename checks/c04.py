"""C04: the complementary channel (entropy exchange) matrix and its orthogonal-set blocks."""
from symx.run import Harness
from checks.chanlib import *

BOUNDS = ('every combination of 1-32 operators, dimensions 1-5 and n = 1-6 whose sum has at most 1000 terms (20000 thorough); 1-4 Kraus operators of dimension 2x2, 3x2, 2x3, n = 1, 2 (3 thorough), every partition of up to 4 operators into '
          'consecutive sets, arbitrary complex entries and input matrices')
ASSUMPTIONS = COMMON_ASSUME
STUBS = [SPARSE_STUB, NP_STUB, ACCEPT_STUB]
EXPLANATION = 'W_ij = Tr(A_i rho A_j^dag) compared entry by entry with the returned matrix or list of diagonal blocks'


def whole(h, cls='DenseKraus', nk=2, din=2, dout=2, n=1):
    K = getattr(h.mod('chan._kraus'), cls)
    ops = kops(h, nk, dout, din)
    k = K(list(ops), [1, 1], din, dout)
    if n > 1:
        k.update_kraus_operators(n)
    rho = h.cmat('rho', din ** n)
    w = k.entropy_exchange(rho, n)
    h.true(isinstance(w, list) and len(w) == 1, 'one matrix when no orthogonal sets are given')
    h.eq(w[0], exch(h, ops, rho, n), 'entropy exchange matrix')


def blocks(h, nk=3, splits=(1,), din=2, dout=2, n=1, public=False):
    ops = kops(h, nk, dout, din)
    if public:
        k = qchan(h, list(ops), [1, 1], din, dout, orthogonal_krauss=list(splits))
    else:
        k = h.mod('chan._kraus').DenseKraus(list(ops), [1, 1], din, dout, orthogonal_kraus=list(splits))
        if n > 1:
            k.update_kraus_operators(n)
    rho = h.cmat('rho', din ** n)
    w = k.entropy_exchange(rho, n)
    full = exch(h, ops, rho, n)
    edges = [0] + [s * nk ** (n - 1) for s in splits] + [nk ** n]
    h.true(len(w) == len(edges) - 1, 'one block per orthogonal set')
    for b in range(len(edges) - 1):
        lo, hi = edges[b], edges[b + 1]
        h.eq(w[b], [r[lo:hi] for r in full[lo:hi]], 'block %d' % b)


def sym_split(h, nk=4, din=2, dout=2, n=1):
    """the position of the split is chosen symbolically"""
    s1 = 1 + h.choose('s1', nk - 1)
    blocks(h, nk=nk, splits=(s1,), din=din, dout=dout, n=n)


HARNESSES = []
for cls in ('DenseKraus', 'SparseKraus'):
    s = cls[:-5].lower()
    HARNESSES += [
        Harness(s + '-k2-n1', whole, cls=cls), Harness(s + '-k3-n1', whole, cls=cls, nk=3), Harness(s + '-k1-n1', whole, cls=cls, nk=1),
        Harness(s + '-k4-3x2-n1', whole, cls=cls, nk=4, dout=3), Harness(s + '-k2-2x3-n1', whole, cls=cls, din=3),
        Harness(s + '-k2-n2', whole, cls=cls, n=2), Harness(s + '-k3-3x2-n2', whole, cls=cls, nk=3, dout=3, n=2),
        Harness(s + '-k2-n3', whole, cls=cls, n=3, time_s=1200),
    ]
HARNESSES += [
    Harness('blocks-k2', blocks, nk=2, splits=(1,)), Harness('blocks-k3-1', blocks, nk=3, splits=(1,), dout=3),
    Harness('blocks-k3-2', blocks, nk=3, splits=(2,)), Harness('blocks-k4-sym', sym_split, nk=4, dout=3),
    Harness('blocks-k4-1-3', blocks, nk=4, splits=(1, 3)), Harness('blocks-k4-1-2-3', blocks, nk=4, splits=(1, 2, 3)),
    Harness('blocks-k4-2-3', blocks, nk=4, splits=(2, 3)),
    Harness('blocks-k2-n2', blocks, nk=2, splits=(1,), n=2), Harness('blocks-k3-n2', blocks, nk=3, splits=(1,), n=2, dout=3),
    Harness('blocks-k3-2-n2', blocks, nk=3, splits=(2,), n=2), Harness('blocks-k3-1-2-n2', blocks, nk=3, splits=(1, 2), n=2),
    Harness('blocks-public-n1', blocks, nk=3, splits=(1,), public=True, dout=3),
    Harness('blocks-public-n2', blocks, nk=2, splits=(1,), public=True, n=2),
    Harness('blocks-k2-n3', blocks, nk=2, splits=(1,), n=3, time_s=1200),
    Harness('blocks-k4-sym-n2', sym_split, nk=4, n=2, time_s=1200),
]


def cell(h, nk, ri, ro, n):
    for sparse in (False, True):
        ops = kops(h, nk, ro, ri)
        c = qchan(h, list(ops), [1, 1], ri, ro, sparse=sparse)
        rho = h.cmat('rho', ri ** n)
        w = c.entropy_exchange(rho, n)
        h.true(isinstance(w, list) and len(w) == 1, 'one matrix when no orthogonal sets are given')
        h.eq(w[0], exch(h, ops, rho, n), 'complementary channel')


HARNESSES += grid(Harness, 'sizes', cell, exch_cost, 1000, 20000)
