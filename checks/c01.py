"""C01: the channel returned for n uses is the Kraus sum of the n-fold tensor power."""
from symx.run import Harness
from checks.chanlib import *

BOUNDS = ('every combination of 1-32 operators, dimensions 1-5 and n = 1-6 whose sum has at most 1000 terms (20000 thorough); Kraus sets of 1-3 operators with input/output dimension 2 or 3 (all entries arbitrary complex), n = 1, 2 (n = 3 '
          'thorough), arbitrary complex input matrices, batches of 1-3 matrices; equality is exact polynomial identity, entries '
          'in [-4,4] for counterexamples, tolerance 1e-5')
ASSUMPTIONS = ['floating point entries are treated as reals (rounding outside the claim)',
               'pydata-sparse COO modelled by its documented algebra (sparse harnesses)',
               'dimensions, number of Kraus operators and n are concrete per harness']
STUBS = [ACCEPT_STUB, 'sparse.COO, kron, tensordot, matmul: algebraic model', 'numpy: object-array model of the same functions']
EXPLANATION = 'Kraus entries and the input state are symbolic; the output of the real channel code is compared entrywise with the definition'


def sym_kraus(h, shapes, name='A'):
    return [h.cmat('%s%d' % (name, k), r, c) for k, (r, c) in enumerate(shapes)]


def kraus_sum(h, ops, rho, n, adjoint=False):
    """reference: plain python, directly from the definition"""
    ks = h.kron_n([h.lst(a) for a in ops], n)
    rho = h.lst(rho)
    out = None
    for k in ks:
        t = h.mul(h.mul(h.dag(k), rho), k) if adjoint else h.mul(h.mul(k, rho), h.dag(k))
        out = t if out is None else h.addm(out, t)
    return out


def direct(h, cls='DenseKraus', nk=2, din=2, dout=2, n=1, q=(1, 1), batch=0, as_array=False):
    K = getattr(h.mod('chan._kraus'), cls)
    ri, ro = din ** q[0], dout ** q[1]
    ops = sym_kraus(h, [(ro, ri)] * nk)
    arg = h.arr(ops, 'c') if as_array else list(ops)
    k = K(arg, [q[0], q[1]], din, dout)
    if n != 1:
        k.update_kraus_operators(n)
    d = ri ** n
    if batch:
        rhos = [h.cmat('rho%d' % i, d) for i in range(batch)]
        out = k.channel(h.arr(rhos, 'c'))
        h.eq(out, h.arr([kraus_sum(h, ops, r, n) for r in rhos], 'c'), 'channel of a batch')
    else:
        rho = h.cmat('rho', d)
        h.eq(k.channel(rho), kraus_sum(h, ops, rho, n), 'channel')


def public(h, sparse=False, nk=2, din=2, dout=2, n=1, q=(1, 1), batch=0, form='list'):
    """through AnalyticQChan"""
    ri, ro = din ** q[0], dout ** q[1]
    ops = sym_kraus(h, [(ro, ri)] * nk)
    c = qchan(h, h.arr(ops, 'c') if form == 'array' else list(ops), [q[0], q[1]], din, dout, sparse=sparse)
    d = ri ** n
    if batch:
        rhos = [h.cmat('rho%d' % i, d) for i in range(batch)]
        h.eq(c.channel(h.arr(rhos, 'c'), n), h.arr([kraus_sum(h, ops, r, n) for r in rhos], 'c'), 'channel of a batch')
    else:
        rho = h.cmat('rho', d)
        h.eq(c.channel(rho, n), kraus_sum(h, ops, rho, n), 'channel')
    h.true(c.input_dimension == d and c.output_dimension == ro ** n, 'dimensions of the n-use channel')
    h.eq(c.nth_kraus_operators, h.kron_n([h.lst(o) for o in ops], n), 'n-use Kraus operators')


def orthogonal(h, splits=(1,), n=1):
    """declaring orthogonal sets does not change the channel"""
    ops = sym_kraus(h, [(2, 2)] * 3)
    c = qchan(h, list(ops), [1, 1], 2, 2, orthogonal_krauss=list(splits))
    rho = h.cmat('rho', 2 ** n)
    h.eq(c.channel(rho, n), kraus_sum(h, ops, rho, n), 'channel with orthogonal sets')


def cell(h, nk, ri, ro, n):
    for sparse in (False, True):
        ops = sym_kraus(h, [(ro, ri)] * nk)
        c = qchan(h, list(ops), [1, 1], ri, ro, sparse=sparse)
        rho = h.cmat('rho', ri ** n)
        h.eq(c.channel(rho, n), kraus_sum(h, ops, rho, n), 'channel')
        h.true(c.input_dimension == ri ** n and c.output_dimension == ro ** n, 'dimensions of the n-use channel')
        h.eq(c.nth_kraus_operators, h.kron_n([h.lst(o) for o in ops], n), 'n-use Kraus operators')


HARNESSES = [
    Harness('dense-2x2-k2-n1', direct, bounds='2 Kraus 2x2, n=1'),
    Harness('dense-2x2-k3-n1-array', direct, nk=3, as_array=True, bounds='3 Kraus 2x2, n=1'),
    Harness('dense-3x2-k2-n1', direct, dout=3, bounds='2 Kraus 3x2, n=1'),
    Harness('dense-2x3-k1-n1', direct, nk=1, din=3, bounds='1 Kraus 2x3, n=1'),
    Harness('dense-2x2-k2-n2', direct, n=2, bounds='2 Kraus 2x2, n=2'),
    Harness('dense-3x2-k2-n2', direct, n=2, dout=3, bounds='2 Kraus 3x2, n=2'),
    Harness('dense-q12-k1-n1', direct, nk=1, q=(1, 2), bounds='1 Kraus 4x2, n=1'),
    Harness('dense-batch2-n1', direct, batch=2),
    Harness('dense-batch3-3x2-n1', direct, batch=3, dout=3),
    Harness('dense-batch2-n2', direct, batch=2, n=2),
    Harness('sparse-2x2-k2-n1', direct, cls='SparseKraus'),
    Harness('sparse-3x2-k2-n1', direct, cls='SparseKraus', dout=3),
    Harness('sparse-2x2-k2-n2', direct, cls='SparseKraus', n=2),
    Harness('sparse-3x2-k2-n2', direct, cls='SparseKraus', n=2, dout=3),
    Harness('dense-2x2-k2-n3', direct, n=3, time_s=600),
    Harness('sparse-2x2-k2-n3', direct, cls='SparseKraus', n=3, time_s=600),
    Harness('sparse-2x3-k2-n1', direct, cls='SparseKraus', din=3), Harness('sparse-q21-k1-n1', direct, cls='SparseKraus', nk=1, q=(2, 1)),
    Harness('public-dense-n1', public, nk=3, form='array'), Harness('public-dense-n2', public, n=2), Harness('public-dense-3x2-n2', public, n=2, dout=3),
    Harness('public-dense-batch', public, batch=2, dout=3), Harness('public-dense-batch-n2', public, batch=2, n=2),
    Harness('public-dense-q12', public, nk=1, q=(1, 2)), Harness('public-dense-q21-n2', public, nk=1, q=(2, 1), n=2),
    Harness('public-sparse-n1', public, nk=3, sparse=True), Harness('public-sparse-n2', public, n=2, sparse=True),
    Harness('public-sparse-3x2-n2', public, n=2, dout=3, nk=1, sparse=True), Harness('public-sparse-array', public, sparse=True, form='array'),
    Harness('orthogonal-n1', orthogonal), Harness('orthogonal-n2', orthogonal, splits=(2,), n=2),
    Harness('dense-2x2-k2-n4', direct, nk=2, n=4, tier='thorough', time_s=3000, samples=1),
    Harness('dense-3x3-k2-n2', direct, nk=2, din=3, dout=3, n=2, time_s=3000, samples=1),
    Harness('dense-4x4-k4-n1', direct, nk=4, din=4, dout=4, n=1, time_s=1000),
    Harness('sparse-4x4-k4-n1', direct, cls='SparseKraus', nk=4, din=4, dout=4, n=1, time_s=1000),
]
HARNESSES += grid(Harness, 'sizes', cell, chan_cost, 1000, 20000)
