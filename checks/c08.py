"""C08: average entanglement fidelity."""
from symx.run import Harness
from checks.chanlib import *

BOUNDS = ('1-3 Kraus operators of dimension 2 and 4 (and 3x2), ensembles of 1-3 states with arbitrary real weights and arbitrary '
          'Hermitian matrices; Choi matrices built from arbitrary Kraus operators of dimension 2')
ASSUMPTIONS = COMMON_ASSUME + ['states are Hermitian']
STUBS = [SPARSE_STUB, NP_STUB, ACCEPT_STUB, QUTIP_STUB, CHOI_ACCEPT]
EXPLANATION = 'value compared with sum_i p_i sum_k |Tr(K_k rho_i)|^2 for the dense, sparse and Choi implementations'


def want(h, ops, ps, rhos):
    e = 0
    for p, r in zip(ps, rhos):
        for o in ops:
            z = h.tr(h.mul(h.lst(o), h.lst(r)))
            e = e + p * (z * h.conj(z))
    return e


def known_wrong(h, ops, ps, rhos, cls):
    """the values of the listed finding: the dense class adds up all entries of K_k rho instead of its diagonal, the sparse class
    takes the diagonal over (operator, row)"""
    e = 0
    for p, r in zip(ps, rhos):
        prods = [h.mul(h.lst(o), h.lst(r)) for o in ops]
        if cls == 'DenseKraus':
            zs = [sum((x for row in m for x in row[:]), 0) for m in prods]
        else:
            zs = [sum((prods[k][k][c] for k in range(min(len(prods), len(prods[0])))), 0) for c in range(len(prods[0][0]))]
        for z in zs:
            e = e + p * (z * h.conj(z))
    return e


def judge(h, out, ops, ps, rhos, cls):
    if h.same(h.arr([out], 'c'), h.arr([known_wrong(h, ops, ps, rhos, cls)], 'c')):
        h.eq(out, want(h, ops, ps, rhos), 'average entanglement fidelity (value of the listed finding)')
    else:
        h.eq(out, want(h, ops, ps, rhos), 'average entanglement fidelity')


def fid(h, cls='DenseKraus', nk=2, d=2, m=2, dout=None, after_n=1, q=1):
    K = getattr(h.mod('chan._kraus'), cls)
    dout = dout or d
    ops = kops(h, nk, dout ** q, d ** q)
    k = K(list(ops), [q, q], d, dout)
    if after_n > 1:
        k.update_kraus_operators(after_n)
    ps = [h.real('p%d' % i) for i in range(m)]
    rhos = [h.herm('r%d' % i, d ** q) for i in range(m)]
    judge(h, k.average_entanglement_fidelity(ps, rhos), ops, ps, rhos, cls)


def public(h, sparse=False, m=2):
    ops = kops(h, 2, 2, 2)
    c = qchan(h, list(ops), [1, 1], 2, 2, sparse=sparse)
    ps = [h.real('p%d' % i) for i in range(m)]
    rhos = [h.herm('r%d' % i, 2) for i in range(m)]
    judge(h, c.average_entanglement_fidelity(ps, rhos), ops, ps, rhos, 'SparseKraus' if sparse else 'DenseKraus')


def choi(h, nk=2, m=2, d=2):
    choi_env(h)
    ops = kops(h, nk, d, d)
    C = h.arr(choi_of(h, ops, d, d), 'c')
    c = h.mod('chan.channel').AnalyticQChan(C, [1, 1], d, d)
    ps = [h.real('p%d' % i) for i in range(m)]
    rhos = [h.herm('r%d' % i, d) for i in range(m)]
    h.eq(c.average_entanglement_fidelity(ps, rhos), want(h, ops, ps, rhos), 'average entanglement fidelity from the Choi matrix')


HARNESSES = []
for cls in ('DenseKraus', 'SparseKraus'):
    s = cls[:-5].lower()
    HARNESSES += [Harness(s + '-k2', fid, cls=cls), Harness(s + '-k3-m3', fid, cls=cls, nk=3, m=3), Harness(s + '-k1-m1', fid, cls=cls, nk=1, m=1),
                  Harness(s + '-d4', fid, cls=cls, q=2, m=1), Harness(s + '-d3', fid, cls=cls, d=3, m=1),
                  Harness(s + '-after-n2', fid, cls=cls, after_n=2),
                  Harness(s + '-public', public, sparse=s == 'sparse')]
HARNESSES += [Harness('choi-k2', choi), Harness('choi-k1-m3', choi, nk=1, m=3),
              Harness('choi-k3-m1', choi, nk=3, m=1)]


def over(h, f, cs):
    for kw in cs:
        f(h, **kw)


SZ = [dict(nk=k, d=d, m=m, dout=o, q=q) for k in (1, 2, 4, 5, 8, 9, 17) for d in (1, 2, 3, 4, 5) for o in ([None] + ([d + 1] if d < 4 else [])) for m in (1, 2, 5, 9) for q in (1, 2)
      if k * m * (d ** q) ** 4 <= 330 and not o and (d > 1 or (q == 1 and m == 2))]
HARNESSES += [Harness('%s-k%d-d%d-m%d-q%d' % (c[:-5].lower(), z['nk'], z['d'], z['m'], z['q']), fid, cls=c, samples=1, time_s=300, bounds='this size', **z)
              for c in ('DenseKraus', 'SparseKraus') for z in SZ]
SQ = [dict(nk=k, d=d, m=m) for k in (1, 2, 5) for d in (2, 3) for m in (1, 2, 5) if k * m * d ** 4 <= 330]
HARNESSES += [Harness('choi-sizes-%d' % i, over, f=choi, cs=SQ[i::4], samples=1, time_s=300, bounds='1-5 operators, dimensions 2-3, 1-5 states, part %d' % i) for i in range(4)]
