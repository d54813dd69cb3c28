"""C02: adjoint channel / adjoint complementary channel are the Hilbert-Schmidt adjoints."""
from symx.run import Harness
from checks.chanlib import *

BOUNDS = ('every combination of 1-32 operators, dimensions 1-5 and n = 1-6 whose sum has at most 1000 terms (20000 thorough); 1-3 Kraus operators, dimensions 2 and 3, n = 1, 2 (3 thorough), all entries and both test matrices arbitrary complex')
ASSUMPTIONS = COMMON_ASSUME
STUBS = [SPARSE_STUB, NP_STUB, ACCEPT_STUB, QUTIP_STUB, CHOI_ACCEPT, EIGH_STUB]
EXPLANATION = 'both the defining formula and the duality Tr(X^dag N(rho)) = Tr(N^dag(X)^dag rho) are compared with what the code returns'


def channel_adj(h, cls='DenseKraus', nk=2, din=2, dout=2, n=1, dual=True, batch=0):
    K = getattr(h.mod('chan._kraus'), cls)
    ops = kops(h, nk, dout, din)
    k = K(list(ops), [1, 1], din, dout)
    if n > 1:
        k.update_kraus_operators(n)
    if batch:
        xs = [h.cmat('X%d' % i, dout ** n) for i in range(batch)]
        h.eq(k.channel(h.arr(xs, 'c'), adjoint=True), h.arr([ksum(h, ops, x, n, adjoint=True) for x in xs], 'c'),
             'adjoint channel of a batch')
        return
    x = h.cmat('X', dout ** n)
    adj = k.channel(x, adjoint=True)
    h.eq(adj, ksum(h, ops, x, n, adjoint=True), 'adjoint channel formula')
    if dual:
        rho = h.cmat('rho', din ** n)
        out = h.lst(k.channel(rho))
        adj = h.lst(adj)
        h.eq(h.tr(h.mul(h.dag(h.lst(x)), out)), h.tr(h.mul(h.dag(adj), h.lst(rho))), 'channel duality')


def exch_adjoint(h, cls='DenseKraus', nk=2, din=2, dout=2, n=1, dual=True):
    K = getattr(h.mod('chan._kraus'), cls)
    ops = kops(h, nk, dout, din)
    k = K(list(ops), [1, 1], din, dout)
    if n > 1:
        k.update_kraus_operators(n)
    x = h.cmat('X', nk ** n)
    adj = k.entropy_exchange(x, n, adjoint=True)
    h.eq(adj, exch_adj(h, ops, x, n), 'adjoint complementary formula')
    if dual:
        rho = h.cmat('rho', din ** n)
        w = k.entropy_exchange(rho, n)
        h.true(len(w) == 1, 'complementary channel without orthogonal sets is one matrix')
        h.eq(h.tr(h.mul(h.dag(h.lst(x)), h.lst(w[0]))), h.tr(h.mul(h.dag(h.lst(adj)), h.lst(rho))), 'complementary duality')


def analytic(h, sparse=False, n=1):
    """through the public class, trace preserving operators"""
    ops = kops(h, 2, 2, 2)
    ch = qchan(h, list(ops), [1, 1], 2, 2, sparse=sparse)
    x = h.cmat('X', 2 ** n)
    h.eq(ch.channel(x, n, adjoint=True), ksum(h, ops, x, n, True), 'adjoint channel through AnalyticQChan')
    y = h.cmat('Y', 2 ** n)
    h.eq(ch.entropy_exchange(y, n, adjoint=True), exch_adj(h, ops, y, n), 'adjoint complementary through AnalyticQChan')
    h.eq(ch.channel(x, n), ksum(h, ops, x, n), 'channel after adjoint calls')


def choi_adjoint(h, din=2, dout=2, qi=1, qo=1, zeros=()):
    """adjoint of a channel given by a Choi matrix: Tr(X^dag N(rho)) = Tr(N^dag(X)^dag rho)"""
    choi_env(h)
    ri, ro = din ** qi, dout ** qo
    C, ws, V = spectral(h, ri * ro, zeros)
    c = h.mod('chan.channel').AnalyticQChan(C, [qi, qo], din, dout)
    x, rho = h.cmat('X', ro), h.cmat('rho', ri)
    adj = c.channel(x, 1, adjoint=True)
    # N(rho) = sum_ij rho_ij Phi(|i><j|), Phi(|i><j|)_ab = C[i ro + a, j ro + b]
    Cl, rl, xl = h.lst(C), h.lst(rho), h.lst(x)
    want = [[0] * ri for _ in range(ri)]
    for i in range(ri):
        for j in range(ri):
            acc = 0
            for a in range(ro):
                for b in range(ro):
                    # Tr(X^dag N(|i><j|)) = conj(adj[i][j])
                    acc = acc + h.conj(xl[a][b]) * Cl[i * ro + a][j * ro + b]
            want[i][j] = h.conj(acc)
    h.eq(adj, want, 'adjoint of the Choi channel')


HARNESSES = []
for cls in ('DenseKraus', 'SparseKraus'):
    s = cls[:-5].lower()
    HARNESSES += [
        Harness(s + '-channel-k2-n1', channel_adj, cls=cls),
        Harness(s + '-channel-k3-n1', channel_adj, cls=cls, nk=3),
        Harness(s + '-channel-3x2-n1', channel_adj, cls=cls, dout=3),
        Harness(s + '-channel-2x3-n1', channel_adj, cls=cls, din=3),
        Harness(s + '-channel-k2-n2', channel_adj, cls=cls, n=2, dual=False),
        Harness(s + '-channel-3x2-n2', channel_adj, cls=cls, n=2, dout=3, dual=False),
        Harness(s + '-exch-k2-n1', exch_adjoint, cls=cls),
        Harness(s + '-exch-k3-3x2-n1', exch_adjoint, cls=cls, nk=3, dout=3),
        Harness(s + '-exch-k1-n1', exch_adjoint, cls=cls, nk=1),
        Harness(s + '-exch-k2-n2', exch_adjoint, cls=cls, n=2, dual=False),
        Harness(s + '-channel-k2-n3', channel_adj, cls=cls, n=3, dual=False, time_s=900),
        Harness(s + '-exch-k2-n3', exch_adjoint, cls=cls, n=3, dual=False, time_s=900),
        Harness(s + '-analytic-n1', analytic, sparse=(cls == 'SparseKraus')),
        Harness(s + '-analytic-n2', analytic, sparse=(cls == 'SparseKraus'), n=2),
    ]
HARNESSES += [Harness('dense-channel-batch', channel_adj, batch=2), Harness('dense-channel-batch-3x2', channel_adj, batch=2, dout=3)]
HARNESSES += [Harness('choi-adjoint-2x2', choi_adjoint, zeros=(2, 3)), Harness('choi-adjoint-2x2-r1', choi_adjoint, zeros=(0, 1, 2)),
              Harness('choi-adjoint-3x2', choi_adjoint, dout=3, zeros=(1, 2, 4, 5)), Harness('choi-adjoint-2x3', choi_adjoint, din=3, zeros=(0, 1, 2, 3)),
              Harness('choi-adjoint-2x2-full', choi_adjoint), Harness('choi-adjoint-1to2', choi_adjoint, qo=2, zeros=(1, 2, 3, 4, 5, 6))]


def cell(h, nk, ri, ro, n):
    for sparse in (False, True):
        ops = kops(h, nk, ro, ri)
        c = qchan(h, list(ops), [1, 1], ri, ro, sparse=sparse)
        x = h.cmat('X', ro ** n)
        h.eq(c.channel(x, n, adjoint=True), ksum(h, ops, x, n, True), 'adjoint channel')


def cell_exch(h, nk, ri, ro, n):
    for sparse in (False, True):
        ops = kops(h, nk, ro, ri)
        c = qchan(h, list(ops), [1, 1], ri, ro, sparse=sparse)
        y = h.cmat('Y', nk ** n)
        h.eq(c.entropy_exchange(y, n, adjoint=True), exch_adj(h, ops, y, n), 'adjoint complementary channel')


HARNESSES += grid(Harness, 'sizes', cell, chan_cost, 1000, 20000)
HARNESSES += grid(Harness, 'sizes-exch', cell_exch, exch_cost, 1000, 20000)
