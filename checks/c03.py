"""C03: results depend only on the channel, the input and n - not on the calls made before."""
from symx.run import Harness
from checks.chanlib import *

BOUNDS = ('every sequence of up to 3 (4 thorough) operations, each chosen from {channel, adjoint channel, complementary, adjoint '
          'complementary, update} with n in {1,2,3}, on 2 Kraus operators 2x2 (one variant 3x2) with arbitrary complex entries; '
          'n up to 5 for 1x1 and up to 4 for 1x2 and 2x1 operators')
ASSUMPTIONS = COMMON_ASSUME
STUBS = [SPARSE_STUB, NP_STUB, ACCEPT_STUB]
EXPLANATION = 'the history is symbolic (the solver-driven explorer forks over every operation and n); each answer is compared with the definition at that n'


def op(h, k, ops, which, n, tag, nk, din, dout, upd=True):
    """one operation through the Kraus class, compared with its definition"""
    if upd:
        k.update_kraus_operators(n)
    if which == 0:
        rho = h.cmat('r%s' % tag, din ** n)
        before = h.lst(rho)
        h.eq(k.channel(rho), ksum(h, ops, rho, n), 'channel at n=%d' % n)
        h.eq(rho, before, 'input state unchanged')
    elif which == 1:
        x = h.cmat('x%s' % tag, dout ** n)
        h.eq(k.channel(x, adjoint=True), ksum(h, ops, x, n, True), 'adjoint channel at n=%d' % n)
    elif which == 2:
        rho = h.cmat('r%s' % tag, din ** n)
        h.eq(k.entropy_exchange(rho, n)[0], exch(h, ops, rho, n), 'complementary at n=%d' % n)
    elif which == 3:
        x = h.cmat('x%s' % tag, nk ** n)
        h.eq(k.entropy_exchange(x, n, adjoint=True), exch_adj(h, ops, x, n), 'adjoint complementary at n=%d' % n)


def history(h, cls='DenseKraus', ns=(1, 2, 3), length=2, kinds=(0, 2), din=2, dout=2, first=None, nk=2):
    K = getattr(h.mod('chan._kraus'), cls)
    ops = kops(h, nk, dout, din)
    before = [h.lst(o) for o in ops]
    k = K(list(ops), [1, 1], din, dout)
    for t in range(length - 1):
        n = first if (t == 0 and first) else ns[h.choose('n%d' % t, len(ns))]
        k.update_kraus_operators(n)
    n = ns[h.choose('nlast', len(ns))]
    for which in kinds:
        op(h, k, ops, which, n, 'z%d' % which, nk, din, dout, upd=(which == kinds[0]))
    h.true(k.current_n == n, 'current_n is the last n')
    for o, b in zip(ops, before):
        h.eq(o, b, 'Kraus operators given by the user unchanged')


def history_public(h, sparse=False, ns=(1, 2), length=2, din=2, dout=2, first=None):
    """through AnalyticQChan: every call names its own n; every step is compared"""
    nk = 2
    ops = kops(h, nk, dout, din)
    c = qchan(h, list(ops), [1, 1], din, dout, sparse=sparse)
    for t in range(length):
        n = first if (t == 0 and first) else ns[h.choose('n%d' % t, len(ns))]
        which = h.choose('op%d' % t, 5)
        last = t == length - 1
        if which == 0:
            rho = h.cmat('r%d' % t, din ** n)
            out = c.channel(rho, n)
            if last:
                h.eq(out, ksum(h, ops, rho, n), 'channel at n=%d' % n)
        elif which == 1:
            x = h.cmat('x%d' % t, dout ** n)
            out = c.channel(x, n, adjoint=True)
            if last:
                h.eq(out, ksum(h, ops, x, n, True), 'adjoint channel at n=%d' % n)
        elif which == 2:
            rho = h.cmat('r%d' % t, din ** n)
            out = c.entropy_exchange(rho, n)
            if last:
                h.eq(out[0], exch(h, ops, rho, n), 'complementary at n=%d' % n)
        elif which == 3:
            x = h.cmat('y%d' % t, nk ** n)
            out = c.entropy_exchange(x, n, adjoint=True)
            if last:
                h.eq(out, exch_adj(h, ops, x, n), 'adjoint complementary at n=%d' % n)
        else:
            rho = h.cmat('r%d' % t, din)
            out = c.average_entanglement_fidelity([1.0], [rho])
            if last:
                fresh = qchan(h, list(ops), [1, 1], din, dout, sparse=sparse)
                h.eq(out, fresh.average_entanglement_fidelity([1.0], [rho]), 'average entanglement fidelity as from a fresh object')
            continue
        if last:
            h.true(c.input_dimension == din ** n and c.output_dimension == dout ** n, 'dimensions follow n')
            h.eq(c.nth_kraus_operators, h.kron_n([h.lst(o) for o in ops], n), 'n-th Kraus operators')
            h.eq(c.kraus, [h.lst(o) for o in ops], 'single use Kraus operators')
            h.true(c.numb_krauss == nk, 'number of single use Kraus operators')


HARNESSES = []
for cls in ('DenseKraus', 'SparseKraus'):
    s = cls[:-5].lower()
    for f in (1, 2, 3):
        HARNESSES.append(Harness(s + '-updates-n%d' % f, history, cls=cls, length=2, first=f, max_paths=4000, samples=1))
    HARNESSES += [
        Harness(s + '-updates-3steps', history, cls=cls, length=3, ns=(1, 2), kinds=(0, 1, 2, 3), max_paths=4000),
        Harness(s + '-updates-3steps-3x2', history, cls=cls, length=3, ns=(1, 2), dout=3, max_paths=4000),
        Harness(s + '-updates-3steps-n3', history, cls=cls, length=3, tier='thorough', max_paths=4000, time_s=1500),
        Harness(s + '-updates-4steps-n3', history, cls=cls, length=4, tier='thorough', max_paths=4000, time_s=3000),
        Harness(s + '-updates-3steps-n4', history, cls=cls, length=3, ns=(1, 2, 3, 4), kinds=(0,), tier='thorough', max_paths=4000, time_s=3000, samples=1),
    ]
    # small operators, larger powers
    HARNESSES += [Harness(s + '-updates-scalars-n5', history, cls=cls, length=2, ns=(1, 2, 3, 4, 5), kinds=(0, 2), din=1, dout=1, max_paths=4000, samples=1),
                  Harness(s + '-updates-rows-n4', history, cls=cls, length=2, ns=(1, 2, 3, 4), kinds=(0, 1), din=2, dout=1, nk=1, max_paths=4000, samples=1),
                  Harness(s + '-updates-columns-n4-3steps', history, cls=cls, length=3, ns=(2, 3, 4), kinds=(0,), din=1, dout=2, nk=1, max_paths=4000, samples=1)]
    for f in (1, 2):
        HARNESSES.append(Harness(s + '-public-2calls-n%d' % f, history_public, sparse=(s == 'sparse'), first=f, max_paths=4000,
                                 time_s=300))
    HARNESSES.append(Harness(s + '-public-3calls', history_public, sparse=(s == 'sparse'), length=3, tier='thorough',
                             max_paths=20000, time_s=3000))
