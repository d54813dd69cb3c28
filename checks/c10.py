"""C10: a Choi matrix is accepted exactly when it is a channel of the declared shape, and its Kraus operators reproduce it."""
from symx.run import Harness
from checks.chanlib import *
import numpy as np

BOUNDS = ('gate: all Hermitian 4x4 matrices of X shape (arbitrary diagonal and two arbitrary complex corners), all Choi matrices of 1-2 '
          'Kraus operators 2x2 / 3x2, every combination of declared dimensions 1-3 with one or two particles; reconstruction: every '
          'spectral decomposition of sizes 4 and 6 with 1-4 nonzero eigenvalues')
ASSUMPTIONS = COMMON_ASSUME + ['qutip decides complete positivity exactly; matrices within 1e-3 of the boundary are excluded',
                               'every nonzero eigenvalue is above 1e-3']
STUBS = [NP_STUB, QUTIP_STUB, 'qutip iscp: exact positivity test for the matrices used', EIGH_STUB]
EXPLANATION = 'acceptance is compared with positivity and the trace condition; the Kraus operators returned are recombined and compared with the Choi matrix'


def gate(h, public=True):
    choi_env(h, accept=False)
    a, b, c, d = [h.real('d%d' % i) for i in range(4)]
    e, f = h.cplx('e'), h.cplx('f')
    C = h.arr([[a, 0, 0, e], [0, b, f, 0], [0, h.conj(f), c, 0], [h.conj(e), 0, 0, d]], 'c')
    m1 = a * d - abs2(h, e)
    m2 = b * c - abs2(h, f)
    mins = [a, b, c, d, m1, m2]
    psd = all_(h, [x >= 0 for x in mins])
    for x in mins:
        h.assume(either(x >= 0, x < -0.01))
    t1, t2 = a + b - 1, c + d - 1
    tp = all_(h, [t1 <= 0, t1 >= 0, t2 <= 0, t2 >= 0])
    for t in (t1, t2):
        h.assume(either(t <= 0, t > 0.001))
        h.assume(either(t >= 0, t < -0.001))
    if h.symbolic:
        h.cp_oracle = lambda m: psd if h.same(m, C) else bad()
    if public:
        st, q = h.attempt(h.mod('chan.channel').AnalyticQChan, C, [1, 1], 2, 2)
    else:
        st, q = h.attempt(h.mod('chan._choi').ChoiQutip, C, [1, 1], 2, 2)
    good = bool(psd) and bool(tp)
    h.true((st == 'ok') == good, 'accepted exactly when completely positive and trace preserving')
    if st == 'raise':
        h.true(isinstance(q, AssertionError), 'rejected with an AssertionError')


def bad():
    from symx.core import Unsupported
    raise Unsupported('positivity of an unknown matrix')


def abs2(h, z):
    if h.symbolic:
        return (z * h.conj(z)).real
    return abs(z) ** 2


def either(p, q):
    return (p | q) if not isinstance(p, bool) or not isinstance(q, bool) else (p or q)


def all_(h, cs):
    r = True
    for c in cs:
        r = c if r is True else (r & c if r is not False else False)
    return r


def xhint(rng):
    k = rng.randint(0, 3)
    a, d = rng.uniform(.1, .9), rng.uniform(.1, .9)
    v = {'d0': round(a, 3), 'd1': round(1 - round(a, 3), 3), 'd3': round(d, 3), 'd2': round(1 - round(d, 3), 3), 'e': [round((a * d) ** .5 * .5, 3), .01], 'f': [0.0, 0.05]}
    if k == 1:
        v['d0'] = v['d0'] + .5
    if k == 2:
        v['e'] = [1.5, .3]
    if k == 3:
        v['f'] = [.2, 1.5]
    return v


def gate_kraus(h, nk=2, din=2, dout=2):
    """sums of |K>><<K|: completely positive, so acceptance is the trace condition"""
    choi_env(h, accept=False)
    ops = kops(h, nk, dout, din)
    if h.symbolic:
        h.cp_oracle = lambda m: True
    want = None
    for o in ops:
        o = h.lst(o)
        t = h.mul(h.dag(o), o)
        want = t if want is None else h.addm(want, t)
    st, q = h.attempt(h.mod('chan.channel').AnalyticQChan, h.arr(choi_of(h, ops, din, dout), 'c'), [1, 1], din, dout)
    if st == 'ok':
        for i in range(din):
            for j in range(din):
                z = want[i][j] - (1 if i == j else 0)
                h.true(abs(z) < 1e-3, 'an accepted Choi matrix satisfies the trace condition')
    else:
        h.true(isinstance(q, AssertionError), 'rejected with an AssertionError')
        far = False
        for i in range(din):
            for j in range(din):
                b = abs(want[i][j] - (1 if i == j else 0)) > 1e-13
                far = b if far is False else (far | b)
        h.true(far, 'a rejected Choi matrix breaks the trace condition')


def shapes(h):
    choi_env(h, accept=False)
    n = [2, 3, 4, 6, 8, 9][h.choose('size', 6)]
    din, dout = 1 + h.choose('din', 3), 1 + h.choose('dout', 3)
    qi, qo = 1 + h.choose('qi', 2), 1 + h.choose('qo', 2)
    if h.symbolic:
        h.cp_oracle = lambda m: True
    fits = din ** qi * dout ** qo == n
    C = h.arr([[1.0 / dout ** qo if i == j else 0 for j in range(n)] for i in range(n)], 'c')
    st, q = h.attempt(h.mod('chan.channel').AnalyticQChan, C, [qi, qo], din, dout)
    h.true((st == 'ok') == fits, 'accepted exactly when the size matches the declared dimensions')
    if st == 'ok':
        h.true(q.input_dimension == din ** qi and q.output_dimension == dout ** qo, 'dimensions')
    else:
        h.true(isinstance(q, ValueError), 'size mismatch raises ValueError')


def recon(h, din=2, dout=2, q=(1, 1), zeros=(), public=True):
    choi_env(h)
    ri, ro = din ** q[0], dout ** q[1]
    C, ws, V = spectral(h, ri * ro, zeros, floor=1e-6, ascending=True)
    if public:
        ks = h.mod('chan.channel').AnalyticQChan(C, [q[0], q[1]], din, dout).kraus
    else:
        ks = h.mod('chan._choi').ChoiQutip(C, [q[0], q[1]], din, dout).kraus_operators()
    h.true(len(ks) == ri * ro - len(zeros), 'one Kraus operator per nonzero eigenvalue') if h.symbolic else None
    for k in ks:
        h.true(tuple(k.shape) == (ro, ri), 'shape of a Kraus operator')
    h.eq(choi_of(h, ks, ri, ro), C, 'Kraus operators reproduce the Choi matrix')


HARNESSES = [
    Harness('gate', gate, sampler=xhint, samples=6, max_paths=4000, time_s=200), Harness('gate-class', gate, public=False, sampler=xhint, samples=6, max_paths=4000, time_s=200),
    Harness('gate-kraus-1', gate_kraus, nk=1, hints=lambda r: isometry_hint(r, 1, 2, 2)),
    Harness('gate-kraus-2', gate_kraus, nk=2, hints=lambda r: isometry_hint(r, 2, 2, 2)),
    Harness('gate-kraus-3x2', gate_kraus, nk=1, dout=3, hints=lambda r: isometry_hint(r, 1, 3, 2)),
    Harness('shapes', shapes, max_paths=5000),
    Harness('recon-2x2-r1', recon, zeros=(0, 1, 2), hints=lambda r: spectral_hint(r, 4, (0, 1, 2))), Harness('recon-2x2-r2', recon, zeros=(0, 1), hints=lambda r: spectral_hint(r, 4, (0, 1))), Harness('recon-2x2-full', recon, hints=lambda r: spectral_hint(r, 4, ())),
    Harness('recon-3x2-r2', recon, dout=3, zeros=(0, 1, 2, 3), hints=lambda r: spectral_hint(r, 6, (0, 1, 2, 3))), Harness('recon-2x3-r2', recon, din=3, zeros=(0, 1, 2, 3), hints=lambda r: spectral_hint(r, 6, (0, 1, 2, 3))),
    Harness('recon-2to1', recon, q=(2, 1), zeros=(0, 1, 2, 3, 4, 5), hints=lambda r: spectral_hint(r, 8, (0, 1, 2, 3, 4, 5))), Harness('recon-class-1to2', recon, q=(1, 2), zeros=(0, 1, 2, 3, 4, 5), public=False, hints=lambda r: spectral_hint(r, 8, (0, 1, 2, 3, 4, 5))),
    Harness('recon-3x2-full', recon, dout=3, time_s=900, hints=lambda r: spectral_hint(r, 6, ())),
]
