"""C09: a channel given by its Choi matrix is the channel of the Kraus operators behind it."""
from symx.run import Harness
from symx import stubs
from checks.chanlib import *

BOUNDS = ('input/output dimension 2 and 3, one or two particles on either side, Choi matrices with arbitrary complex entries or built '
          'from 1-3 arbitrary Kraus operators, arbitrary input matrices; square roots of states: every positive semidefinite 2x2 root')
ASSUMPTIONS = COMMON_ASSUME + ['the square root routine returns the positive root (its numerics are not modelled)']
STUBS = [NP_STUB, QUTIP_STUB, CHOI_ACCEPT, 'sqrtm / eigh: answers with the root / spectrum the state was built from']
EXPLANATION = 'outputs of the Choi class are compared entrywise with the definition and with the Kraus class on the same operators'


def choi_channel_ref(h, C, rho, ri, ro):
    C, rho = h.lst(C), h.lst(rho)
    out = [[0] * ro for _ in range(ro)]
    for a in range(ro):
        for b in range(ro):
            acc = 0
            for i in range(ri):
                for j in range(ri):
                    acc = acc + rho[i][j] * C[i * ro + a][j * ro + b]
            out[a][b] = acc
    return out


def channel(h, din=2, dout=2, q=(1, 1), public=True):
    choi_env(h)
    ri, ro = din ** q[0], dout ** q[1]
    C = h.cmat('C', ri * ro)
    if public:
        c = h.mod('chan.channel').AnalyticQChan(C, [q[0], q[1]], din, dout)
    else:
        c = h.mod('chan._choi').ChoiQutip(C, [q[0], q[1]], din, dout)
    rho = h.cmat('rho', ri)
    keep, keepc = h.lst(rho), h.lst(C)
    out = c.channel(rho, 1) if public else c.channel(rho)
    h.eq(out, choi_channel_ref(h, C, rho, ri, ro), 'channel of a Choi matrix')
    h.eq(rho, keep, 'input unchanged')
    h.eq(C, keepc, 'Choi matrix unchanged')
    if public:
        h.true(c.input_dimension == ri and c.output_dimension == ro and c.dim_in == din and c.dim_out == dout
               and list(c.numb_qubits) == [q[0], q[1]], 'metadata')


def versus_kraus(h, nk=2, din=2, dout=2, q=(1, 1), sparse=False):
    """both representations of one channel, through the public class"""
    choi_env(h)
    ri, ro = din ** q[0], dout ** q[1]
    ops = kops(h, nk, ro, ri)
    c = h.mod('chan.channel').AnalyticQChan(h.arr(choi_of(h, ops, ri, ro), 'c'), [q[0], q[1]], din, dout)
    k = qchan(h, list(ops), [q[0], q[1]], din, dout, sparse=sparse)
    rho = h.cmat('rho', ri)
    h.eq(c.channel(rho, 1), k.channel(rho, 1), 'Choi channel equals Kraus channel')


def only_n1(h):
    """a Choi channel answers for one use only"""
    choi_env(h)
    c = h.mod('chan.channel').AnalyticQChan(h.cmat('C', 4), [1, 1], 2, 2)
    n = 2 + h.choose('n', 2)
    rho = h.cmat('rho', 2)
    for f in (lambda: c.channel(rho, n), lambda: c.coherent_information(rho, n), lambda: c.entropy_exchange(rho, n)):
        st, e = h.attempt(f)
        h.true(st == 'raise' and isinstance(e, AssertionError), 'more than one use of a Choi channel is refused')


def root_state(h, d, rank=None):
    """rho = S S with S = B B^dag positive"""
    b = h.lst(h.cmat('B', d, rank or d))
    S = h.mul(b, h.dag(b))
    return h.arr(h.mul(S, S), 'c'), h.arr(S, 'c')


def complementary(h, din=2, dout=2, diag=False, rank=None, label='complementary matrix'):
    choi_env(h)
    if diag:
        s = [h.real('s%d' % i) for i in range(din)]
        for x in s:
            h.assume(x > 0.01)
        w, V = [x * x for x in s], h.arr(h.eye(din), 'c')
        S = h.arr([[s[i] if i == j else 0 for j in range(din)] for i in range(din)], 'c')
        rho = h.arr([[w[i] if i == j else 0 for j in range(din)] for i in range(din)], 'c')
    else:
        rho, S = root_state(h, din, rank)
        w, V = None, None
    if h.symbolic:
        env = stubs.LinEnv(h)
        env.register(rho, w, V, S)
    C = h.cmat('C', din * dout)
    c = h.mod('chan._choi').ChoiQutip(C, [1, 1], din, dout)
    st, out = h.attempt(c.complementary_channel, rho)
    if st == 'raise':
        raise out
    T = h.kron2([list(r) for r in zip(*h.lst(S))], h.eye(dout))
    h.eq(out, h.mul(h.mul(T, h.lst(C)), T), label)


def spectra(h, nk=2, din=2, dout=2, powers=(1, 2)):
    """the complementary matrix of the Choi form and the exchange matrix of the Kraus form have the same nonzero spectrum
    (equal power sums)"""
    choi_env(h)
    s = [h.real('s%d' % i) for i in range(din)]
    for x in s:
        h.assume(x > 0.01)
    w = [x * x for x in s]
    S = h.arr([[s[i] if i == j else 0 for j in range(din)] for i in range(din)], 'c')
    rho = h.arr([[w[i] if i == j else 0 for j in range(din)] for i in range(din)], 'c')
    if h.symbolic:
        stubs.LinEnv(h).register(rho, w, h.arr(h.eye(din), 'c'), S)
    ops = kops(h, nk, dout, din)
    c = h.mod('chan._choi').ChoiQutip(h.arr(choi_of(h, ops, din, dout), 'c'), [1, 1], din, dout)
    k = qchan(h, list(ops), [1, 1], din, dout)
    M = h.lst(c.complementary_channel(rho))
    W = h.lst(k.entropy_exchange(rho, 1)[0])
    pm, pw = M, W
    for p in powers:
        if p > 1:
            pm, pw = h.mul(pm, M), h.mul(pw, W)
        h.eq(h.tr(pm), h.tr(pw), 'power sum %d' % p)


def constraint(h, din=2, dout=2, q=(1, 1)):
    """index and dimensions handed to the partial trace: tracing them out of a Choi matrix gives the trace condition"""
    ri, ro = din ** q[0], dout ** q[1]
    k, dims = h.mod('chan._choi').ChoiQutip.constraint_partial_trace([q[0], q[1]], din, dout)
    h.true(all(d[0] == d[1] for d in dims) and len(dims) == 2, 'square factors')
    d = [x[0] for x in dims]
    h.true(d[0] * d[1] == ri * ro, 'dimensions multiply to the size of the Choi matrix')
    ops = kops(h, 2, ro, ri)
    C = choi_of(h, ops, ri, ro)
    keep = 1 - k
    h.true(k in (0, 1) and d[keep] == ri, 'the input factor is kept')
    out = [[0] * ri for _ in range(ri)]
    for i in range(ri):
        for j in range(ri):
            for t in range(d[k]):
                a, b = ((i, t), (j, t)) if k == 1 else ((t, i), (t, j))
                out[i][j] = out[i][j] + C[a[0] * d[1] + a[1]][b[0] * d[1] + b[1]]
    want = None
    for o in ops:
        o = h.lst(o)
        t = h.mul(h.dag(o), o)
        want = t if want is None else h.addm(want, t)
    h.eq(out, [list(r) for r in zip(*want)], 'partial trace is (sum K^dag K)^T')


def pos(rng):
    return {'s%d' % i: round(rng.uniform(.1, .9), 3) for i in range(3)}


HARNESSES = [
    Harness('channel-2x2', channel), Harness('channel-3x2', channel, dout=3), Harness('channel-2x3', channel, din=3),
    Harness('channel-1to2', channel, q=(1, 2)), Harness('channel-2to1', channel, q=(2, 1)), Harness('channel-2to2', channel, q=(2, 2)),
    Harness('channel-class', channel, public=False, dout=3),
    Harness('kraus-2x2', versus_kraus, nk=3), Harness('kraus-3x2', versus_kraus, dout=3), Harness('kraus-2x3', versus_kraus, din=3),
    Harness('kraus-sparse', versus_kraus, sparse=True), Harness('kraus-1to2', versus_kraus, nk=1, q=(1, 2)), Harness('kraus-2to1', versus_kraus, nk=1, q=(2, 1)),
    Harness('only-n1', only_n1),
    Harness('complementary-2x2', complementary, samples=3), Harness('complementary-3x2', complementary, dout=3),
    Harness('complementary-diag-2x3', complementary, din=3, diag=True, sampler=pos),
    Harness('complementary-pure', complementary, rank=1, samples=8, label='complementary matrix of a pure state'),
    Harness('spectra-k1', spectra, nk=1, sampler=pos), Harness('spectra-k2', spectra, sampler=pos), Harness('spectra-k2-3x2', spectra, dout=3, sampler=pos),
    Harness('spectra-k3', spectra, nk=3, powers=(1, 2, 3), time_s=1500),
    Harness('constraint-2x2', constraint), Harness('constraint-3x2', constraint, dout=3), Harness('constraint-1to2', constraint, q=(1, 2)),
    Harness('constraint-2to1', constraint, q=(2, 1)),
]


def over(h, f, cs):
    for kw in cs:
        f(h, **kw)


def shapes(limit):
    return [(d, o, qi, qo) for d in (1, 2, 3, 4, 5) for o in (1, 2, 3, 4, 5) for qi in (1, 2, 3) for qo in (1, 2, 3) if d ** qi * o ** qo <= limit and (d > 1 or qi == 1) and (o > 1 or qo == 1)]


SH = [dict(din=a, dout=b, q=(c, d)) for a, b, c, d in shapes(20)]
HARNESSES += [Harness('sizes-channel-%d' % i, over, f=channel, cs=SH[i::4], samples=1, time_s=300, bounds='all dimensions 1-5 with 1-3 particles and Choi matrices up to size 20, part %d' % i) for i in range(4)]
SK = [dict(s, nk=k, sparse=sp) for s in SH for k in (1, 2, 5) for sp in (False, True) if k * (s['din'] ** s['q'][0] * s['dout'] ** s['q'][1]) ** 2 <= 260]
HARNESSES += [Harness('sizes-kraus-%d' % i, over, f=versus_kraus, cs=SK[i::4], samples=1, time_s=300, bounds='1, 2, 5 operators, dimensions 1-5 with 1-3 particles, part %d' % i) for i in range(4)]
SC = [s for s in SH if s['din'] > 1 or s['dout'] > 1]
HARNESSES += [Harness('sizes-constraint-%d' % i, over, f=constraint, cs=SC[i::4], samples=1, time_s=300, bounds='dimensions 1-5 with 1-3 particles, part %d' % i) for i in range(4)]
