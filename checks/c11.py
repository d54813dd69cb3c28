"""C11: von Neumann entropy and coherent information."""
from symx.run import Harness
from symx import stubs
from checks.chanlib import *
import numpy as np

BOUNDS = ('entropy: one matrix of size 1-4 or a list of 1-3 blocks of sizes 1-3, every vector of eigenvalues in [-1,1] (cut-off symbolic '
          'or default); coherent information: dense, sparse, block and Choi channels of 1-3 Kraus operators of dimension 2 and 3, n = 1, 2, '
          'arbitrary state, arbitrary eigenvalues')
ASSUMPTIONS = COMMON_ASSUME + ['eigenvalue routine: returns the spectrum of the matrix it is given (its numerics are not modelled)',
                               'log2 is an uninterpreted function of the eigenvalue', 'eigenvalues outside [-1,1] excluded']
STUBS = [SPARSE_STUB, NP_STUB, ACCEPT_STUB, QUTIP_STUB, CHOI_ACCEPT, 'eigvalsh: arbitrary spectrum per matrix, equal for equal or transposed matrices']
EXPLANATION = 'the value is compared with -sum e log2 e over the spectra of exactly the matrices the definition names, on every path of the cut-off'


def ent(h, es, cut=1e-10):
    t = 0
    for e in es:
        if bool(abs(e) > cut):
            t = t - e * h.log2(e)
    return t


def spectrum(h, env, m):
    if h.symbolic:
        return list(env.eigvalsh(m))
    return [float(x) for x in np.linalg.eigvalsh(np.asarray(h.dense(m), dtype=complex))]


def psd(h, name, d):
    """a state: in the concrete run a positive matrix, in the symbolic run an arbitrary Hermitian one"""
    if h.symbolic:
        return h.herm(name, d)
    b = h.lst(h.cmat(name, d))
    m = h.mul(b, h.dag(b))
    t = h.tr(m)
    h.assume(abs(t) > 1e-3)
    return h.arr([[x / t for x in r] for r in m], 'c')


def entropy(h, sizes=(2,), cut=None, aslist=True):
    c = qchan(h, [h.arr(h.eye(2), 'c')], [1, 1], 2, 2)
    env = stubs.LinEnv(h) if h.symbolic else None
    ms = [psd(h, 'm%d' % i, d) for i, d in enumerate(sizes)]
    arg = list(ms) if aslist else ms[0]
    es = [e for m in ms for e in spectrum(h, env, m)]
    if h.symbolic:
        for e in es:
            h.assume(e <= 1)
    out = c.entropy(arg) if cut is None else c.entropy(arg, cut)
    h.eq(out, ent(h, es, cut or 1e-10), 'entropy')


def coherent(h, nk=2, din=2, dout=2, n=1, sparse=False, splits=(), reg=None):
    ops = kops(h, nk, dout, din)
    c = qchan(h, list(ops), [1, 1], din, dout, **(dict(sparse=True) if sparse else dict(orthogonal_krauss=list(splits))))
    env = stubs.LinEnv(h, psd=False) if h.symbolic else None
    rho = psd(h, 'rho', din ** n)
    if h.symbolic:
        lim = []
    out = c.coherent_information(rho, n) if reg is None else c.coherent_information(rho, n, regularized=reg)
    got = [e[0] for e in env.tab] if h.symbolic else None
    sN = ent(h, spectrum(h, env, h.arr(ksum(h, ops, rho, n), 'c')))
    W = exch(h, ops, rho, n)
    edges = [0] + [s * nk ** (n - 1) for s in splits] + [nk ** n]
    sW = 0
    for lo, hi in zip(edges, edges[1:]):
        sW = sW + ent(h, spectrum(h, env, h.arr([r[lo:hi] for r in W[lo:hi]], 'c')))
    want = sN - sW
    if reg:
        want = want * (1.0 / n)
    h.eq(out, want, 'coherent information')
    if h.symbolic:
        # the definition's matrices were all seen by the eigenvalue routine
        h.true(len(env.tab) == len(got), 'spectra of exactly the matrices of the definition')


def choi(h, din=2, dout=2, real=True, reg=None, label='coherent information of a Choi channel'):
    choi_env(h)
    s = [h.real('s%d' % i) for i in range(din)]
    for x in s:
        h.assume(x > 0.05)
    S = [[s[i] if i == j else 0 for j in range(din)] for i in range(din)]
    rho = h.arr([[s[i] * s[i] if i == j else 0 for j in range(din)] for i in range(din)], 'f' if real else 'c')
    ops = kops(h, 2, dout, din)
    C = choi_of(h, ops, din, dout)
    c = h.mod('chan.channel').AnalyticQChan(h.arr(C, 'c'), [1, 1], din, dout)
    env = None
    if h.symbolic:
        env = stubs.LinEnv(h, psd=False)
        env.register(rho, [x * x for x in s], h.arr(h.eye(din), 'c'), h.arr(S, 'f' if real else 'c'))
    out = c.coherent_information(rho, 1) if reg is None else c.coherent_information(rho, 1, reg)
    T = h.kron2(S, h.eye(dout))
    want = ent(h, spectrum(h, env, h.arr(ksum(h, ops, rho, 1), 'c'))) \
        - ent(h, spectrum(h, env, h.arr(h.mul(h.mul(T, C), T), 'c')))
    h.eq(out, want, label)


def pos(rng):
    return {'s%d' % i: round(rng.uniform(.1, .9), 3) for i in range(3)}


HARNESSES = [
    Harness('entropy-1', entropy, sizes=(1,)), Harness('entropy-2', entropy, sizes=(2,)), Harness('entropy-3', entropy, sizes=(3,)),
    Harness('entropy-array', entropy, sizes=(2,), aslist=False), Harness('entropy-array-4', entropy, sizes=(4,), aslist=False),
    Harness('entropy-blocks-2-2', entropy, sizes=(2, 2)), Harness('entropy-blocks-1-2', entropy, sizes=(1, 2)),
    Harness('entropy-blocks-2-1-1', entropy, sizes=(2, 1, 1)), Harness('entropy-cut', entropy, sizes=(3,), cut=0.125),
    Harness('coherent-dense', coherent), Harness('coherent-dense-reg', coherent, reg=True), Harness('coherent-dense-noreg', coherent, reg=False),
    Harness('coherent-dense-3x2', coherent, dout=3), Harness('coherent-dense-k1', coherent, nk=1),
    Harness('coherent-dense-2x3', coherent, din=3, nk=1),
    Harness('coherent-sparse', coherent, sparse=True), Harness('coherent-sparse-3x2', coherent, sparse=True, dout=3),
    Harness('coherent-blocks-1-1', coherent, splits=(1,)), Harness('coherent-blocks-1-2', coherent, nk=3, splits=(1,)),
    Harness('coherent-blocks-2-1', coherent, nk=3, splits=(2,), dout=3, max_paths=800),
    Harness('coherent-dense-k1-n2-reg', coherent, nk=1, n=2, reg=True), Harness('coherent-sparse-k1-n2-reg', coherent, nk=1, n=2, reg=True, sparse=True),
    Harness('coherent-dense-n2-reg', coherent, n=2, reg=True, max_paths=1500),
    Harness('coherent-blocks-n2', coherent, n=2, splits=(1,), max_paths=1500),
    Harness('choi-real', choi, sampler=pos), Harness('choi-real-reg', choi, reg=True, sampler=pos), Harness('choi-real-3x2', choi, dout=3, max_paths=1200, tier='thorough', time_s=1500),
    Harness('choi-complex', choi, real=False, sampler=pos, label='coherent information of a Choi channel for a complex state'),
]
