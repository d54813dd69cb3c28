"""C12: fidelity between a state and its image."""
from symx.run import Harness
from symx import stubs
from checks.chanlib import *
import numpy as np

BOUNDS = ('dense, sparse and Choi channels with 1-3 Kraus operators of dimension 2 (and 3), n = 1, 2, every positive state given by its '
          'spectral decomposition (diagonal basis for n = 2), every nonnegative spectrum of sqrt(rho) N(rho) sqrt(rho)')
ASSUMPTIONS = COMMON_ASSUME + ['eigenvalue and square-root routines answer with the spectrum / positive root (their numerics are not modelled)']
STUBS = [SPARSE_STUB, NP_STUB, ACCEPT_STUB, 'eigh / eigvalsh / sqrtm: exact roots and arbitrary nonnegative spectra, keyed by the matrix']
EXPLANATION = 'value compared with sum_i sqrt(e_i), e_i the spectrum of sqrt(rho) N(rho) sqrt(rho) formed from the definition'


def fid(h, nk=2, d=2, n=1, sparse=False, choi=False, diag=False, pure=False, splits=()):
    ops = kops(h, nk, d, d)
    D = d ** n
    if choi:
        choi_env(h)
        c = h.mod('chan.channel').AnalyticQChan(h.arr(choi_of(h, ops, d, d), 'c'), [1, 1], d, d)
    else:
        c = qchan(h, list(ops), [1, 1], d, d, **(dict(sparse=True) if sparse else dict(orthogonal_krauss=list(splits))))
    zeros = set(range(1, D)) if pure else set()
    w = []
    for i in range(D):
        if i in zeros:
            w.append(0.0)
        else:
            x = h.real('s%d' % i)
            h.assume(x > 0.01)
            w.append(x)
    if diag:
        V = h.eye(D)
    elif h.symbolic:
        V = h.lst(h.cmat('V', D))
    else:
        g = h.lst(h.cmat('V', D))
        q, r = np.linalg.qr(np.array(g))
        V = q.tolist()

    def build(f):
        return [[sum((V[i][q] * f(w[q]) * h.conj(V[j][q]) for q in range(D) if q not in zeros), 0) for j in range(D)] for i in range(D)]
    rho = h.arr(build(lambda x: x), 'c')
    S = build(h.sqrt)
    env = None
    if h.symbolic:
        env = stubs.LinEnv(h)
        env.register(rho, w, h.arr(V, 'c'), h.arr(S, 'c'))
    out = c.fidelity_two_states(rho, n)
    M = h.arr(h.mul(h.mul(S, ksum(h, ops, rho, n)), S), 'c')
    if h.symbolic:
        want = 0
        for e in env.eigvalsh(M):
            want = want + h.sqrt(e)
    else:
        want = sum(max(float(e), 0.) ** .5 for e in np.linalg.eigvalsh(np.asarray(M)))
    h.eq(out, want, 'fidelity of a pure state' if pure else 'fidelity')


def pos(rng):
    return {'s%d' % i: round(rng.uniform(.1, .9), 3) for i in range(9)}


HARNESSES = [
    Harness('dense-k2', fid, sampler=pos), Harness('dense-k3', fid, nk=3, sampler=pos), Harness('dense-pure', fid, pure=True, sampler=pos, samples=12),
    Harness('sparse-k2', fid, sparse=True, sampler=pos), Harness('sparse-pure', fid, sparse=True, pure=True, sampler=pos, samples=12),
    Harness('dense-k1-n2', fid, nk=1, n=2, diag=True, sampler=pos), Harness('sparse-k1-n2', fid, nk=1, n=2, sparse=True, diag=True, sampler=pos),
    Harness('dense-pure-n2', fid, nk=2, n=2, pure=True, diag=True, sampler=pos),
    Harness('dense-k2-d3-diag', fid, nk=2, d=3, diag=True, sampler=pos), Harness('dense-orthogonal', fid, nk=3, splits=(1,), sampler=pos),
    Harness('choi-k2', fid, choi=True, sampler=pos), Harness('choi-pure', fid, choi=True, pure=True, sampler=pos, samples=6),
    Harness('dense-k2-n2', fid, nk=2, n=2, diag=True, sampler=pos, time_s=900),
]
