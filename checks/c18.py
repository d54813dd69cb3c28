"""C18: optimisation interface: parameterizations, dimensions, invalid requests, samples of the sampler, history."""
from symx.run import Harness
from checks.optlib import *

BOUNDS = 'qubit channels tensored n = 1, 2, 3 and qubit-to-qutrit, qutrit-to-qubit and two-particle channels; both parameterizations by name, class and instance; one or two samples of the sampler next to zero to two user samples; every drawn vector and optimiser answer; every accepted/rejected combination of the option values listed in the harness'
ASSUMPTIONS = COMMON_ASSUME + ['points returned by the optimiser are not the zero vector']
STUBS = [NP_STUB, ACCEPT_STUB, OPT_STUB, ORACLE_STUB]
EXPLANATION = 'states handed to the channel, starting points handed to the optimiser, exceptions and result fields compared with the documentation'


def nonzero(h, vs):
    nz = 0
    for v in vs:
        nz = nz + v * v
    h.assume(nz > 0.01)


def chol_state(h, vec, d, rank):
    vs = h.lst(vec)
    L = [[0] * rank for _ in range(d)]
    k = rank
    for i in range(d):
        for j in range(min(i + 1, rank)):
            if i == j:
                L[i][j] = vs[i]
            else:
                L[i][j] = vs[k] + 1j * vs[k + 1]
                k += 2
    P = h.mul(L, h.dag(L))
    t = h.tr(P)
    t = t.real if hasattr(t, 'real') and not callable(t.real) else t
    return [[x / t for x in r] for r in P]


def nvars(kind, d, rank):
    return 2 * d * rank if kind == 'overparam' else rank + 2 * sum(min(i, rank) for i in range(d))


def ways(h, kind='overparam', form='str', rank=1, fid=False, n=1, method='slsqp', dims=(2, 2), q=(1, 1)):
    """the requested parameterization and dimension are used throughout"""
    din, dout = dims[0] ** q[0], dims[1] ** q[1]
    import numpy as np
    ops = dephase(2) if din == dout == 2 else [np.eye(din)] if din == dout else [np.eye(dout)[:, :din]] if dout > din else [np.eye(dout, din), np.eye(dout, din, k=dout)]
    c = qchan(h, ops, list(q), *dims)
    d = din ** n
    cls = {'overparam': h.mod('chan.param').OverParam, 'cholesky': h.mod('chan.param').CholeskyParam}[kind]
    param = kind if form == 'str' else cls if form == 'class' else cls()
    ref = state_of if kind == 'overparam' else chol_state
    if fid:
        rank = 1
    L = nvars(kind, d, rank)
    x = h.rvec('x', L)
    nonzero(h, h.lst(x))
    f = h.real('f')
    calls = opt_env(h, [(f, x, True)])
    oracle(h, c, calls, [h.real('o0')])
    samples = [[0.5 + 0.01 * j for j in range(L)]]
    kw = dict(optimizer=method, param=param, samples=samples)
    out = c.optimize_fidelity(n, **kw) if fid else c.optimize_coherent(n, rank, **kw)
    h.eq(out['optimal_rho'], ref(h, x, d, rank), 'state of the optimum')
    h.eq(out['optimal_val'], f if fid else -f, 'value of the optimum')
    h.true(set(out) >= {'optimal_rho', 'optimal_val', 'method', 'lipschitz', 'success', 'objective'}, 'fields of the result')
    done = calls.minimize if method == 'slsqp' else calls.diffev
    h.true(len(done) == 1 and len(done[0]['bounds']) == L, 'one bound per variable')
    y = h.rvec('y', L)
    nonzero(h, h.lst(y))
    val = done[0]['fun'](y, *done[0]['args'])
    kind_, rho, nn = calls.oracle[0]
    h.eq(rho, ref(h, y, d, rank), 'objective is evaluated at the state of the vector')
    h.true(nn == n and c._current_n == n and c.input_dimension == d, 'channel is tensored')
    h.eq(val, h.real('o0') * (1 if fid else -1), 'sign of the objective')


def lip(h, nl=1, ns=1, fid=False, method='slsqp', pool=0):
    """samples of the sampler come in addition to the samples of the user"""
    d, rank = 2, 1
    L = 4
    c = qchan(h, dephase(2), [1, 1], 2, 2)
    P0 = h.mod('chan.param').OverParam
    draws = []
    for t in range(nl):
        v = h.rvec('v%d' % t, L)
        nonzero(h, h.lst(v))
        draws.append(v)
    cnt = [0]

    class P(P0):
        @staticmethod
        def random_vectors(nsize, rank, *a, **k):
            cnt[0] += 1
            h.assume(cnt[0] <= nl)
            return draws[cnt[0] - 1]
    tot = nl + ns if method == 'slsqp' else 1
    res = []
    for i in range(tot):
        x = h.rvec('x%d' % i, L)
        nonzero(h, h.lst(x))
        res.append((h.real('f%d' % i), x, True))
    calls = opt_env(h, res)
    oracle(h, c, calls, [h.real('o%d' % i) for i in range(nl)])
    samples = [[0.1 * (i + 1) + 0.01 * j for j in range(L)] for i in range(ns)]
    keep = [list(s) for s in samples]
    kw = dict(optimizer=method, param=P, lipschitz=nl, use_pool=pool)
    if ns:
        kw['samples'] = samples
    out = c.optimize_fidelity(1, **kw) if fid else c.optimize_coherent(1, rank, **kw)
    h.true(samples == keep, 'samples of the user unchanged')
    h.true(out['lipschitz'] is True, 'lipschitz flag')
    h.true(cnt[0] == nl, 'number of draws')
    want = [h.lst(v) for v in draws] + samples
    if method == 'slsqp':
        got = [h.lst(k['x0']) if not isinstance(k['x0'], list) else k['x0'] for k in calls.minimize]
    else:
        got = h.lst(calls.diffev[0]['init'])
    h.true(len(got) == len(want), 'number of starting points')
    left = list(got)
    for w in want:
        hit = [g for g in left if len(g) == len(w) and h.same(h.arr(list(g), 'f'), h.arr(list(w), 'f'))]
        h.true(bool(hit), 'every sample is a starting point')
        if hit:
            left = [g for g in left if g is not hit[0]]
    for i, (k, rho, n) in enumerate(calls.oracle):
        h.true(k == ('fidelity' if fid else 'coherent'), 'sampler uses the requested quantity')
        h.eq(rho, state_of(h, draws[i], d, rank), 'sampler evaluates the drawn state')


def requests(h):
    """invalid requests are refused, valid ones are not"""
    c = qchan(h, dephase(2), [1, 1], 2, 2)
    L = 4
    opt_env(h, [(0.25, [1., 0, 0, 0], True)] * 3)
    oracle(h, c, Calls(), [0.5] * 4)
    P = h.mod('chan.param')
    om = ['slsqp', 'diffev', 'SLSQP', 'other'][h.choose('om', 4)]
    pm = ['overparam', 'cholesky', P.OverParam, 'other', 3, dict][h.choose('pm', 6)]
    sm = [(), [[1., 0, 0, 0]], ((1., 0, 0, 0),)][h.choose('sm', 3)]
    pool = [0, 2, -1, 1.5][h.choose('pool', 4)]
    fid = bool(h.bit('fid') == 1)
    if pm == 'cholesky':
        sm = [[1., 0, 0]] if isinstance(sm, list) else sm
        h.mod('chan.param')
    kw = dict(optimizer=om, param=pm, samples=sm, use_pool=pool)
    if pm == 'cholesky':
        opt_env(h, [(0.25, [1., 0, 0], True)] * 3)
    st, out = h.attempt(lambda: c.optimize_fidelity(1, **kw) if fid else c.optimize_coherent(1, 1, **kw))
    okp = pm in ('overparam', 'cholesky') or pm is P.OverParam
    oko = om in ('slsqp', 'diffev')
    if not okp:
        h.true(st == 'raise' and isinstance(out, TypeError), 'unknown parameterization is refused')
    elif not oko and pool in (0, 2) and not isinstance(sm, tuple):
        h.true(st == 'raise' and isinstance(out, TypeError), 'unknown optimizer is refused')
    elif pool in (-1, 1.5):
        h.true(st == 'raise', 'invalid number of processes is refused')
    elif om == 'slsqp' and len(sm) == 0:
        h.true(st == 'raise', 'slsqp without any starting point is refused')
    elif oko and not (isinstance(sm, tuple) and len(sm)):
        h.true(st == 'ok', 'valid request is accepted')


HARNESSES = []
for kind in ('overparam', 'cholesky'):
    for form in ('str', 'class', 'instance'):
        HARNESSES.append(Harness('%s-%s' % (kind, form), ways, kind=kind, form=form, rank=2 if kind == 'cholesky' else 1))
    HARNESSES += [Harness('%s-fidelity' % kind, ways, kind=kind, fid=True), Harness('%s-diffev' % kind, ways, kind=kind, method='diffev'),
                  Harness('%s-n2' % kind, ways, kind=kind, n=2), Harness('%s-fidelity-n2' % kind, ways, kind=kind, n=2, fid=True),
                  Harness('%s-2to3' % kind, ways, kind=kind, dims=(2, 3)), Harness('%s-3to2' % kind, ways, kind=kind, dims=(3, 2)),
                  Harness('%s-2particles' % kind, ways, kind=kind, q=(2, 1)), Harness('%s-2particles-fidelity' % kind, ways, kind=kind, q=(2, 2), fid=True),
                  Harness('%s-n3' % kind, ways, kind=kind, n=3, tier='thorough', time_s=600)]
HARNESSES += [Harness('lip-1-0', lip, ns=0), Harness('lip-1-1', lip), Harness('lip-1-2', lip, ns=2), Harness('lip-fidelity', lip, fid=True), Harness('lip-diffev', lip, method='diffev'),
              Harness('lip-pool', lip, pool=2), Harness('lip-2-1', lip, nl=2, time_s=200), Harness('lip-diffev-2-0', lip, nl=2, ns=0, method='diffev', fid=True),
              Harness('requests', requests, max_paths=2000, samples=6)]
