"""C16: the reported optimum is the best of the local optimisations, with its state and flag."""
from symx.run import Harness
from checks.optlib import *

BOUNDS = 'one to four starting points (user samples), sequential and pooled, one qubit (n = 1) and two qubits (n = 2, one or two starting points), rank 1 and 2, both objectives; every value, every point and every convergence flag returned by the local optimiser'
ASSUMPTIONS = COMMON_ASSUME + ['points returned by the optimiser are not the zero vector']
STUBS = [NP_STUB, ACCEPT_STUB, OPT_STUB, ORACLE_STUB]
EXPLANATION = 'optimal value = best value over the calls (sign by objective), state and flag of a call attaining it; every starting point handed over; the objective handed over evaluated at an arbitrary point'


def best(h, ns=2, pool=0, fid=False, n=1, rank=2, method='slsqp', maxiter=17, regularized=False):
    d = 2 ** n
    c = qchan(h, dephase(2), [1, 1], 2, 2)
    if fid:
        rank = 1
    L = 2 * d * rank
    res = []
    calls_n = ns if method == 'slsqp' else 1
    for i in range(calls_n):
        x = h.rvec('x%d' % i, L)
        nz = 0
        for v in h.lst(x):
            nz = nz + v * v
        h.assume(nz > 0.01)
        res.append((h.real('f%d' % i), x, bool(h.bit('s%d' % i) == 1)))
    calls = opt_env(h, res)
    oracle(h, c, calls, [h.real('o%d' % i) for i in range(4)])
    samples = [[0.1 * (i + 1) + 0.01 * j for j in range(L)] for i in range(ns)]
    kw = dict(optimizer=method, maxiter=maxiter, samples=samples, use_pool=pool) if ns else dict(optimizer=method, maxiter=maxiter)
    keep = [list(s) for s in samples]
    if fid:
        out = c.optimize_fidelity(n, **kw)
    elif regularized:
        out = c.optimize_coherent(n, rank, regularized=True, **kw)
    else:
        out = c.optimize_coherent(n, rank, **kw)
    h.true(samples == keep, 'samples of the user unchanged')
    # the state belongs to one call
    done = calls.minimize if method == 'slsqp' else calls.diffev
    h.true(len(done) == calls_n, 'one optimisation per starting point')
    hit = None
    sg = 1 if fid else -1
    for i in range(calls_n):
        if h.same(out['optimal_rho'], h.arr(state_of(h, res[i][1], d, rank), 'c')):
            hit = i
            break
    if hit is None:
        h.true(False, 'state comes from one of the optimisations')
        return
    f = res[hit][0]
    want = sg * f
    if regularized:
        want = want * (1. / n)
    h.eq(out['optimal_val'], want, 'value belongs to the state')
    for i in range(calls_n):
        h.le(f, res[i][0], 'no other call was better')
    h.true(bool(out['success']) == res[hit][2], 'flag belongs to the state')
    h.true(out['method'] == method and out['objective'] == ('fidelity' if fid else 'coherent') and out['lipschitz'] is False, 'fields')
    # arguments
    if method == 'slsqp':
        got = sorted([[float(v) for v in k['x0']] for k in done])
        h.true(got == sorted(samples), 'every starting point is used')
        for k in done:
            h.true(k['options'].get('maxiter') == maxiter, 'number of iterations')
    else:
        k = done[0]
        h.true(k['maxiter'] == maxiter, 'number of iterations')
        if ns:
            h.true(sorted([[float(v) for v in r] for r in h.lst(k['init'])]) == sorted(samples), 'initial population')
        else:
            h.true(isinstance(k['init'], str), 'default population')
    k = done[-1]
    h.true(len(k['bounds']) == L and all(lo <= -1 and hi >= 1 for lo, hi in k['bounds']), 'box contains every factor')
    # objective at an arbitrary point
    y = h.rvec('y', L)
    nz = 0
    for v in h.lst(y):
        nz = nz + v * v
    h.assume(nz > 0.01)
    before = len(calls.oracle)
    val = k['fun'](y, *k['args'])
    h.true(len(calls.oracle) == before + 1, 'objective evaluates the channel once')
    kind, rho, nn = calls.oracle[-1]
    h.true(kind == ('fidelity' if fid else 'coherent') and nn == n, 'objective asks for the right quantity')
    h.eq(rho, state_of(h, y, d, rank), 'objective is evaluated at the state of the vector')
    h.eq(val, sg * h.real('o%d' % before), 'sign of the objective')


def hint(rng):
    v = {}
    for p in ('x0', 'x1', 'x2', 'x3', 'y'):
        for i in range(32):
            v['%s_%d' % (p, i)] = rng.choice([-0.5, 0.25, 1, -1, 0.75])
    for i in range(4):
        v['f%d' % i] = rng.choice([-1, -0.5, 0.25, 0.5, 0, 1])
        v['s%d' % i] = rng.randint(0, 1)
    return v


HARNESSES = []
for nm, kw in [('coherent-1', dict(ns=1)), ('coherent-2', dict()), ('coherent-3', dict(ns=3)), ('coherent-pool-2', dict(pool=2)),
               ('coherent-pool-3', dict(pool=3, ns=3)), ('fidelity-2', dict(fid=True)), ('fidelity-3', dict(fid=True, ns=3)),
               ('fidelity-pool-2', dict(fid=True, pool=1)), ('coherent-rank1', dict(rank=1)), ('coherent-n2', dict(n=2, rank=1)),
               ('fidelity-n2', dict(n=2, fid=True)), ('regularized-n2', dict(n=2, rank=1, regularized=True)),
               ('diffev', dict(ns=0, method='diffev')), ('diffev-samples', dict(ns=3, method='diffev')),
               ('diffev-fidelity', dict(ns=0, method='diffev', fid=True)), ('diffev-regularized-n2', dict(ns=2, method='diffev', n=2, rank=1, regularized=True))]:
    HARNESSES.append(Harness(nm, best, sampler=hint, **kw))
HARNESSES += [Harness('coherent-4', best, ns=4, sampler=hint, max_paths=2000, tier='thorough', time_s=600),
              Harness('fidelity-pool-4', best, ns=4, pool=2, fid=True, sampler=hint, max_paths=2000, tier='thorough', time_s=600),
              Harness('coherent-n2-rank2', best, n=2, rank=2, sampler=hint, tier='thorough', time_s=900), Harness('coherent-n2-rank4', best, n=2, rank=4, sampler=hint, tier='thorough', time_s=600),
              Harness('coherent-n3', best, n=3, rank=1, sampler=hint, tier='thorough', time_s=600)]
