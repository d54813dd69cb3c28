"""environment of the optimisation routines: numerical optimisers answer with arbitrary results"""
import sys
from checks.chanlib import *

OPT_STUB = ('scipy.optimize.minimize / differential_evolution: answer with an arbitrary point, value and convergence flag per call and record '
            'their arguments (the numerical optimisers are not modelled); pathos ProcessingPool.map: map in order')
ORACLE_STUB = ('coherent_information / fidelity_two_states of the channel object: arbitrary real per call, recording the state and n '
               '(their values are decided by C11 and C12)')


class Result(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def replace_func(h, orig, stub):
    """replace a third party function in every module under test (and at its home)"""
    from symx import harness as H
    for name in H.MODS:
        m = sys.modules[name]
        for k, v in list(m.__dict__.items()):
            if v is orig:
                h.patch(m, k, stub)
    for mod in list(sys.modules.values()):
        nm = getattr(mod, '__name__', '') or ''
        if (nm in ('scipy.optimize', 'pathos.multiprocessing', 'pathos.pools')):
            for k, v in list(mod.__dict__.items()):
                if v is orig:
                    h.patch(mod, k, stub)


class Calls:
    def __init__(self):
        self.minimize = []
        self.diffev = []
        self.oracle = []
        self.pools = []


def opt_env(h, results, probe=None):
    """results: list of (fun, x, success), consumed in call order"""
    import scipy.optimize as so
    import pathos.multiprocessing as pm
    calls = Calls()
    res = list(results)

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None):
        i = len(calls.minimize)
        calls.minimize.append(dict(fun=fun, x0=x0, args=args if isinstance(args, tuple) else (args,), method=method,
                                   bounds=bounds, options=options or {}))
        f, x, s = res[i]
        return Result(fun=f, x=x, success=s, nit=1, message='', status=0)

    def diffev(func, bounds, args=(), strategy='best1bin', maxiter=1000, popsize=15, tol=0.01, mutation=(0.5, 1),
               recombination=0.7, seed=None, callback=None, disp=False, polish=True, init='latinhypercube', **kw):
        calls.diffev.append(dict(fun=func, args=args if isinstance(args, tuple) else (args,), bounds=bounds, init=init,
                                 maxiter=maxiter, popsize=popsize))
        f, x, s = res[len(calls.diffev) - 1]
        return Result(fun=f, x=x, success=s, nit=1, message='')

    class Pool:
        def __init__(self, *a, **k):
            calls.pools.append((a, k))

        def map(self, f, *its):
            return [f(*t) for t in zip(*its)]

        def imap(self, f, *its):
            return iter(self.map(f, *its))

        uimap = imap

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        join = terminate = clear = restart = close
    replace_func(h, so.minimize, minimize)
    replace_func(h, so.differential_evolution, diffev)
    replace_func(h, pm.ProcessingPool, Pool)
    return calls


def oracle(h, chan, calls, values):
    """the two figures of merit answer with the given values in call order"""
    vals = list(values)

    def mk(kind):
        def f(rho, n, *a, **k):
            calls.oracle.append((kind, rho, n))
            return vals[len(calls.oracle) - 1]
        return f
    h.patch(chan, 'coherent_information', mk('coherent'))
    h.patch(chan, 'fidelity_two_states', mk('fidelity'))


def state_of(h, vec, d, rank):
    """A A^dag / Tr, A the d x rank matrix of the vector"""
    vs = h.lst(vec)
    A = [[vs[2 * (i * rank + j)] + 1j * vs[2 * (i * rank + j) + 1] for j in range(rank)] for i in range(d)]
    P = h.mul(A, h.dag(A))
    t = h.tr(P)
    t = t.real if hasattr(t, 'real') and not callable(t.real) else t
    return [[x / t for x in r] for r in P]


def dephase(d=2):
    import numpy as np
    if d == 2:
        return [np.sqrt(.75) * np.eye(2), np.sqrt(.25) * np.diag([1., -1.])]
    return [np.eye(d)]
