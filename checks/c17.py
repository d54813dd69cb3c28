"""C17: Lipschitz sampler: keeps a draw exactly when it can still beat the best value seen."""
from symx.run import Harness
from checks.optlib import *

BOUNDS = 'two to four draws, one to three (four in the thorough tier) requested samples, states of dimension 1 (real or complex entry) and diagonal states of dimension 2; every drawn vector and every objective value'
ASSUMPTIONS = COMMON_ASSUME
STUBS = [NP_STUB, 'parameterization given by the user: drawn vectors and their states are arbitrary', 'objective: arbitrary real per evaluation']
EXPLANATION = 'run against the definition: a draw is kept when max of the values so far <= min_i (value_i + sum |rho - rho_i|)'


def absv(h, z):
    return abs(z)


def sampler(h, tries=2, want=3, d=1, cpl=False, api=False, fid=False):
    P0 = h.mod('chan.param').ParameterizationABC
    draws, states = [], []
    for t in range(tries + 3):
        v = [h.real('v%d_%d' % (t, i)) for i in range(d)]
        draws.append(h.arr(v, 'f'))
        if cpl:
            states.append([[v[0] + 1j * h.real('w%d' % t)]])
        else:
            states.append([[v[i] if i == j else 0.0 for j in range(d)] for i in range(d)])
    cnt = [0]
    seen = []

    class P(P0):
        @staticmethod
        def random_vectors(nsize, rank, *a, **k):
            cnt[0] += 1
            return draws[cnt[0] - 1]

        @staticmethod
        def rho_from_vec(vec, nsize, rank=None):
            return h.arr(states[idx(vec)], 'c' if cpl else 'f')

        @staticmethod
        def numb_variables(nsize, rank):
            return d

        @staticmethod
        def bounds(nsize, rank):
            return [(-1, 1)] * d

        @staticmethod
        def vec_from_rho(rho, nsize, rank):
            raise NotImplementedError

    def idx(vec):
        for i, v in enumerate(draws):
            if v is vec or h.same(v, vec):
                return i
        raise AssertionError('vector that was never drawn')
    vals = [h.real('f%d' % t) for t in range(tries + 3)]

    def f(vec, nsize, rank, param, chan, n):
        i = idx(vec)
        seen.append(i)
        h.true(nsize == d and rank == 1 and param is P and chan == 'chan' and n == 2, 'arguments of the objective')
        return vals[i]
    L = h.mod('_optimize').initial_guesses_lipschitz
    out = L(f, d, 1, P, 'chan', 2, numb_samples=want, numb_tries=tries)
    vecs, evals, ok = out
    # reference
    keep = [0]
    used = 1
    best = -vals[0]
    while used < tries + 1 and len(keep) < want:
        s = states[used]
        good = True
        for k in keep:
            b = -vals[k]
            for i in range(d):
                b = b + absv(h, s[i][i] - states[k][i][i])
            if not bool(best <= b):
                good = False
                break
        if good:
            keep.append(used)
            best = -vals[used] if bool(-vals[used] > best) else best
        used += 1
    got = [idx(v) for v in vecs]
    h.true(got == keep, 'kept draws')
    h.true(len(evals) == len(keep), 'one value per kept draw')
    for e, k in zip(evals, keep):
        h.eq(e, -vals[k], 'value of a kept draw')
    h.true(bool(ok) == (len(keep) == want), 'success flag')
    h.true(sorted(seen) == keep, 'objective is evaluated at the kept draws only')
    h.true(cnt[0] == used, 'number of draws')


HARNESSES = [Harness('tries2', sampler, max_paths=3000), Harness('tries2-want1', sampler, want=1), Harness('tries2-want2', sampler, want=2, max_paths=3000),
             Harness('tries3-want2', sampler, tries=3, want=2, max_paths=3000),
             Harness('tries3-want4', sampler, tries=3, want=4, max_paths=5000, time_s=300), Harness('tries2-d2', sampler, d=2, max_paths=3000, time_s=300),
             Harness('tries1-complex', sampler, tries=1, want=2, cpl=True, max_paths=3000, time_s=200),
             Harness('tries2-complex', sampler, tries=2, want=3, cpl=True, max_paths=3000, time_s=600, tier='thorough'),
             Harness('tries4-want3', sampler, tries=4, want=3, max_paths=20000, time_s=1500, tier='thorough')]
for x in HARNESSES:
    x.samples = 6
