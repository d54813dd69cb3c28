"""C19: a stabilizer code is accepted exactly when its generators commute and match n and k."""
from symx.run import Harness
from checks.codelib import *

from checks.chanlib import NP_STUB, SPARSE_STUB
MERGE = [NAME]
BOUNDS = 'up to 3 qubits quick, 5 thorough: every bit of every generator (commuting and non commuting), given as array, nested list and strings; six mismatched shapes in two forms; user-supplied logical operators with n=3'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness', 'paths that differ only in a bit are merged into one symbolic value (if-conversion of the real source, regenerated on every run)', 'generators that commute but are dependent are outside the property (nothing is documented about them)']
STUBS = [NP_STUB]
EXPLANATION = 'accept/reject is an explored branch; on each path the solver shows that the path condition implies (non-)commutation of all pairs, and that the stored data spell the given generators'


def give(h, g, rows, how):
    return g if how == 'array' else rows if how == 'list' else [h.pstr(r) for r in rows]


def accept(h, n, k, how):
    g = h.bits('g', n - k, 2 * n)
    rows = h.lst(g)
    ok = commuting(rows)
    # products of commuting generators that multiply to the identity are outside the property
    h.assume(anyof([neg(ok), independent(rows)]))
    r, code = h.attempt(code_class(h), give(h, g, rows, how), n, k)
    if r == 'ok':
        h.true(ok, 'a code is only built from commuting generators')
        h.true(code.n == n and code.k == k, 'n and k are those given')
        h.true(len(code.pauli_stab) == n - k, 'one Pauli string per generator')
        h.true(allof([code.pauli_stab[i] == h.pstr(rows[i]) for i in range(n - k)]), 'pauli_stab spells the generators')
        h.true(allof([equal(h.lst(code.stab_bin_rep)[i], rows[i]) for i in range(n - k)]), 'stab_bin_rep holds the generators')
    else:
        h.true(isinstance(code, AssertionError), 'generators are refused with an AssertionError')
        h.true(neg(ok), 'commuting generators are accepted')


def shape(h, n, k, m, w, how):
    """m generators on w qubits do not describe a code with parameters (n, k)"""
    g = h.bits('g', m, 2 * w)
    rows = h.lst(g)
    r, e = h.attempt(code_class(h), give(h, g, rows, how), n, k)
    h.true(r == 'raise' and isinstance(e, AssertionError), 'generators that do not match n and k are refused')


def user_logicals(h, n, k):
    """user supplied logical operators are used as given"""
    g, rows = generators(h, n, k)
    lx, lz = h.bits('lx', k, 2 * n), h.bits('lz', k, 2 * n)
    code = code_class(h)(g, n, k, [lx, lz])
    h.eq(code.logical_x, lx, 'the logical X operators are those given')
    h.eq(code.logical_z, lz, 'the logical Z operators are those given')


def sh_any(n, k):
    def f(rng):
        if rng.random() < .6:
            return sampler(n, k)(rng)
        return {}
    return f


HARNESSES = [Harness('accept-%s-n%d-k%d' % (how, n, k), accept, n=n, k=k, how=how, tier=t, max_paths=20000, time_s=400, sampler=sh_any(n, k), samples=6,
                     bounds='all %d bits symbolic, given as %s' % (2 * n * (n - k), how))
             for n, k, how, t in [(2, 1, 'array', 'quick'), (2, 0, 'str', 'quick'), (3, 1, 'array', 'quick'), (3, 1, 'list', 'quick'), (3, 1, 'str', 'quick'),
                                  (4, 2, 'array', 'quick'), (3, 0, 'array', 'quick'), (3, 0, 'str', 'thorough'), (4, 1, 'array', 'thorough'), (5, 3, 'str', 'thorough')]]
HARNESSES += [Harness('shape-%s-%dx%d-for-%d-%d' % (how, m, w, n, k), shape, n=n, k=k, m=m, w=w, how=how, samples=1, bounds='all bits symbolic')
              for n, k, m, w in [(3, 1, 2, 2), (3, 1, 1, 3), (3, 1, 3, 3), (2, 1, 1, 3), (3, 2, 2, 3), (4, 2, 2, 3)] for how in ('array', 'str')]
HARNESSES += [Harness('user-logicals', user_logicals, n=3, k=1, max_paths=5000, time_s=200, sampler=sampler(3, 1), bounds='n=3, k=1, all bits symbolic')]
