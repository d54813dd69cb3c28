"""C28: the normalizer is N(S) - S."""
from symx.run import Harness
from checks.codelib import *

from checks.chanlib import NP_STUB, SPARSE_STUB
MERGE = [NAME]
BOUNDS = 'every code with (n,k) = (2,1), (2,0), (3,2) quick, (3,1) thorough'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness', 'paths that differ only in a bit are merged into one symbolic value (if-conversion of the real source, regenerated on every run)', 'generators are independent and commute']
STUBS = [NP_STUB]
EXPLANATION = 'membership of each of the 4^n Pauli elements in the returned list compared with the condition commutes-and-not-in-the-group over the symbolic generators'


def check(h, n, k, how):
    g, rows = generators(h, n, k)
    code = code_class(h)(g, n, k)
    got = h.lst(code.normalizer()) if how == 'normalizer' else code.undetectable_errors()
    if how != 'normalizer':
        got = h.lst(code_class(h).pauli_str_to_binary_representation(got)) if len(got) else []
    seen = {}
    for v in got:
        t = tuple(int(b) for b in v)
        seen[t] = seen.get(t, 0) + 1
    h.true(all(c == 1 for c in seen.values()), 'no element is listed twice')
    for p in itertools.product((0, 1), repeat=2 * n):
        inn = allof([symp(p, r) == 0 for r in rows] + [neg(in_span(p, rows))])
        h.true(inn if p in seen else neg(inn), 'exactly the elements that commute with the stabilizer and are not in it')


HARNESSES = [Harness('%s-n%d-k%d' % (how, n, k), check, n=n, k=k, how=how, tier=t, sampler=sampler(n, k), samples=4, max_paths=20000, time_s=s,
                     bounds='all %d bits of %d generators on %d qubits' % (2 * n * (n - k), n - k, n))
             for n, k, how, t, s in [(2, 1, 'normalizer', 'quick', 200), (2, 1, 'undetectable', 'quick', 200), (2, 0, 'normalizer', 'quick', 200), (3, 2, 'normalizer', 'quick', 600),
                                     (3, 1, 'normalizer', 'thorough', 3000), (3, 1, 'undetectable', 'thorough', 3000)]]
