"""C21: the normal form of a stabilizer code is in standard form and generates the same group."""
import itertools
from symx.run import Harness
from checks.codelib import *

from checks.chanlib import NP_STUB, SPARSE_STUB
MERGE = [NAME]
BOUNDS = 'every set of n-k independent commuting generators for (n,k) = (1,0), (2,1), (2,0), (3,2), (3,1), (3,0), (4,3), (4,2), (4,1) quick; (5,3), (4,0), (5,1) thorough'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness', 'paths that differ only in a bit are merged into one symbolic value (if-conversion of the real source, regenerated on every run)', 'generators are independent and commute']
STUBS = [NP_STUB]
EXPLANATION = 'the elimination is executed symbolically with all bits at once; span, independence and the shape of the standard form are decided over all of them'
LEVEL = 'model_checking'


def standard(nf, r, n, k, p):
    m = n - k
    cs = []
    for i in range(m):
        for j in range(m):
            if i < r and j < r:
                cs.append(nf[i][p[j]] == (1 if i == j else 0))
        if i >= r:
            cs += [nf[i][j] == 0 for j in range(n)]
            cs += [nf[i][n + p[j]] == (1 if i == j else 0) for j in range(r, m)]
    return allof(cs)


def check(h, n, k, part=None):
    g, rows = generators(h, n, k, part=part)
    code = code_class(h)(g, n, k)
    nf = h.lst(code.normal_form)
    r = int(code.rank)
    h.true(len(nf) == n - k and all(len(x) == 2 * n for x in nf), 'the normal form has n-k rows of 2n bits')
    h.true(0 <= r <= n - k, 'rank between zero and n-k')
    h.true(allof([anyof([x == 0, x == 1]) for row in nf for x in row]), 'entries of the normal form are bits')
    h.true(independent(nf), 'the rows of the normal form are independent')
    h.true(anyof([standard(nf, r, n, k, p) for p in itertools.permutations(range(n))]),
           'the normal form is [I A1 A2|B C1 C2; 0 0 0|D I E] up to the order of qubits')
    h.eq(code.stab_bin_rep, g, 'the stored generators are those given')
    perms = list(itertools.permutations(range(n)))
    same = allof([in_span(row, rows) for row in nf])
    h.true_any([lambda: same] + [lambda p=p: allof([in_span(permuted(row, p), rows) for row in nf]) for p in perms[1:]],
               'the normal form generates the stabilizer group up to the order of qubits')
    keep = keeps_order(rows, n, r)
    h.true(anyof([neg(keep), same]), 'every row of the normal form is in the stabilizer group (codes that need no reordering of qubits)')
    if n == 2:
        h.true(same, 'every row of the normal form is in the stabilizer group')


HARNESSES = [Harness('n%d-k%d' % (n, k), check, n=n, k=k, tier=t, sampler=sampler(n, k), samples=6, max_paths=20000, time_s=s,
                     bounds='all %d bits of %d generators on %d qubits symbolic' % (2 * n * (n - k), n - k, n))
             for n, k, t, s in [(1, 0, 'quick', 100), (2, 1, 'quick', 100), (2, 0, 'quick', 100), (3, 2, 'quick', 200),
                                (3, 1, 'quick', 400), (4, 3, 'quick', 200), (4, 2, 'quick', 400), (3, 0, 'quick', 400),
                                (5, 3, 'thorough', 3000), (4, 0, 'thorough', 9000), (5, 1, 'thorough', 9000)]]
HARNESSES += in_parts(4, 1, 4, lambda sfx, part, smp: Harness('n4-k1' + sfx, check, n=4, k=1, part=part, sampler=smp, samples=1, max_paths=20000, time_s=600,
                                                               bounds='generators on 4 qubits whose first begins with the bits %s, all other bits' % (part,)))
HARNESSES.sort(key=lambda h: 'g0000000' not in h.name)      # the longest first
