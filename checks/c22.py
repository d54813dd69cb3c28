"""C22: logical operators."""
from symx.run import Harness
from checks.codelib import *

from checks.chanlib import NP_STUB, SPARSE_STUB
MERGE = [NAME]
BOUNDS = 'every set of n-k independent commuting generators for (n,k) = (2,1), (3,2), (3,1), (4,3), (4,2), (4,1), given as array, list or strings'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness', 'paths that differ only in a bit are merged into one symbolic value (if-conversion of the real source, regenerated on every run)', 'generators are independent and commute', 'logical operators are the default ones']
STUBS = [NP_STUB]
EXPLANATION = 'commutation relations decided over the symbolic rows the real code returns'


def check(h, n, k, how, part=None):
    g, rows = generators(h, n, k, part=part)
    if how == 'str':
        g = [h.pstr(r) for r in rows]
    elif how == 'list':
        g = rows
    code = code_class(h)(g, n, k)
    lx, lz = h.lst(code.logical_x), h.lst(code.logical_z)
    h.true(len(lx) == k and len(lz) == k and all(len(v) == 2 * n for v in lx + lz), 'k logical X and k logical Z of 2n bits')
    h.true(allof([anyof([b == 0, b == 1]) for v in lx + lz for b in v]), 'entries of the logical operators are bits')
    h.true(allof([symp(v, r) == 0 for v in lx + lz for r in h.lst(code.normal_form)]), 'logical operators commute with every row of the normal form')
    h.true(allof([symp(lx[i], lz[j]) == (1 if i == j else 0) for i in range(k) for j in range(k)]),
           'logical X_i anticommutes with logical Z_j exactly when i = j')
    h.true(allof([symp(u[i], u[j]) == 0 for u in (lx, lz) for i in range(k) for j in range(i)]),
           'logical operators of the same kind commute')
    r = code.logical_operators()
    h.true(allof([equal(h.lst(a)[i], b[i]) for a, b in ((r[0], lx), (r[1], lz)) for i in range(k)]),
           'logical_operators() gives the logical operators of the code')
    comm = allof([symp(v, r) == 0 for v in lx + lz for r in rows])
    h.true(anyof([neg(keeps_order(rows, n, int(code.rank))), comm]),
           'logical operators commute with every stabilizer generator (codes that need no reordering of qubits)')
    if n == 2 and how == 'array':
        h.true(comm, 'logical operators commute with every stabilizer generator')


def supplied(h, n, k, wx, wz):
    """logical operators given by the user are used as they are; refused when their length is not 2n"""
    import numpy as np
    g, rows = generators(h, n, k)
    X, Z = h.bits('lx', k, wx), h.bits('lz', k, wz)
    r, e = h.attempt(lambda: code_class(h)(g, n, k, logical_ops=(X, Z)))
    good = wx == 2 * n and wz == 2 * n
    h.true((r == 'ok') == good, 'supplied logical operators are accepted exactly when they have 2n bits')
    if r == 'ok' and good:
        h.eq(e.logical_x, X, 'the supplied logical X operators are those of the code')
        h.eq(e.logical_z, Z, 'the supplied logical Z operators are those of the code')


HARNESSES = [Harness('%s-n%d-k%d' % (how, n, k), check, n=n, k=k, how=how, tier=t, sampler=sampler(n, k), samples=6, max_paths=20000,
                     time_s=s, bounds='all %d bits of %d generators on %d qubits symbolic, given as %s' % (2 * n * (n - k), n - k, n, how))
             for n, k, how, t, s in [(2, 1, 'array', 'quick', 100), (2, 1, 'str', 'quick', 100), (3, 2, 'array', 'quick', 200),
                                     (3, 1, 'array', 'quick', 400), (3, 1, 'str', 'quick', 400), (3, 1, 'list', 'quick', 400),
                                     (4, 3, 'array', 'quick', 400), (4, 2, 'array', 'quick', 400)]]
HARNESSES += in_parts(4, 1, 4, lambda sfx, part, smp: Harness('n4-k1' + sfx, check, n=4, k=1, part=part, how='array', sampler=smp, samples=1, max_paths=20000, time_s=600,
                                                               bounds='generators on 4 qubits whose first begins with the bits %s, all other bits' % (part,)))
HARNESSES += [Harness('supplied-n%d-k%d-%d-%d' % a, supplied, n=a[0], k=a[1], wx=a[2], wz=a[3], sampler=sampler(a[0], a[1]), samples=3, max_paths=20000, time_s=200,
                      bounds='all bits of generators and supplied logical operators') for a in [(2, 1, 4, 4), (2, 1, 4, 2), (2, 1, 2, 4), (3, 1, 6, 6), (3, 2, 6, 6)]]
HARNESSES.sort(key=lambda h: 'g0000000' not in h.name)      # the longest first
