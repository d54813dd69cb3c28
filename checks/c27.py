"""C27: concatenation of codes."""
from symx.run import Harness
import itertools
from checks.codelib import *

from checks.chanlib import NP_STUB, SPARSE_STUB
MERGE = [NAME]
BOUNDS = 'every pair of codes with first (2,1) or (3,2) and second (2,1), (3,1) or (3,2) quick; first (3,1), (4,2), (4,3) thorough; l not dividing n'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness', 'paths that differ only in a bit are merged into one symbolic value (if-conversion of the real source, regenerated on every run)', 'both generator sets are independent and commute']
STUBS = [NP_STUB, 'StabilizerCode constructor of the result: recorded (its own behaviour is C19, C21, C22)']
EXPLANATION = 'group generated by the returned rows compared with the group of the definition in both directions, over all bits of both codes'


def check(h, n, k, m, l):
    C_ = code_class(h)
    g1, r1 = generators(h, n, k, 'a')
    g2, r2 = generators(h, m, l, 'b')
    c1, c2 = C_(g1, n, k), C_(g2, m, l)
    lx, lz = h.lst(c2.logical_x), h.lst(c2.logical_z)
    if n % l:
        r, e = h.attempt(C_.concatenate_codes, c1, c2)
        h.true(r == 'raise' and isinstance(e, ValueError), 'concatenation with l not dividing n is refused')
        return
    blocks = n // l
    N = blocks * m
    rec = {}
    if h.symbolic:
        # the code the result is built with is recorded; its own construction is the subject of the other checks
        real = C_.__init__

        def init(self, stabilizer_group, n, k, *a, **kw):
            rec['args'] = (stabilizer_group, n, k)
        h.patch(C_, '__init__', init)
        try:
            C_.concatenate_codes(c1, c2)
        finally:
            C_.__init__ = real
        G, nn, kk = rec['args']
        G = h.lst(h.arr([list(x) for x in h.lst(G)], 'i'))
    else:
        c = C_.concatenate_codes(c1, c2)
        G, nn, kk = h.lst(c.stab_bin_rep), c.n, c.k
    h.true(nn == N and kk == k, 'the concatenated code has parameters (nm/l, k)')
    h.true(len(G) == N - k and all(len(r) == 2 * N for r in G), 'as many generators as the parameters ask for')

    def place(row, b):
        v = [0] * (2 * N)
        for i in range(m):
            v[b * m + i] = row[i]
            v[N + b * m + i] = row[m + i]
        return v
    def wanted(p):
        want = [place(r, b) for b in range(blocks) for r in r2]
        for r in r1:
            acc = [0] * (2 * N)
            for j in range(n):
                b, q = j // l, j % l
                X_, Z_ = place(permuted(lx[q], p), b), place(permuted(lz[q], p), b)
                acc = [xor(a, r[j] * x, r[n + j] * z) for a, x, z in zip(acc, X_, Z_)]
            want.append(acc)
        return want
    h.true(allof([anyof([x == 0, x == 1]) for row in G for x in row]), 'entries are bits')
    h.true(independent(G) if len(G) <= 6 else True, 'the generators are independent')
    nf = h.lst(c2.normal_form)
    perms = list(itertools.permutations(range(m)))

    # the logical operators are in the qubit order of the normal form, see C22
    def frame(p):
        return allof([in_span(permuted(row, p), r2) for row in nf])

    def rows(p):
        return allof([frame(p)] + [equal(u, v) for u, v in zip(G, wanted(p))])

    def group(p):
        return allof([frame(p)] + [in_span(w, G) for w in wanted(p)])
    h.true_any([lambda p=p: rows(p) for p in perms] + ([lambda p=p: group(p) for p in perms] if len(G) <= 6 else []),
               'the group is generated by the generators of the second code in every block and the encoded generators of the first code')


def both(a, b):
    def f(rng):
        out = sampler(*a, name='a')(rng)
        out.update(sampler(*b, name='b')(rng))
        return out
    return f


HARNESSES = [Harness('first-%d-%d-second-%d-%d' % (n, k, m, l), check, n=n, k=k, m=m, l=l, tier=t, sampler=both((n, k), (m, l)), samples=6, max_paths=20000, time_s=s,
                     bounds='all bits of both codes symbolic')
             for n, k, m, l, t, s in [(2, 1, 2, 1, 'quick', 300), (3, 1, 2, 1, 'quick', 600), (2, 1, 3, 1, 'quick', 600), (2, 1, 3, 2, 'quick', 300), (4, 3, 3, 2, 'thorough', 1500),
                                      (3, 2, 3, 2, 'quick', 300), (4, 2, 3, 2, 'thorough', 3000), (3, 1, 3, 1, 'thorough', 6000)]]
