"""C25: the encoding circuit prepares the encoded basis state."""
from symx.run import Harness
from symx import circuit as C
from checks.codelib import *

from checks.chanlib import NP_STUB, SPARSE_STUB
MERGE = [NAME]
BOUNDS = 'every code with (n,k) = (2,1), (2,0), (3,2), (3,1), (3,0), (4,3) quick, (4,2) thorough, every input bit string'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness', 'paths that differ only in a bit are merged into one symbolic value (if-conversion of the real source, regenerated on every run)', 'generators are independent and commute']
STUBS = [NP_STUB, 'projectq engine: records the gates, measurement outcomes are arbitrary bits; gate actions on Pauli operators are those of the Clifford group']
EXPLANATION = 'stabilizers and logical operators are pulled back through the recorded circuit to Z-type operators with the right sign on the input'


def check(h, n, k):
    g, rows = generators(h, n, k)
    code = code_class(h)(g, n, k)
    eng, rec = C.engine(h)
    reg = list(eng.allocate_qureg(n))
    ids = [q.id for q in reg]
    delta = h.lst(h.bits('d', k)) if k else []
    start = len(rec.log)
    code.encoding_circuit(eng, reg, delta)
    u = rec.log[start:]
    h.true(all(e.kind not in ('M', 'alloc', 'dealloc', 'wf') for e in u), 'the encoding circuit is unitary')
    h.true(all(q in ids for e in u for q in list(e.targets) + list(e.controls)), 'only the register is used')
    nf = h.lst(code.normal_form)
    lz, lx = h.lst(code.logical_z), h.lst(code.logical_x)
    eq = []
    for i, row in enumerate(nf):
        P = C.pull(u, herm(row, ids), h)
        eq.append(C.wrapb(C.band(C.bnot(P.s), *[C.bnot(P.gx(q)) for q in ids])))
    h.true(allof(eq), 'the encoded state is in the plus one eigenspace of every generator of the normal form')
    eq = []
    for row in rows:
        P = C.pull(u, herm(row, ids), h)
        eq.append(C.wrapb(C.band(*[C.bnot(P.gx(q)) for q in ids])))
    given = allof(eq)
    h.true(anyof([neg(keeps_order(rows, n, int(code.rank))), given]),
           'the encoded state is an eigenstate of every given generator (codes that need no reordering of qubits)')
    eq = []
    for i in range(k):
        P = C.pull(u, herm(lz[i], ids), h)
        eq.append(C.wrapb(C.band(C.bnot(C.bxor(P.s, C.zb(delta[i]))), *[C.bnot(P.gx(q)) for q in ids])))
    h.true(allof(eq), 'logical Z_i has the value (-1)^(bit i) on the encoded state')
    if k:
        # logical X flips the encoded bit: pulled back it flips exactly the qubits that distinguish the two inputs, up to stabilizers
        eng2, rec2 = C.engine(h)
        reg2 = list(eng2.allocate_qureg(n))
        ids2 = [q.id for q in reg2]
        s2 = len(rec2.log)
        code.encoding_circuit(eng2, reg2, [0] * k)
        u2 = rec2.log[s2:]
        for i in range(k):
            P = C.pull(u2, herm(lx[i], ids2), h)
            Zs = [C.pull(u2, herm(z, ids2), h) for z in lz]
            h.true(C.wrapb(C.band(*[C.bnot(C.commute(P, z)) if i == j else C.commute(P, z) for j, z in enumerate(Zs)])),
                   'logical X_i flips encoded bit i only')
    if (n, k) == (2, 1):
        h.true(given, 'the encoded state is an eigenstate of every given generator')


HARNESSES = [Harness('n%d-k%d' % (n, k), check, n=n, k=k, tier=t, sampler=sampler(n, k), samples=6, max_paths=20000, time_s=s,
                     bounds='all %d bits of %d generators on %d qubits and the %d input bits symbolic' % (2 * n * (n - k), n - k, n, k))
             for n, k, t, s in [(2, 1, 'quick', 100), (2, 0, 'quick', 100), (3, 2, 'quick', 200), (3, 1, 'quick', 400),
                                (4, 3, 'quick', 200), (4, 2, 'thorough', 3000), (3, 0, 'quick', 400)]]
