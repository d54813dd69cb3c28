"""C26: the decoding circuit moves the encoded state to the ancillas; logical and stabilizer circuits act as their Pauli operator."""
from symx.run import Harness
from symx import circuit as C
from checks.codelib import *

from checks.chanlib import NP_STUB, SPARSE_STUB
MERGE = [NAME]
BOUNDS = 'decoding: every code with (n,k) = (2,1), (3,2), (3,1), (4,3) quick, (4,2) thorough, ancillas supplied and allocated; Pauli circuits: every element on 2-5 qubits; logical circuits X, Y, Z of every logical qubit for n=3'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness', 'paths that differ only in a bit are merged into one symbolic value (if-conversion of the real source, regenerated on every run)', 'generators are independent and commute', 'the logical Y operator is taken up to a phase', 'supplied logical operators: Z of Z type, X with an even number of Y = XZ (otherwise it is no observable)']
STUBS = [NP_STUB, 'projectq engine: records the gates, measurement outcomes are arbitrary bits; gate actions on Pauli operators are those of the Clifford group']
EXPLANATION = 'ancilla observables pulled back through the decoding circuit equal the logical operators modulo the stabilizer group, with sign; Pauli circuits change the sign of exactly the anticommuting observables'


def decode(h, n, k, add, drop=False, ops=False):
    g, rows = generators(h, n, k)
    if ops:             # supplied by the user: any logical operators with Z operators of Z type, as the copying step requires, and X operators with an even number of Y
        X, Z = h.bits('lx', k, 2 * n), h.arr([[0] * n + r for r in h.lst(h.bits('lz', k, n))], 'i')
        lx, lz = h.lst(X), h.lst(Z)
        h.assume(allof([symp(v, r) == 0 for v in lx + lz for r in rows]))
        h.assume(allof([symp(lx[i], lz[j]) == (1 if i == j else 0) for i in range(k) for j in range(k)]))
        h.assume(allof([symp(lx[i], lx[j]) == 0 for i in range(k) for j in range(i)]))
        h.assume(allof([xor(0, *[a * b for a, b in zip(v[:n], v[n:])]) == 0 for v in lx]))     # the operator of the code, Y = XZ, is Hermitian
        code = code_class(h)(g, n, k, logical_ops=(X, Z))
    else:
        code = code_class(h)(g, n, k)
        lz, lx = h.lst(code.logical_z), h.lst(code.logical_x)
    eng, rec = C.engine(h, on_measure=lambda q, r: 0)
    reg = list(eng.allocate_qureg(n if add else n + k))
    ids = [q.id for q in reg[:n]]
    start = len(rec.log)
    keep = list(reg)
    out = code.decoding_circuit(eng, reg, add_ancilla_bits=bool(add), **({'deallocate_nqubits': True} if drop else {}))
    seg = rec.log[start:]
    if add:
        na = sum(1 for e in seg if e.kind == 'alloc' for _ in e.targets)
        h.true(na == k, 'k ancillas are allocated')
        seg = [e for e in seg if e.kind != 'alloc']
    anc = [q.id for q in (out if drop else out[n:])] if add else [q.id for q in keep[n:]]
    h.true(len(anc) == k, 'the decoded state is held by k qubits')
    if drop:
        h.true([q.id for q in out] == anc and not set(anc) & set(ids), 'only the decoded qubits are returned')
        end = next((i for i, e in enumerate(seg) if e.kind in ('M', 'dealloc')), len(seg))
        rest, seg = seg[end:], seg[:end]
        h.true(all(e.kind in ('M', 'dealloc') and not set(e.targets) & set(anc) for e in rest)
               and sorted(q for e in rest if e.kind == 'M' for q in e.targets) == sorted(ids), 'the code block is measured after decoding, the decoded qubits are not touched')
    elif add:
        h.true([q.id for q in out[:n]] == ids, 'the register is returned first')
    else:
        h.true([q.id for q in out[:n + k]] == ids + anc and [q.id for q in out[-k:]] == anc, 'the register is returned with the decoded qubits last')
    h.true(all(e.kind not in ('M', 'dealloc', 'wf') for e in seg), 'the decoding circuit is unitary')
    allq = ids + anc
    S = [herm(r, ids) for r in (rows if ops else h.lst(code.normal_form))]      # plus one on every encoded state
    for i in range(k):
        P = C.pull(seg, C.Pauli(z={anc[i]: True}), h)
        P = fresh(P, anc)
        h.true(C.wrapb(mod_group(P, herm(lz[i], ids), S, allq)), 'Z of ancilla i after decoding is logical Z_i of the encoded state')
        P = C.pull(seg, C.Pauli(x={anc[i]: True}), h)
        # the ancillas start in |0>: X of ancilla i must come from an operator acting as logical X_i on the register
        h.true(C.wrapb(acts_as(P, herm(lx[i], ids), S, ids, anc)),
               'X of ancilla i after decoding is logical X_i of the encoded state')


def supplied(n, k):
    base = sampler(n, k)

    def f(rng):
        import itertools
        while True:
            v = base(rng)
            rows = [[v['g_%d_%d' % (i, j)] for j in range(2 * n)] for i in range(n - k)]
            Z, X = [], []
            for i in range(k):
                zs = [[0] * n + list(z) for z in itertools.product((0, 1), repeat=n) if any(z)]
                zs = [z for z in zs if all(symp(z, r) == 0 for r in rows) and all(symp(z, x) == 0 for x in X)]
                rng.shuffle(zs)
                for z in zs:
                    xs = [list(x) for x in itertools.product((0, 1), repeat=2 * n)]
                    xs = [x for x in xs if sum(a * b for a, b in zip(x[:n], x[n:])) % 2 == 0 and symp(x, z) == 1 and all(symp(x, r) == 0 for r in rows + Z + X)]
                    if xs:
                        Z.append(z)
                        X.append(rng.choice(xs))
                        break
            if len(Z) == k:
                v.update({'lx_%d_%d' % (i, j): X[i][j] for i in range(k) for j in range(2 * n)})
                v.update({'lz_%d_%d' % (i, j): Z[i][n + j] for i in range(k) for j in range(n)})
                return v
    return f


def fresh(P, anc):
    """restriction to ancillas in |0>: factors Z of an ancilla are one"""
    R = P.copy()
    for a in anc:
        R.z[a] = C.band(R.gz(a), R.gx(a))
    return R


def acts_as(P, Q, S, ids, anc):
    return C.band(*([C.bnot(P.gx(a)) for a in anc] + [mod_group(fresh(P, anc), Q, S, ids)]))


def pauli(h, n, how):
    """applying a Pauli element: every observable changes sign exactly when it anticommutes"""
    code = code_class(h)(h.arr([[0] * n + [1] + [0] * (n - 1)], 'i'), n, n - 1)
    s = h.bits('s', 2 * n)
    st = h.lst(s)
    eng, rec = C.engine(h)
    reg = list(eng.allocate_qureg(n))
    ids = [q.id for q in reg]
    start = len(rec.log)
    code.apply_stabilizer_circuit(eng, reg, s if how == 'array' else st if how == 'list' else h.pstr(st))
    seg = rec.log[start:]
    same_action(h, seg, ids, C.Pauli.of_bits(st, ids), n)


def same_action(h, seg, ids, P, n):
    h.true(all(e.kind not in ('M', 'alloc', 'dealloc', 'wf') for e in seg), 'the circuit is unitary')
    Q = C.Pauli.of_bits(h.lst(h.bits('q', 2 * n)), ids)
    R = C.pull(seg, Q, h)
    W = Q.copy()
    W.s = C.bxor(W.s, C.bnot(C.commute(P, Q)))
    h.true(C.wrapb(C.same(R, W)), 'the circuit acts as the Pauli operator')


def logical(h, n, k, kind):
    g, rows = generators(h, n, k)
    code = code_class(h)(g, n, k)
    lz, lx = h.lst(code.logical_z), h.lst(code.logical_x)
    for i in range(k):
        eng, rec = C.engine(h)
        reg = list(eng.allocate_qureg(n))
        ids = [q.id for q in reg]
        start = len(rec.log)
        code.logical_circuit(eng, reg, '%s%d' % (kind, i))
        seg = rec.log[start:]
        row = lx[i] if kind == 'X' else lz[i] if kind == 'Z' else [xor(a, b) for a, b in zip(lx[i], lz[i])]
        same_action(h, seg, ids, C.Pauli.of_bits(row, ids), n)


HARNESSES = [Harness('decode-%s-n%d-k%d' % ('add' if add else 'given', n, k), decode, n=n, k=k, add=add, tier=t, sampler=sampler(n, k), samples=6,
                     max_paths=20000, time_s=s, bounds='all %d bits of %d generators on %d qubits symbolic, every encoded state' % (2 * n * (n - k), n - k, n))
             for n, k, add, t, s in [(2, 1, 0, 'quick', 100), (3, 2, 1, 'quick', 200), (3, 1, 0, 'quick', 400), (3, 1, 1, 'quick', 400),
                                     (4, 3, 0, 'quick', 400), (4, 2, 0, 'thorough', 3000)]]
HARNESSES += [Harness('decode-%s-n%d-k%d-discard' % ('add' if add else 'given', n, k), decode, n=n, k=k, add=add, drop=True, sampler=sampler(n, k), samples=6, max_paths=20000,
                      time_s=400, bounds='all generator bits on %d qubits symbolic, every encoded state, the code block is discarded' % n)
              for n, k, add in [(2, 1, 0), (3, 2, 0), (3, 1, 1)]]
HARNESSES += [Harness('decode-%s-n%d-k%d-supplied' % ('add' if add else 'given', n, k), decode, n=n, k=k, add=add, ops=True, tier=t, sampler=supplied(n, k), samples=6, max_paths=20000,
                      time_s=900, bounds='all generator bits on %d qubits and all bits of supplied logical operators (Z operators of Z type) symbolic' % n)
              for n, k, add, t in [(2, 1, 0, 'quick'), (3, 2, 0, 'quick'), (3, 1, 1, 'quick')]]
HARNESSES += [Harness('apply-%s-n%d' % (how, n), pauli, n=n, how=how, samples=4, bounds='every Pauli element on %d qubits' % n)
              for n, how in [(2, 'list'), (3, 'array'), (3, 'str'), (5, 'array')]]
HARNESSES += [Harness('logical-%s-n%d-k%d' % (kd, n, k), logical, n=n, k=k, kind=kd, sampler=sampler(n, k), max_paths=20000, time_s=400,
                      bounds='all generator bits on %d qubits symbolic' % n)
              for n, k, kd in [(3, 1, 'X'), (3, 1, 'Z'), (3, 1, 'Y'), (3, 2, 'X'), (3, 2, 'Y'), (3, 2, 'Z')]]
