"""C24: measuring a stabilizer element measures that Pauli operator and nothing else."""
from symx.run import Harness
from symx import circuit as C
from checks.codelib import *

from checks.chanlib import NP_STUB, SPARSE_STUB
MERGE = [NAME]
BOUNDS = 'every Pauli element on 2-5 qubits (7 thorough) as array or string, ancilla supplied or allocated; every element of every code with n=3, k=1'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness', 'paths that differ only in a bit are merged into one symbolic value (if-conversion of the real source, regenerated on every run)']
STUBS = [NP_STUB, 'projectq engine: records the gates, measurement outcomes are arbitrary bits; gate actions on Pauli operators are those of the Clifford group']
EXPLANATION = 'the recorded gates are pulled back on symbolic Pauli operators: Z of the ancilla must pull back to the measured operator, every commuting observable to itself'


def check(h, n, k, how, anc, own):
    if own:
        g, rows = generators(h, n, k)
        code = code_class(h)(g, n, k)
        st = rows[0]
        arr_ = g[0]
    else:
        # any Pauli element of n qubits, measured with some fixed code
        code = code_class(h)(h.arr([[0] * i + [0] * (n - i) + [0] * i + [1] + [0] * (n - i - 1) for i in range(n - k)], 'i'), n, k)
        arr_ = h.bits('s', 2 * n)
        st = h.lst(arr_)
    eng, rec = C.engine(h)
    reg = list(eng.allocate_qureg(n + (1 if anc else 0)))
    ids = [q.id for q in reg[:n]]
    arg = arr_ if how == 'array' else h.pstr(st)
    start = len(rec.log)
    res = code.single_syndrome_measurement(eng, reg, arg)
    seg = rec.log[start:]
    if not anc:
        h.true(seg[0].kind == 'alloc', 'an ancilla is allocated')
        a = seg[0].targets[0]
        seg = seg[1:]
    else:
        a = reg[-1].id
    ms = [i for i, e in enumerate(seg) if e.kind == 'M']
    h.true(len(ms) == 1 and seg[ms[0]].targets == [a], 'exactly the ancilla is measured, once')
    h.true(all(q in ids + [a] for e in seg for q in list(e.targets) + list(e.controls)), 'only the register and the ancilla are used')
    u = seg[:ms[0]]
    after = [e for e in seg[ms[0] + 1:] if e.kind != 'dealloc']
    # outcome: Z of the ancilla pulls back to the Pauli operator with sign plus (the ancilla starts in |0>)
    P = C.pull(u, C.Pauli(z={a: True}), h)
    S = herm(st, ids)
    h.true(C.wrapb(C.bnot(P.gx(a))), 'the outcome does not depend on a phase of the ancilla')
    h.true(C.wrapb(C.same(P, S, qubits=ids)), 'outcome zero means the plus one eigenspace of the measured Pauli operator')
    # every observable commuting with the operator keeps its value
    q = h.bits('q', 2 * n)
    Q = C.Pauli.of_bits(h.lst(q), ids)
    h.assume(C.wrapb(C.commute(Q, S)))
    R = C.pull(after, Q, h) if after else Q
    R = C.pull(u, R, h)
    h.true(C.wrapb(C.band(C.bnot(R.gx(a)), C.same(R, Q, qubits=ids))), 'the measurement leaves the state of the code untouched')
    h.true(isinstance(res, int) and int(res) == int(rec.outcomes[0][1]), 'the returned value is the outcome of the ancilla')


HARNESSES = [Harness('%s-%s-%s-n%d-k%d' % ('code' if own else 'any', how, 'given' if anc else 'new', n, k), check, n=n, k=k, how=how, anc=anc,
                     own=own, tier=t, sampler=sampler(n, k) if own else None, samples=4, max_paths=20000, time_s=s,
                     bounds='every Pauli element on %d qubits (%s), ancilla %s' % (n, how, 'supplied' if anc else 'allocated'))
             for n, k, how, anc, own, t, s in [(2, 1, 'array', 0, 0, 'quick', 100), (3, 1, 'array', 1, 0, 'quick', 100), (3, 1, 'str', 0, 0, 'quick', 100),
                                               (3, 1, 'str', 1, 0, 'quick', 100), (3, 1, 'array', 0, 1, 'quick', 300), (4, 1, 'array', 0, 0, 'quick', 300),
                                               (5, 1, 'array', 1, 0, 'quick', 300), (7, 1, 'array', 0, 0, 'thorough', 3000)]]
