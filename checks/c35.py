"""C35: using a stabilizer code changes neither the code nor what it was given."""
from symx.run import Harness
from symx import circuit as C
from checks.codelib import *
from checks.chanlib import NP_STUB

MERGE = [NAME]
BOUNDS = ('every sequence of two (three thorough) calls chosen from eleven methods, on every code with (n,k) = (2,1) and (3,1) (as array or strings), '
          'followed by every query compared with a newly built code')
ASSUMPTIONS = ['generators are independent and commute', 'sizes (n, k) are concrete per harness',
               'paths that differ only in a bit are merged into one symbolic value (if-conversion of the real source, regenerated on every run)']
STUBS = [NP_STUB, 'projectq engine: records the gates, measurement outcomes are arbitrary bits; gate actions on Pauli operators are those of the Clifford group']
EXPLANATION = 'the history is explored by the solver-driven explorer; data and circuits afterwards are compared with those of a fresh code for symbolic generators and observables'


def circ(h, n, f, k=0):
    """gates applied by f(engine, register)"""
    eng, rec = C.engine(h)
    reg = list(eng.allocate_qureg(n + k))
    start = len(rec.log)
    f(eng, reg)
    return [g for g in rec.log[start:]], [q.id for q in reg]


def calls(h, code, n, k, s, other):
    """methods of the code, as thunks"""
    pstr = h.pstr(h.lst(s))
    return [('logical_operators', lambda: code.logical_operators()),
            ('encoding_circuit', lambda: circ(h, n, lambda e, r: code.encoding_circuit(e, r, [1] * k))),
            ('decoding_circuit', lambda: circ(h, n, lambda e, r: code.decoding_circuit(e, r), k)),
            ('decoding_circuit, new ancillas', lambda: circ(h, n, lambda e, r: code.decoding_circuit(e, r, add_ancilla_bits=True))),
            ('syndrome', lambda: circ(h, n, lambda e, r: code.single_syndrome_measurement(e, r, s))),
            ('syndrome of a string', lambda: circ(h, n, lambda e, r: code.single_syndrome_measurement(e, r, pstr))),
            ('apply', lambda: circ(h, n, lambda e, r: code.apply_stabilizer_circuit(e, r, s))),
            ('logical_circuit', lambda: [circ(h, n, lambda e, r: code.logical_circuit(e, r, o + '0')) for o in 'XYZ']),
            ('iteration', lambda: [x for x in code]),
            ('concatenate, second', lambda: h.attempt(code_class(h).concatenate_codes, other, code)),
            ('concatenate, first', lambda: h.attempt(code_class(h).concatenate_codes, code, other))]


def same_gates(h, a, b, n, label):
    """two gate lists act alike on an arbitrary observable"""
    (ga, ia), (gb, ib) = a, b
    bits = h.lst(h.bits('o', 2 * n))
    P = C.pull(ga, C.Pauli.of_bits(bits, ia), h)
    Q = C.pull(gb, C.Pauli.of_bits(bits, ib), h)
    R = C.Pauli(s=Q.s)
    for x, y in zip(ia, ib):
        R.x[x], R.z[x] = Q.gx(y), Q.gz(y)
    h.true(C.wrapb(C.same(P, R)), label)


def check(h, n, k, how, length, only):
    g, rows = generators(h, n, k)
    keep = [list(r) for r in rows]
    s = h.bits('s', 2 * n)
    srow = list(h.lst(s))
    Cl = code_class(h)
    given = g.copy() if how == 'array' else [h.pstr(r) for r in rows] if how == 'str' else [list(r) for r in rows]
    code = Cl(given, n, k)
    other = Cl(h.arr([[1, 1, 0, 0]], 'i'), 2, 1)
    obits = [list(r) for r in h.lst(other.stab_bin_rep)]
    ops = calls(h, code, n, k, s, other)
    idx = [i for i in range(len(ops)) if only is None or i in only]
    for t in range(length):
        ops[idx[h.choose('op%d' % t, len(idx))]][1]()
    new = Cl(h.arr(keep, 'i'), n, k)
    h.eq(code.stab_bin_rep, keep, 'the generators are those given')
    if how == 'str':
        h.true(allof([a == h.pstr(b) for a, b in zip(given, keep)]), 'the strings given are unchanged')
    else:
        h.eq(given, keep, 'the generators given are unchanged')
    h.eq(s, srow, 'the element given is unchanged')
    h.eq(other.stab_bin_rep, obits, 'another code taking part is unchanged')
    for a in ('normal_form', 'logical_x', 'logical_z'):
        h.eq(getattr(code, a), getattr(new, a), '%s as from a new code' % a)
    h.true(code.rank == new.rank and code.n == n and code.k == k, 'parameters as from a new code')
    h.true(allof([a == b for a, b in zip(code.pauli_stab, new.pauli_stab)]) if len(code.pauli_stab) == len(new.pauli_stab) else False, 'pauli_stab as from a new code')
    for a, b in zip(code.logical_operators(), new.logical_operators()):
        h.eq(a, b, 'logical operators as from a new code')
    enc = lambda c: circ(h, n, lambda e, r: c.encoding_circuit(e, r, [0] * k))
    same_gates(h, enc(code), enc(new), n, 'encoding circuit as from a new code')
    if k:
        dec = lambda c: circ(h, n, lambda e, r: c.decoding_circuit(e, r), k)
        same_gates(h, dec(code), dec(new), n + k, 'decoding circuit as from a new code')


HARNESSES = [Harness('history%d-%s-n%d-k%d' % (l, how, n, k), check, n=n, k=k, how=how, length=l, only=o, tier=t, sampler=sampler(n, k), samples=6,
                     max_paths=60000, time_s=s, bounds='all sequences of %d calls, all generator bits' % l)
             for n, k, how, l, o, t, s in [(2, 1, 'array', 1, None, 'quick', 200), (2, 1, 'str', 1, None, 'quick', 200), (2, 1, 'list', 2, (0, 1, 4, 6, 9), 'quick', 300),
                                           (3, 1, 'array', 1, (0, 1, 2, 4), 'quick', 300), (2, 1, 'array', 2, None, 'thorough', 3000), (3, 1, 'array', 2, (0, 1, 2, 4, 6, 7), 'thorough', 4000),
                                           (2, 1, 'array', 3, (0, 1, 2, 4, 9), 'thorough', 3000)]]
