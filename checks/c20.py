"""C20: Pauli strings, binary vectors and matrices describe the same operators."""
from symx.run import Harness
from checks.codelib import *

from checks.chanlib import NP_STUB, SPARSE_STUB
MERGE = [NAME]
BOUNDS = 'strings and vectors up to 5 qubits quick (8 thorough), matrices up to 3 qubits, inner products of all pairs up to 6 qubits against the symplectic form and up to 2 (3 thorough) qubits against the matrices'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness', 'paths that differ only in a bit are merged into one symbolic value (if-conversion of the real source, regenerated on every run)']
STUBS = [NP_STUB, SPARSE_STUB]
EXPLANATION = 'every bit symbolic; the returned string, vector or matrix is compared letter by letter / entry by entry with the definition'


def strings(h, n, m):
    """binary -> string -> binary"""
    C_ = code_class(h)
    g = h.bits('g', m, 2 * n)
    rows = h.lst(g)
    strs = [C_.binary_rep_to_pauli_str(g[i]) for i in range(m)]
    h.true(all(len(s) == n for s in strs), 'one letter per qubit')
    h.true(allof([s == h.pstr(r) for s, r in zip(strs, rows)]), 'letters are I, X, Z and Y by the two bits of the qubit')
    h.true(allof([C_.binary_rep_to_pauli_str(r) == h.pstr(r) for r in rows]), 'a list of bits gives the same string as an array')
    back = C_.pauli_str_to_binary_representation(strs)
    h.eq(back, g, 'reading the string back gives the bits')


def letters(h, n):
    """string -> binary -> string"""
    C_ = code_class(h)
    row = h.lst(h.bits('s', 2 * n))
    s = h.pstr(row)
    b = C_.pauli_str_to_binary_representation([s, s])
    h.eq(b, h.arr([row, row], 'i'), 'bits of the string')
    t = C_.binary_rep_to_pauli_str(b[1])
    h.true(t == s, 'writing the bits gives the string')


def local(x, z):
    """X^x Z^z"""
    return [[(1 - x), x * (1 - 2 * z)], [x, (1 - x) * (1 - 2 * z)]]


def matrices(h, n, sparse):
    C_ = code_class(h)
    g = h.bits('g', 2, 2 * n)
    rows = h.lst(g)
    ms = C_.binary_rep_to_pauli_mat(g, sparse=bool(sparse))
    h.true(len(ms) == 2, 'one matrix per row')
    for m, r in zip(ms, rows):
        want = [[1]]
        for i in range(n):
            want = h.kron2(want, local(r[i], r[n + i]))
        h.eq(h.lst(m), want, 'the matrix is the tensor product of X^x Z^z, first qubit leftmost')


def inner(h, n):
    """inner product one exactly when the matrices anticommute"""
    C_ = code_class(h)
    g = h.bits('g', 2, 2 * n)
    ip = C_.inner_prod(g[0], g[1])
    rows = h.lst(g)
    ms = []
    for r in rows:
        m = [[1]]
        for i in range(n):
            m = h.kron2(m, local(r[i], r[n + i]))
        ms.append(m)
    h.true(anyof([ip == 0, ip == 1]), 'the inner product is a bit')
    ab, ba = h.mul(ms[0], ms[1]), h.mul(ms[1], ms[0])
    h.eq(ab, h.smul(1 - 2 * ip, ba), 'two elements anticommute exactly when their inner product is one')


def symplectic(h, n):
    C_ = code_class(h)
    g = h.bits('g', 2, 2 * n)
    rows = h.lst(g)
    h.true(C_.inner_prod(g[0], g[1]) == symp(rows[0], rows[1]), 'symplectic inner product')


def bad_letter(h):
    C_ = code_class(h)
    row = h.lst(h.bits('s', 4))
    s = h.pstr(row)
    for i, word in enumerate((s + 'A', 'b' + s, s[:1] + '?' + s[1:])):
        r, e = h.attempt(C_.pauli_str_to_binary_representation, [word])
        h.true(r == 'raise' and isinstance(e, ValueError), 'other letters are refused')


def single(h):
    C_ = code_class(h)
    b = h.lst(h.bits('s', 2))
    m = C_.index_to_qubit_pauli(b[0], b[1])
    h.eq(h.lst(m), local(b[0], b[1]), 'single qubit matrix')
    m = C_.index_to_qubit_pauli(b[0], b[1], sparse=True)
    h.eq(h.lst(m), local(b[0], b[1]), 'sparse single qubit matrix')


HARNESSES = [Harness('strings-n%d-m%d' % (n, m), strings, n=n, m=m, tier=t, bounds='all bits symbolic')
             for n, m, t in [(1, 1, 'quick'), (3, 2, 'quick'), (5, 4, 'quick'), (8, 5, 'thorough')]]
HARNESSES += [Harness('letters-n%d' % n, letters, n=n, bounds='every Pauli string of %d letters' % n) for n in (1, 3, 5)]
HARNESSES += [Harness('matrices-%s-n%d' % ('sparse' if sp else 'dense', n), matrices, n=n, sparse=sp, tier=t, max_paths=5000, time_s=300, bounds='all bits symbolic')
              for n, sp, t in [(1, 0, 'quick'), (2, 0, 'quick'), (3, 0, 'quick'), (1, 1, 'quick'), (2, 1, 'quick')]]
HARNESSES += [Harness('inner-n%d' % n, inner, n=n, tier=t, time_s=600, bounds='all pairs of Pauli elements on %d qubits' % n) for n, t in [(1, 'quick'), (2, 'quick'), (3, 'thorough')]]
HARNESSES += [Harness('symplectic-n%d' % n, symplectic, n=n, bounds='all pairs of Pauli elements on %d qubits' % n) for n in (3, 6)]
HARNESSES += [Harness('bad-letter', bad_letter, bounds='every two letter context'), Harness('single', single, bounds='all bits')]
