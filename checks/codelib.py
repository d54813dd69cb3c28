"""Helpers of the stabilizer-code checks: binary vectors whose entries are 0/1 integers or solver bits."""
import itertools
import numpy as np

NAME = 'PyQCodes.codes'


def xor(*bs):
    r = 0
    for b in bs:
        r = r + b
    return r % 2


def allof(cs):
    r = True
    for c in cs:
        if c is False:
            return False
        if c is True or isinstance(c, (bool, np.bool_)):
            if not c:
                return False
            continue
        r = c if r is True else r & c
    return r


def anyof(cs):
    r = False
    for c in cs:
        if isinstance(c, (bool, np.bool_)):
            if c:
                return True
            continue
        r = c if r is False else r | c
    return r


def neg(c):
    return not c if isinstance(c, (bool, np.bool_)) else ~c


def iff(a, b):
    return anyof([allof([a, b]), allof([neg(a), neg(b)])])


def equal(u, v):
    return allof([a == b for a, b in zip(u, v)]) if len(u) == len(v) else False


def symp(u, v):
    n = len(u) // 2
    return xor(*([u[i] * v[n + i] for i in range(n)] + [u[n + i] * v[i] for i in range(n)]))


def combos(rows):
    """all 2^m sums of the rows: (coefficients, vector)"""
    m = len(rows)
    for c in itertools.product((0, 1), repeat=m):
        yield c, [xor(*[rows[i][j] for i in range(m) if c[i]]) if any(c) else 0 for j in range(len(rows[0]))]


def in_span(v, rows):
    return anyof([equal(v, w) for _, w in combos(rows)])


def independent(rows):
    return allof([anyof([x == 1 for x in w]) for c, w in combos(rows) if any(c)])


def commuting(rows):
    return allof([symp(rows[i], rows[j]) == 0 for i in range(len(rows)) for j in range(i)])


def generators(h, n, k, name='g', part=None):
    """n-k commuting independent generators, every bit arbitrary; nested list.  With part: those whose X parts start with these bits"""
    g = h.bits(name, n - k, 2 * n)
    rows = h.lst(g)
    for i, v in enumerate(part or ()):
        h.assume(rows[i // n][i % n] == v)
    h.assume(commuting(rows))
    h.assume(independent(rows))
    return g, rows


def permuted(row, p):
    """the row with qubit i renamed p[i]"""
    n = len(row) // 2
    out = [0] * (2 * n)
    for i in range(n):
        out[p[i]], out[n + p[i]] = row[i], row[n + i]
    return out


def keeps_order(rows, n, r):
    """condition that the group has a standard form of rank r without reordering its qubits, and at most two independent elements
    of Z type (with three the elimination may reorder although it need not)"""
    m = len(rows)
    if m - r > 2:
        return False
    cs = []
    cols = list(zip(*rows))
    for c in itertools.product((0, 1), repeat=r):       # the first r columns of the X part are independent
        if any(c):
            cs.append(anyof([xor(*[cols[j][i] for j in range(r) if c[j]]) == 1 for i in range(m)]))
    for c, w in combos(rows):                           # no other Z type element vanishes on the qubits r..m-1
        if any(c):
            cs.append(anyof([x == 1 for x in w[:n]] + [w[n + j] == 1 for j in range(r, m)]))
    return allof(cs)


def code_class(h):
    return h.mod(NAME).StabilizerCode


def sampler(n, k, name='g', extra=None):
    """random commuting independent generators"""
    def f(rng):
        rows = []
        while len(rows) < n - k:
            v = [rng.randint(0, 1) for _ in range(2 * n)]
            if rng.random() < .3:
                v[:n] = [0] * n
            if all(symp(v, w) == 0 for w in rows) and independent(rows + [v]):
                rows.append(v)
        out = {'%s_%d_%d' % (name, i, j): rows[i][j] for i in range(n - k) for j in range(2 * n)}
        if extra:
            out.update(extra(rng))
        return out
    return f


def in_parts(n, k, nbits, make):
    """the harness make(name suffix, part, sampler) for each value of the first X bits of the generators: together all generators
    (first generators of Z type, the largest class, are split once more)"""
    out = []
    parts = list(itertools.product((0, 1), repeat=nbits))
    if nbits >= n and n - k > 1:
        parts = [parts[0] + p for p in itertools.product((0, 1), repeat=min(3, n))] + parts[1:]
    for part in parts:
        def smp(rng, part=part, f=sampler(n, k)):
            while True:
                v = f(rng)
                if all(v['g_%d_%d' % (i // n, i % n)] == x for i, x in enumerate(part)):
                    return v
        out.append(make('-g' + ''.join(map(str, part)), part, smp))
    return out


def herm(row, ids):
    """the Hermitian Pauli operator of a binary row: the product of the code's X, Z and Y = XZ, times i when the number of Y is odd"""
    from symx import circuit as C
    p = C.Pauli.of_bits(row, ids)
    b0, b1 = False, False
    for q in ids:            # Y stands for XZ = -i sigma_y: i^(y mod 2) (-i)^y = +,+,-,- for y = 0,1,2,3
        y = C.band(p.gx(q), p.gz(q))
        b0, b1 = C.bxor(b0, y), C.bxor(b1, C.band(b0, y))
    p.s = b1
    return p


def mod_group(P, Q, gens, ids):
    """condition that the observable P equals Q times some product of the (commuting) observables gens, sign included"""
    from symx import circuit as C
    outs = []
    for c in itertools.product((0, 1), repeat=len(gens)):
        R = Q
        ks = []
        for g, b in zip(gens, c):
            if b:
                k, R = R.times(g)
                ks.append(C.bnot(k))
        outs.append(C.band(C.same(P, R, qubits=ids), *ks))
    return C.bor(*outs)
