"""C05: a channel object is built exactly for trace preserving Kraus sets of the declared dimensions."""
from symx.run import Harness
from checks.chanlib import *

BOUNDS = ('1-3 Kraus operators with arbitrary complex entries, dimensions 2x2, 3x2, 2x3, 4x2; declared dimensions arbitrary in '
          '{1,2,3,4} with 1-2 particles; acceptance compared outside the band 1e-6..1e-4 around the 1e-5 threshold')
ASSUMPTIONS = COMMON_ASSUME + ['the exact threshold 1e-5 is not claimed: deviations below 1e-6 must be accepted and above 1e-4 rejected']
STUBS = [SPARSE_STUB, NP_STUB]
EXPLANATION = 'accept/reject is an explored branch; the solver shows that the path condition implies (non-)trace-preservation'


def deviations(h, ops):
    s = None
    for o in ops:
        m = h.lst(o)
        t = h.mul(h.dag(m), m)
        s = t if s is None else h.addm(s, t)
    out = []
    for i in range(len(s)):
        for j in range(len(s)):
            z = s[i][j] - (1 if i == j else 0)
            zz = z * h.conj(z)
            out.append(zz.real if hasattr(zz, 'real') else zz)
    return out


def accept(h, nk=2, din=2, dout=2, q=(1, 1), form='list', sparse=False, ortho=()):
    ri, ro = din ** q[0], dout ** q[1]
    ops = kops(h, nk, ro, ri)
    arg = list(ops) if form == 'list' else h.arr(ops, 'c')
    kw = {'orthogonal_krauss': list(ortho)} if ortho else {}
    st, c = h.attempt(h.mod('chan.channel').AnalyticQChan, arg, [q[0], q[1]], din, dout, sparse=sparse, **kw)
    dev = deviations(h, ops)
    if st == 'ok':
        for d in dev:
            h.true(d <= 1e-8, 'accepted operators are trace preserving')
        h.true(c.dim_in == din and c.dim_out == dout and list(c.numb_qubits) == [q[0], q[1]], 'dimensions recorded')
        h.true(c.input_dimension == ri and c.output_dimension == ro, 'input and output dimension')
        h.true(c.numb_krauss == nk, 'number of Kraus operators')
        h.eq(c.kraus, [h.lst(o) for o in ops], 'Kraus operators are the ones given')
        h.eq(h.dense(c.nth_kraus_operators), [h.lst(o) for o in ops], 'operators of one use')
        h.true(bool(c._is_qubit_channel()) == (ri == 2 and ro == 2), 'qubit channel recognised')
    else:
        bad = False
        for d in dev:
            b = d >= 1e-12
            bad = b if bad is False else (bad | b)
        h.true(bad, 'rejected operators are not trace preserving')


def tp_flag(h, cls='DenseKraus', nk=2, din=2, dout=2):
    K = getattr(h.mod('chan._kraus'), cls)
    ops = kops(h, nk, dout, din)
    k = K(list(ops), [1, 1], din, dout)
    t = k.is_trace_perserving()
    dev = deviations(h, ops)
    if bool(t):
        for d in dev:
            h.true(d <= 1e-8, 'reported trace preserving')
    else:
        bad = False
        for d in dev:
            b = d >= 1e-12
            bad = b if bad is False else (bad | b)
        h.true(bad, 'reported not trace preserving')


def shapes(h, cls='DenseKraus'):
    """every combination of declared dimensions against the actual shape"""
    K = getattr(h.mod('chan._kraus'), cls)
    r, c = 1 + h.choose('r', 4), 1 + h.choose('c', 4)
    din, dout = 1 + h.choose('din', 4), 1 + h.choose('dout', 4)
    qi, qo = 1 + h.choose('qi', 2), 1 + h.choose('qo', 2)
    ops = [h.arr([[0.5 if (i + j + t) % 2 else 0.25 for j in range(c)] for i in range(r)], 'c') for t in range(2)]
    st, k = h.attempt(K, list(ops), [qi, qo], din, dout)
    fits = (c == din ** qi) and (r == dout ** qo)
    h.true((st == 'ok') == fits, 'accepted exactly when the operator shapes match the declared dimensions')
    if st == 'ok':
        h.true(k.input_dim == c and k.output_dim == r and k.dim_in == din and k.dim_out == dout
               and list(k.numb_qubits) == [qi, qo] and len(k) == 2, 'metadata')


def odd_one_out(h, cls='DenseKraus', nk=3):
    """one operator of the list has another shape"""
    K = getattr(h.mod('chan._kraus'), cls)
    w = h.choose('which', nk)
    dr, dc = h.choose('dr', 2), h.choose('dc', 2)
    h.assume(dr + dc > 0)
    ops = [h.cmat('A%d' % t, 2 + (dr if t == w else 0), 2 + (dc if t == w else 0)) for t in range(nk)]
    st, k = h.attempt(K, list(ops), [1, 1], 2, 2)
    h.true(st == 'raise', 'a list with an operator of another shape is rejected')


HARNESSES = []
for sp in (False, True):
    s = 'sparse' if sp else 'dense'
    HARNESSES += [
        Harness(s + '-accept-k2', accept, sparse=sp, hints=lambda r: isometry_hint(r, 2, 2, 2), samples=3),
        Harness(s + '-accept-k1', accept, nk=1, sparse=sp, hints=lambda r: isometry_hint(r, 1, 2, 2)),
        Harness(s + '-accept-k3-3x2', accept, nk=3, dout=3, sparse=sp, form='array', hints=lambda r: isometry_hint(r, 3, 3, 2)),
        Harness(s + '-accept-k2-2x3', accept, nk=2, din=3, sparse=sp, hints=lambda r: isometry_hint(r, 2, 2, 3)),
        Harness(s + '-accept-k2-4x2', accept, nk=2, q=(1, 2), sparse=sp, hints=lambda r: isometry_hint(r, 2, 4, 2)),
        Harness(s + '-flag-k2', tp_flag, cls='SparseKraus' if sp else 'DenseKraus', hints=lambda r: isometry_hint(r, 2, 2, 2)),
        Harness(s + '-flag-k3-3x2', tp_flag, nk=3, dout=3, cls='SparseKraus' if sp else 'DenseKraus',
                hints=lambda r: isometry_hint(r, 3, 3, 2)),
        Harness(s + '-shapes', shapes, cls='SparseKraus' if sp else 'DenseKraus', max_paths=5000),
        Harness(s + '-odd-one-out', odd_one_out, cls='SparseKraus' if sp else 'DenseKraus', max_paths=200),
    ]
