"""C32: the effective channel of a stabilizer code: encode, suffer the errors, apply the stabilizers that detect them."""
import itertools
from symx.run import Harness
from checks.codelib import symp, allof, NAME
from checks.chanlib import *

FCM = 'PyQCodes.find_codes'
STUBS = [SPARSE_STUB, NP_STUB, ACCEPT_STUB, 'scipy.sparse: algebraic model of the matrices', 'encoder matrix: arbitrary (decided by C23)',
         'AnalyticQChan.optimize_coherent / optimize_fidelity: record their arguments (decided by C16 - C18)']
BITS = {'I': (0, 0), 'X': (1, 0), 'Y': (1, 1), 'Z': (0, 1)}
M = {'I': [[1, 0], [0, 1]], 'X': [[0, 1], [1, 0]], 'Z': [[1, 0], [0, -1]], 'Y': [[0, -1], [1, 0]]}     # Y stands for XZ

BOUNDS = 'five codes with 2-4 qubits and seven error sets (bit flip, phase flip, depolarizing, two-qubit errors), both objectives, dense and sparse; every entry of the encoder matrix and every state symbolic'
EXPLANATION = 'operators of the channel object handed to the optimiser compared with (detecting generator) x (error) x encoder for symbolic encoder entries'
ASSUMPTIONS = ['entries are reals and complex numbers (rounding outside the claim)', 'codes, errors and sizes are concrete per harness where stated']

def bits(s):
    return [BITS[c][0] for c in s] + [BITS[c][1] for c in s]


def mat(h, s):
    m = [[1]]
    for c in s:
        m = h.kron2(m, M[c])
    return m


def setup(h, gens, n, k, sparse):
    """patch the environment; returns V and the record of the optimisation call"""
    accept_all(h)
    code, fc, ch = h.mod(NAME), h.mod(FCM), h.mod('chan.channel')
    V = h.cmat('V', 2 ** n, 2 ** k)
    if h.symbolic:
        from symx import spmodel
        spmodel.install(h, code, fc)

    def enc(self, sparse=False):
        if not sparse:
            return V.copy()
        if h.symbolic:
            return spmodel.Csr(V)
        from scipy.sparse import csr_matrix
        return csr_matrix(V)
    h.patch(code.StabilizerCode, 'encode_krauss_operators', enc)
    rec = []

    def opt(which):
        def f(self, *a, **kw):
            rec.append((which, self, a, kw))
            return {'answer': len(rec)}
        return f
    h.patch(ch.AnalyticQChan, 'optimize_coherent', opt('coherent'))
    h.patch(ch.AnalyticQChan, 'optimize_fidelity', opt('fidelity'))
    return V, rec


def errors(h, errs, k):
    """errs: list of (coefficient, Pauli string on k qubits)"""
    import numpy as np
    return [np.array([[c * x for x in r] for r in mat(h, s)], dtype=complex) for c, s in errs]


def run(h, gens, n, k, errs, objective, sparse, opts):
    V, rec = setup(h, gens, n, k, sparse)
    out = h.mod(FCM).effective_channel_with_stabilizers(list(gens), (n, k), errors(h, errs, k), objective, bool(sparse), **({'options': opts} if opts is not None else {}))
    h.true(len(rec) == 1 and rec[0][0] == objective, 'the requested objective is optimised, once')
    which, chan, a, kw = rec[0]
    h.true(out == {'answer': 1}, 'the result of the optimisation is returned')
    h.true(kw.get('n', a[0] if a else None) == 1, 'the effective channel is used once')
    if which == 'coherent':
        h.true(kw.get('rank', a[1] if len(a) > 1 else 0) >= 2 ** k, 'the coherent information is optimised over all states of the k qubits')
    for key, val in (opts or {}).items():
        h.true(key in kw and (kw[key] is val or kw[key] == val), 'options are passed on')
    h.true(list(chan.numb_qubits) == [k, n] and chan.dim_in == 2 and chan.dim_out == 2, 'the effective channel maps k qubits to n qubits')
    # operators
    rows = [bits(g) for g in gens]
    want = []
    for combo in itertools.product(errs, repeat=n // k):
        c, s = 1, ''
        for cc, ss in combo:
            c, s = c * cc, s + ss
        E = mat(h, s)
        det = [g for g, r in zip(gens, rows) if symp(bits(s), r) == 1]
        cand = [h.mul(mat(h, g), E) for g in det] if det else [E]
        want.append([h.smul(c, h.mul(x, h.lst(V))) for x in cand])
    got = [h.lst(x) for x in h.lst(chan.kraus)] if False else h.lst(chan.nth_kraus_operators)
    h.true(len(got) == len(want), 'one operator per error of the code block')
    left = list(range(len(got)))
    for cand in want:
        hit = None
        for i in left:
            hit = next(((i, w) for w in cand if h.same(h.arr(got[i], 'c'), h.arr(w, 'c'))), None)
            if hit:
                break
        h.true(hit is not None, 'every error is followed by a stabilizer that detects it, on encoded states')
        if hit:
            left.remove(hit[0])
            h.eq(got[hit[0]], hit[1], 'operator of the effective channel')
    rho = h.cmat('rho', 2 ** k)
    ops = [got[i] for i in range(len(got))]
    h.eq(chan.channel(rho, 1), ksum(h, ops, rho, 1), 'the effective channel is the sum over these operators')


def refuse(h, k, dim, objective):
    import numpy as np
    V, rec = setup(h, ['ZZI', 'IZZ'], 3, 1, False)
    r, e = h.attempt(h.mod(FCM).effective_channel_with_stabilizers, ['ZZI', 'IZZ'], (3, k), [np.eye(dim)], objective)
    good = dim == 2 ** k and objective in ('coherent', 'fidelity')
    h.true((r == 'ok') == good and (good or isinstance(e, TypeError)), 'refused exactly when the objective or the dimension of the errors is wrong')


def fidelity_objective(h, gens, n, k, errs):
    """the objective of the fidelity option can be evaluated"""
    V, rec = setup(h, gens, n, k, False)
    h.mod(FCM).effective_channel_with_stabilizers(list(gens), (n, k), errors(h, errs, k), 'fidelity')
    chan = rec[0][1]
    import numpy as np
    chan.fidelity_two_states(h.arr([[1, 0], [0, 0]], 'c'), 1)
    h.true(True, 'the fidelity of the effective channel can be evaluated')


BF = [(.8, 'I'), (.6, 'X')]
DEP = [(.7, 'I'), (.5, 'X'), (.4, 'Y'), (.3, 'Z')]
PF = [(.6, 'I'), (.8, 'Z')]
TWO = [(.8, 'II'), (.36, 'XI'), (.48, 'ZY')]
CASES = [('bit3-flip', ('ZZI', 'IZZ'), 3, 1, BF, 'coherent', 0, None, 'quick'),
         ('bit3-flip', ('ZZI', 'IZZ'), 3, 1, BF, 'fidelity', 1, {'maxiter': 9, 'lipschitz': 4, 'use_pool': 1, 'param': 'cholesky'}, 'quick'),
         ('phase3-phase', ('XXI', 'IXX'), 3, 1, PF, 'coherent', 1, {'maxiter': 3}, 'quick'),
         ('pair2-depol', ('XX',), 2, 1, DEP, 'coherent', 0, {'lipschitz': 7}, 'quick'),
         ('pair2-depol', ('YZ',), 2, 1, DEP, 'fidelity', 1, None, 'quick'),
         ('four2-two', ('XXXX', 'ZZZZ'), 4, 2, TWO, 'coherent', 0, None, 'quick'),
         ('bit3-depol', ('ZZI', 'IZZ'), 3, 1, DEP, 'coherent', 0, None, 'quick'),
         ('six3', ('XXIIII', 'IIZZII', 'IIIIYY'), 6, 3, [(.8, 'III'), (.6, 'XIZ')], 'coherent', 0, None, 'quick'),
         ('code4-phase', ('XXXX', 'ZZII', 'IIZZ'), 4, 1, PF, 'fidelity', 0, None, 'quick')]
HARNESSES = [Harness('%s-%s-%s' % (nm, ob, 'sparse' if sp else 'dense'), run, gens=g, n=n, k=k, errs=e, objective=ob, sparse=sp, opts=o, tier=t, time_s=600, samples=2,
                     bounds='this code and these errors; every encoder matrix and every state') for nm, g, n, k, e, ob, sp, o, t in CASES]
HARNESSES += [Harness('refuse-k%d-dim%d-%s' % (k, d, o), refuse, k=k, dim=d, objective=o, samples=1, bounds='this configuration')
              for k, d, o in [(1, 2, 'coherent'), (1, 4, 'coherent'), (1, 2, 'entropy'), (1, 2, None), (1, 2, 'fidelity'), (3, 6, 'coherent'), (2, 8, 'coherent')]]
HARNESSES += [Harness('objective-fidelity', fidelity_objective, gens=('ZZI', 'IZZ'), n=3, k=1, errs=BF, samples=1, bounds='one code')]
