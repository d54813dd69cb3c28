"""C33: the semidefinite program for optimal decoders: its objective is the average entanglement fidelity of decoder and encoded channel,
its constraints say that the decoder is a channel."""
import numpy as np
from symx.run import Harness
from symx.core import Unsupported
from checks.chanlib import *

AFM, NAME = 'PyQCodes.avgfid.avg_fidelity', 'PyQCodes.codes'
PIC_STUB = ('picos / cvxopt: matrix variable, scalar product, partial trace and constraint bookkeeping as documented; the interior point solver is not '
            'run, the variable is given the Choi matrix of an arbitrary operator')
STUBS = [PIC_STUB, SPARSE_STUB, NP_STUB, ACCEPT_STUB, 'scipy.sparse: algebraic model of the matrices', 'encoder matrix of the code: arbitrary (decided by C23)']

BOUNDS = 'programs with 1-3 operators, 1-2 qubits (3 thorough), qubit and qutrit spaces, encoder and decoder side, dense and sparse; every channel entry, encoder entry and candidate decoder symbolic'
EXPLANATION = 'objective and constraints of the program evaluated at the Choi matrix of an arbitrary operator and compared with the average entanglement fidelity and with trace preservation'
ASSUMPTIONS = ['entries are reals and complex numbers (rounding outside the claim)', 'codes, errors and sizes are concrete per harness where stated']

def sdp_env(h, xval):
    """xval(size): value given to the optimisation variable"""
    m = h.mod(AFM)
    rec = dict(solved=0, cons=[], opts={}, obj=None, X=None)
    if h.symbolic:
        from symx import spmodel, arr
        spmodel.install(h, m, h.mod(NAME))

        class Expr:
            def __init__(self, v):
                self.v = v
                self.size = tuple(v.shape)
            value = property(lambda s: s.v)

            def __or__(self, o):
                a, b = h.lst(self.v), h.lst(const(o).v)
                if (len(a), len(a[0])) != (len(b), len(b[0])):
                    raise ValueError('incompatible sizes')
                t = 0
                for x, y in zip(a, b):
                    for p, q in zip(x, y):
                        t = t + h.conj(q) * p
                return Expr(h.arr([[t]], 'c'))

            def __ror__(self, o):
                return const(o) | self

            def __rshift__(self, o):
                return ('psd', self.v - const(o, self.size).v)

            def __lshift__(self, o):
                return ('psd', const(o, self.size).v - self.v)

            def __eq__(self, o):
                return ('eq', self.v - const(o, self.size).v)
            __hash__ = None

            def __mul__(self, o):
                return Expr(self.v * o)
            __rmul__ = __mul__

            def __add__(self, o):
                return Expr(self.v + const(o, self.size).v)
            __radd__ = __add__

            def partial_trace(self, k=1, dim=None):
                return ptrace(self, k, dim)

            def __getattr__(self, n):
                raise Unsupported('picos expression .%s' % n)

        def const(o, size=None):
            if isinstance(o, Expr):
                return o
            if isinstance(o, spmodel.Csr):
                return Expr(o.d)
            if isinstance(o, str):
                if o == 'I':
                    return Expr(arr.eye_(size[0]))
                raise Unsupported('picos constant %r' % o)
            if isinstance(o, (int, float)):
                if o == 0:
                    return Expr(arr.zeros_(size))
                raise Unsupported('picos scalar constant')
            return Expr(arr.to_obj(o))

        def ptrace(X, k=1, dim=None):
            ds = [d if isinstance(d, (int, np.integer)) else d[0] for d in dim]
            k = k if isinstance(k, (int, np.integer)) else k[0]
            if len(ds) != 2 or any(not isinstance(d, (int, np.integer)) and d[0] != d[1] for d in dim):
                raise Unsupported('partial trace of this shape')
            v = h.lst(X.v)
            a, b = int(ds[0]), int(ds[1])
            if a * b != len(v):
                raise ValueError('dimensions do not match')
            if k == 1:
                out = [[sum((v[i * b + q][j * b + q] for q in range(b)), 0) for j in range(a)] for i in range(a)]
            else:
                out = [[sum((v[q * b + i][q * b + j] for q in range(a)), 0) for j in range(b)] for i in range(b)]
            return Expr(h.arr(out, 'c'))

        class Problem:
            def __init__(self, **o):
                rec['opts'].update(o)

            def add_variable(self, name, size=1, vtype='continuous', lower=None, upper=None):
                if vtype != 'hermitian':
                    raise Unsupported('variable of type %s' % vtype)
                rec['X'] = Expr(xval(tuple(size)))
                return rec['X']

            def add_constraint(self, c, *a, **k):
                rec['cons'].append(c)

            def set_objective(self, typ, e):
                rec['obj'] = (typ, h.lst(e.v)[0][0])

            def set_option(self, k, v):
                rec['opts'][k] = v

            def set_options(self, **o):
                rec['opts'].update(o)

            update_options = set_options

            def solve(self, **o):
                rec['solved'] += 1
                rec['opts'].update(o)
                return {'status': 'optimal', 'time': 1.5}

            def obj_value(self):
                return rec['obj'][1]

        class P_:
            pass
        pic, cvx = P_(), P_()
        pic.Problem, pic.partial_trace = Problem, ptrace
        pic.tools = P_()
        pic.tools.partial_trace = ptrace

        def spmatrix(x, I, J, size=None, tc=None):
            d = [[0] * int(size[1]) for _ in range(int(size[0]))]
            for v, i, j in zip(list(x), list(I), list(J)):
                d[int(i)][int(j)] = d[int(i)][int(j)] + v
            return spmodel.Csr(h.arr(d, 'c'))
        cvx.spmatrix = spmatrix
        cvx.matrix = lambda x, *a, **k: h.arr(h.lst(x), 'c')
        h.patch(m, 'pic', pic)
        h.patch(m, 'cvx', cvx)
        return rec, (lambda: rec['X'].v)
    import picos
    import cvxopt

    class Problem(picos.Problem):
        def add_variable(self, name, size=1, *a, **k):
            X = picos.Problem.add_variable(self, name, size, *a, **k)
            rec['X'] = X
            return X

        def set_option(self, k, v):
            rec['opts'][k] = v
            picos.Problem.set_option(self, k, v)

        def solve(self, **o):
            rec['solved'] += 1
            X = rec['X']
            X.value = cvxopt.matrix(np.array(xval(tuple(X.size)), dtype=complex))
            from picos.constraints import LMIConstraint
            num = lambda e: np.array(cvxopt.matrix(e.eval()))
            for c in self.constraints:
                rec['cons'].append(('psd', num(c.psd)) if isinstance(c, LMIConstraint) else
                                   ('eq' if c.relation == c.EQ else 'other', num(c.lhs) - num(c.rhs)))
            rec['obj'] = (self.objective[0], complex(self.obj_value()))
            return {'status': 'optimal', 'time': 1.5}

    class Pic:
        def __getattr__(self, n):
            return Problem if n == 'Problem' else getattr(picos, n)
    h.patch(m, 'pic', Pic())
    return rec, (lambda: np.array(cvxopt.matrix(rec['X'].value)))


def decide(h, rec, xnow, result, R, E, din, dout, dim_code):
    """R: the operator of the candidate (dout x din); E: operators of the fixed part"""
    h.true(rec['solved'] == 1, 'the program is solved once')
    h.true(rec['obj'][0] == 'max', 'the objective is maximised')
    want = 0
    for e in E:
        t = h.tr(h.mul(h.lst(R), h.lst(e)))
        want = want + t * h.conj(t)
    want = h.smul(1 / dim_code ** 2, [[want]])
    h.eq([[rec['obj'][1]]], want, 'the objective at a decoder is its average entanglement fidelity with the encoded channel')
    h.eq([[result['optimal_val']]], want, 'the reported value is the objective at the solution')
    h.true(result['status'] == 'optimal' and result['time'] == 1.5, 'status and time are those of the solver')
    h.true(result['optimal_recov'] is rec['X'], 'the reported decoder is the variable of the program')
    X = h.arr(choi_of(h, [R], din, dout), 'c')
    RR = h.mul(h.dag(h.lst(R)), h.lst(R))
    tp = [[RR[j][i] - (1 if i == j else 0) for j in range(din)] for i in range(din)]
    kinds = sorted(c[0] for c in rec['cons'])
    h.true(kinds == ['eq', 'psd'], 'one positivity constraint and one equality')
    for kind, v in rec['cons']:
        if kind == 'psd':
            h.eq(v, X, 'the Choi matrix of the decoder is positive semidefinite')
        else:
            h.eq(v, tp, 'the decoder preserves the trace')


def options_ok(h, rec, opts):
    for k in ('maxit', 'feastol', 'abstol', 'reltol'):
        if opts and k in opts:
            h.true(rec['opts'].get(k) == opts[k], 'solver options are those given')
        else:
            h.true(rec['opts'].get(k) == dict(maxit=50, feastol=1e-3, abstol=1e-3, reltol=1e-3)[k], 'solver options default to the documented values')


def core_(h, ne, n, k, dims, encoder, sparse, opts):
    """the program for given operators"""
    din, dout = dims[0] ** n, dims[1] ** k
    R = h.cmat('R', dout, din)
    rec, xnow = sdp_env(h, lambda size: h.arr(choi_of(h, [R], din, dout), 'c'))
    E = [h.cmat('E%d' % i, din, dout) for i in range(ne)]
    given = E
    if sparse:
        if h.symbolic:
            from symx.spmodel import Csr
            given = [Csr(e) for e in E]
        else:
            from scipy.sparse import csr_matrix
            given = [csr_matrix(e) for e in E]
    result = h.mod(AFM)._optimize_average_entang_fid(given, (n, k), dims[0], dims[1], encoder=encoder, verbose=False, options=opts)
    decide(h, rec, xnow, result, R, E, din, dout, din if encoder else dout)
    options_ok(h, rec, opts)


def decoder(h, n, k, nk, q, opts):
    """optimize_decoder: encoder isometry and a channel used n/q times"""
    accept_all(h)
    din, dout = 2 ** n, 2 ** k
    R = h.cmat('R', dout, din)
    rec, xnow = sdp_env(h, lambda size: h.arr(choi_of(h, [R], din, dout), 'c'))
    V = h.cmat('V', din, dout)
    ks = kops(h, nk, 2 ** q, 2 ** q, name='A')
    result = h.mod(AFM).optimize_decoder(V, ks, [q, q], 2, 2, **({'options': opts} if opts else {}))
    E = [h.mul(K, h.lst(V)) for K in h.kron_n([h.lst(a) for a in ks], n // q)]
    decide(h, rec, xnow, result, R, E, din, dout, dout)
    options_ok(h, rec, opts)


def stabilizers(h, gens, n, k, nk, sparse, opts):
    accept_all(h)
    din, dout = 2 ** n, 2 ** k
    R = h.cmat('R', dout, din)
    rec, xnow = sdp_env(h, lambda size: h.arr(choi_of(h, [R], din, dout), 'c'))
    V = h.cmat('V', din, dout)

    def enc(self, sparse=False):
        if not sparse:
            return V.copy()
        if h.symbolic:
            from symx.spmodel import Csr
            return Csr(V)
        from scipy.sparse import csr_matrix
        return csr_matrix(V)
    h.patch(h.mod(NAME).StabilizerCode, 'encode_krauss_operators', enc)
    ks = kops(h, nk, 2 ** k, 2 ** k, name='A')
    result = h.mod(AFM).optimize_decoder_stabilizers(list(gens), (n, k), ks, bool(sparse), **({'options': opts} if opts else {}))
    E = [h.mul(K, h.lst(V)) for K in h.kron_n([h.lst(a) for a in ks], n // k)]
    decide(h, rec, xnow, result, R, E, din, dout, dout)
    options_ok(h, rec, opts)


HARNESSES = [Harness('program-%s-%s-ops%d-n%d-k%d-dims%d%d' % ('encoder' if en else 'decoder', 'sparse' if sp else 'dense', ne, n, k, *dm), core_, ne=ne, n=n, k=k, dims=dm,
                     encoder=bool(en), sparse=bool(sp), opts=o, tier=t, time_s=800, samples=3, bounds='every operator of the channel and every candidate decoder; %d operators' % ne)
             for ne, n, k, dm, en, sp, o, t in [(1, 1, 1, (2, 2), 0, 0, None, 'quick'), (2, 2, 1, (2, 2), 0, 0, {'maxit': 7, 'abstol': .5}, 'quick'),
                                                (2, 2, 1, (2, 2), 0, 1, {'feastol': .25, 'reltol': .125}, 'quick'), (2, 1, 2, (2, 2), 1, 0, None, 'quick'),
                                                (1, 1, 1, (3, 2), 0, 0, None, 'quick'), (2, 1, 1, (2, 3), 1, 1, None, 'quick'), (3, 1, 1, (2, 2), 0, 1, None, 'quick'),
                                                (2, 3, 1, (2, 2), 0, 0, None, 'thorough')]]
HARNESSES += [Harness('optimize-decoder-n%d-k%d-ops%d-particles%d' % (n, k, nk, q), decoder, n=n, k=k, nk=nk, q=q, opts=o, tier=t, time_s=800, samples=3,
                      bounds='every encoder, channel and candidate decoder; %d operators' % nk)
              for n, k, nk, q, o, t in [(1, 1, 2, 1, None, 'quick'), (2, 1, 2, 1, {'maxit': 3}, 'quick'), (2, 1, 2, 2, None, 'quick'), (2, 2, 1, 1, None, 'thorough')]]
HARNESSES += [Harness('stabilizers-%s-%s-ops%d' % ('_'.join(g), 'sparse' if sp else 'dense', nk), stabilizers, gens=g, n=n, k=k, nk=nk, sparse=sp, opts=o, tier=t, time_s=800,
                      samples=2, bounds='every encoder matrix, channel and candidate decoder; %d operators' % nk)
              for g, n, k, nk, sp, o, t in [(('ZZ',), 2, 1, 1, 0, {'maxit': 5}, 'quick'), (('XX',), 2, 1, 2, 1, None, 'quick'), (('ZZI', 'IZZ'), 3, 1, 1, 0, None, 'quick')]]
