"""C31: optimisation of parametrised encoders and decoders."""
from symx.run import Harness
from symx import circuit as C
from checks.devlib import *
from checks.optlib import replace_func, Result
from checks.chanlib import NP_STUB, SPARSE_STUB
BOUNDS = '0-3 encoder and 0-3 decoder parameters (arbitrary reals), 1-2 shots, every measurement outcome and optimiser flag'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness']
STUBS = [NP_STUB, 'projectq engine: records the gates, measurement outcomes are arbitrary bits; gate actions on Pauli operators are those of the Clifford group', 'scipy differential_evolution: evaluates the objective at two arbitrary points and answers with the first']
EXPLANATION = 'parameters seen by the two circuits are compared with the split of the point the optimiser asked for; the sign and the reported values with the fraction of zero outcomes'

FCM = 'PyQCodes.find_codes'
DE_STUB = 'scipy.optimize.differential_evolution: evaluates the objective at two arbitrary points and answers with the first of them (the numerical search is not modelled)'


def same_params(h, got, want, label):
    h.true(len(got) == len(want), label + ' (number)')
    if len(got) == len(want) and len(want):
        h.eq(got, h.arr(want, 'f'), label)


def run(h, M, N, ntimes):
    import scipy.optimize as so
    import projectq.ops as ops
    setup(h)
    eng, rec = C.engine(h)
    reg = eng.allocate_qureg(1)
    log, seen = [], {}
    pts = [h.rvec('x', M + N), h.rvec('y', M + N)]
    ok = bool(h.bit('success') == 1)
    bounds = [(-1. - i, 2. + i) for i in range(M + N)]

    def encoder(e, r, params):
        log.append(('encoder', e, [q.id for q in r], params))
        ops.H | r[0]

    def channel(e, r):
        log.append(('channel', e, [q.id for q in r], None))
        ops.X | r[0]

    def decoder(e, r, params):
        log.append(('decoder', e, [q.id for q in r], params))
        ops.S | r[0]

    def de(func, bounds=None, args=(), strategy='best1bin', maxiter=1000, **kw):
        h.true('obj' not in seen, 'one search is made')
        seen.update(bounds=bounds, maxiter=maxiter, obj=[], frac=[])
        args = args if isinstance(args, tuple) else (args,)
        for k, x in enumerate(pts):
            del log[:]
            m0 = len(rec.outcomes)
            seen['obj'].append(func(x, *args))
            outs = rec.outcomes[m0:]
            h.true(len(outs) == ntimes, 'the objective is estimated with the requested number of shots')
            seen['frac'].append(sum(1 for _, b in outs if not b) / max(1, len(outs)))
            h.true([c[0] for c in log] == ['encoder', 'channel', 'decoder'] * ntimes, 'every shot applies encoder, channel and decoder once, in this order')
            for c in log:
                h.true(c[1] is eng, 'the circuits act on the engine of the device')
                if c[0] == 'encoder':
                    same_params(h, c[3], h.lst(x)[:M], 'the encoder is given the first parameters')
                if c[0] == 'decoder':
                    same_params(h, c[3], h.lst(x)[M:], 'the decoder is given the remaining parameters')
        return Result(x=pts[0], fun=seen['obj'][0], success=ok, nit=1, message='')
    replace_func(h, so.differential_evolution, de)
    qd = h.mod(FCM).QDeviceChannel(eng, reg, channel)
    out = qd.optimize_encoder_decoder_average_fidelity(encoder, decoder, ntimes, .5, (M, N), bounds, maxiter=7)
    h.true([tuple(b) for b in seen['bounds']] == bounds and seen['maxiter'] == 7, 'bounds and iteration limit are passed on')
    o, f = seen['obj'], seen['frac']
    h.true((o[0] < o[1]) == (f[0] > f[1]), 'the search prefers the larger fidelity')
    h.true(abs(float(out['optimal_val']) - f[0]) < 1e-12, 'the optimal value is the fidelity at the optimal parameters')
    same_params(h, out['params_encoder'], h.lst(pts[0])[:M], 'optimal parameters of the encoder')
    same_params(h, out['params_decoder'], h.lst(pts[0])[M:], 'optimal parameters of the decoder')
    h.true(bool(out['success']) == ok, 'the success flag is that of the search')


def refuse(h, M, N, nb, opt):
    setup(h)
    eng, rec = C.engine(h)
    reg = eng.allocate_qureg(1)
    import scipy.optimize as so
    replace_func(h, so.differential_evolution, lambda *a, **k: Result(x=h.rvec('x', M + N), fun=0., success=True))
    qd = h.mod(FCM).QDeviceChannel(eng, reg, lambda e, r: None)
    f = lambda e, r, p: None
    r, e = h.attempt(qd.optimize_encoder_decoder_average_fidelity, f, f, 1, .5, (M, N), [(-1., 1.)] * nb, optimizer=opt)
    h.true((r == 'ok') == (nb == M + N and opt == 'diffev'), 'accepted exactly with one bound per parameter and a known optimizer')


HARNESSES = [Harness('search-%d-%d-shots%d' % (M, N, t), run, M=M, N=N, ntimes=t, samples=5, max_paths=2000,
                     bounds='all parameters, draws, measurement outcomes; %d encoder and %d decoder parameters, %d shots' % (M, N, t))
             for M, N, t in [(1, 1, 1), (2, 1, 2), (1, 3, 1), (3, 2, 1), (2, 0, 1), (0, 2, 1)]]
HARNESSES += [Harness('refuse-%d-%d-b%d-%s' % (M, N, nb, o), refuse, M=M, N=N, nb=nb, opt=o, samples=1, bounds='this configuration')
              for M, N, nb, o in [(1, 2, 3, 'diffev'), (1, 2, 2, 'diffev'), (1, 2, 4, 'diffev'), (2, 0, 1, 'diffev'), (1, 1, 2, 'slsqp'), (1, 1, 2, '')]]
