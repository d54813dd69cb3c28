"""C30: the average fidelity estimate is the fraction of shots that return to all zeros."""
from symx.run import Harness
from symx import circuit as C
from checks.devlib import *
from checks.chanlib import NP_STUB, SPARSE_STUB
BOUNDS = '1-3 qubits, 1-3 shots (4 thorough), every draw of the phases and every measurement outcome, both estimators and the error-code variant, with and without the reset shortcut'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness']
STUBS = [NP_STUB, 'projectq engine: records the gates, measurement outcomes are arbitrary bits; gate actions on Pauli operators are those of the Clifford group', 'numpy.random.choice/randint: arbitrary element per draw']
EXPLANATION = 'the recorded history of gates and measurements is compared with the protocol shot by shot; the estimate with the fraction of all-zero outcomes'

FCM = 'PyQCodes.find_codes'



def run(h, n, ntimes, eps, how, cheat):
    setup(h)
    eng, rec = C.engine(h)
    reg = eng.allocate_qureg(n)
    first = [q.id for q in reg]
    marks = []

    def act(name, gate):
        def f(e, r):
            marks.append((name, len(rec.log), [q.id for q in r], e))
            gate(r)
            marks.append((name + '-end', len(rec.log), [q.id for q in r], e))
        return f
    import projectq.ops as ops
    chan = act('channel', lambda r: [ops.X | q for q in r])
    enc = act('encoder', lambda r: ops.H | r[0])
    dec = act('decoder', lambda r: ops.S | r[0])
    start = len(rec.log)
    if how == 'device':
        dev = h.mod(DA).ProjectQDeviceAdaptor(eng, reg)
        val = dev.estimate_average_fidelity(chan, ntimes, eps, **({'cheat': True} if cheat else {}))
        names = ['channel']
    else:
        qd = h.mod(FCM).QDeviceChannel(eng, reg, chan)
        h.true(qd.numb_qubits == n and qd.channel is chan and qd.eng is eng and [q.id for q in qd.register] == first, 'the channel object describes its device')
        if how == 'channel':
            val = qd.estimate_average_fidelity_channel(ntimes, eps, **({'cheat': True} if cheat else {}))
            names = ['channel']
        else:
            val = qd.estimate_average_fidelity_error_code(enc, dec, ntimes, eps)
            names = ['encoder', 'channel', 'decoder']
    order = [m[0] for m in marks if not m[0].endswith('-end')]
    h.true(order == names * ntimes, 'every shot applies encoder, channel and decoder once, in this order')
    h.true(all(m[3] is eng for m in marks), 'the circuits act on the engine of the device')
    zeros = 0
    pos = start
    outs = list(rec.outcomes)
    meas = 0
    for t in range(ntimes):
        mk = marks[2 * len(names) * t:2 * len(names) * (t + 1)]
        ids = mk[0][2]
        h.true(all(m[2] == ids for m in mk) and len(ids) == n, 'the circuits of one shot act on the same register')
        before, after = rec.log[pos:mk[0][1]], None
        for a, b in zip(mk[1:-1:2], mk[2::2]):
            h.true(a[1] == b[1], 'nothing happens between encoder, channel and decoder')
        # preparation
        al = True
        if cheat:
            wf = [g for g in before if g.kind == 'wf']
            h.true(len(wf) == 1 and list(wf[0].targets) == ids and [complex(x) for x in wf[0].obj] == [1] + [0] * (2 ** n - 1),
                   'the register is set to all zeros before every shot')
            k = max(i for i, g in enumerate(before) if g.kind == 'wf')
        else:
            al = [q for g in before if g.kind == 'alloc' for q in g.targets]
            k = max([i for i, g in enumerate(before) if g.kind == 'alloc'] or [-1])
            if not al and t:       # the register of the shot before, known to hold its outcomes
                bits = {q: int(b) for q, b in mine}
                while k + 1 < len(before) and (before[k + 1].kind == 'dealloc' or before[k + 1].kind == 'X' and not before[k + 1].controls and before[k + 1].g is True):
                    k += 1
                    for q in before[k].targets if before[k].kind == 'X' else ():
                        bits[q] = 1 - bits.get(q, 0)
                h.true(sorted(bits) == sorted(ids) and not any(bits.values()), 'every shot starts from all zeros')
            else:
                h.true(sorted(al) == sorted(ids), 'every shot starts from all zeros')
        h.true(all(g.kind == 'dealloc' for g in before[:k] if g.kind not in ('alloc', 'wf') and al), 'nothing is applied before the preparation')
        u = before[k + 1:]
        u = [g for g in u if g.kind != 'dealloc']
        # undo and measurement
        end = next((i for i in range(mk[-1][1], len(rec.log)) if rec.log[i].kind == 'M'), len(rec.log))
        v = rec.log[mk[-1][1]:end]
        h.true(len(u) > 0 and len(v) > 0, 'a unitary of the design is applied before and undone after the channel')
        identity(h, u + v, ids, 'the unitary before the channel is undone after it')
        ms = []
        while end < len(rec.log) and rec.log[end].kind == 'M':
            ms += list(rec.log[end].targets)
            end += 1
        h.true(sorted(ms) == sorted(ids), 'every qubit is measured once')
        pos = end
        mine = outs[meas:meas + len(ms)]
        meas += len(ms)
        zeros += all(not b for _, b in mine)
    h.true(len(outs) == meas and all(g.kind == 'dealloc' for g in rec.log[pos:]), 'nothing else is done or measured')
    h.true(abs(float(val) - zeros / ntimes) < 1e-12, 'the estimate is the fraction of shots that give all zeros')


HARNESSES = [Harness('%s-n%d-shots%d%s' % (how, n, t, '-cheat' if ch else ''), run, n=n, ntimes=t, eps=e, how=how, cheat=ch, samples=6, max_paths=5000, time_s=400,
                     tier=tier, bounds='every draw of the phases and every measurement outcome, %d qubits, %d shots' % (n, t))
             for n, t, e, how, ch, tier in [(1, 1, .5, 'device', 0, 'quick'), (1, 3, .5, 'device', 0, 'quick'), (2, 2, .3, 'device', 0, 'quick'), (3, 1, .3, 'device', 0, 'quick'),
                                            (2, 2, .3, 'device', 1, 'quick'), (1, 2, .3, 'device', 1, 'quick'), (3, 1, .3, 'channel', 1, 'quick'), (2, 2, .3, 'channel', 0, 'quick'), (2, 1, .3, 'channel', 1, 'quick'), (2, 2, .3, 'code', 0, 'quick'),
                                            (3, 1, .3, 'code', 0, 'quick'), (2, 4, .3, 'device', 0, 'thorough'), (3, 2, .1, 'code', 0, 'thorough')]]
