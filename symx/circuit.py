"""Circuits that the code under test sends to ProjectQ, recorded gate by gate and reasoned about symbolically.

`engine(h)` gives the code a real ProjectQ MainEngine whose only backend is a recorder, so that ProjectQ's own front end (Control,
All, QubitOperator, allocation, measurement results) is the real one.  A recorded gate carries the condition under which it was
sent (merged branches).  `pull(gates, P)` computes U^dagger P U for a Pauli observable P in the tableau form
(-1)^s prod_q i^(x_q z_q) X^x_q Z^z_q whose entries are solver terms: the Heisenberg picture of the circuit for all gate conditions at once.
In concrete runs the same pull-back is recomputed from the gates' matrices.
"""
import cmath, math
import numpy as np
import z3
from .core import Sym, SBool, Unsupported


# -- booleans that are python bools or z3 terms ---------------------------------------------------
def bnot(a):
    return not a if isinstance(a, bool) else z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            out.append(x)
    return True if not out else out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            out.append(x)
    return False if not out else out[0] if len(out) == 1 else z3.Or(*out)


def bxor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True:
        return bnot(b)
    if b is True:
        return bnot(a)
    if a.eq(b):
        return False
    return z3.Xor(a, b)


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (not isinstance(a, bool) and not isinstance(b, bool) and a.eq(b)):
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        return bor(band(c, a), band(bnot(c), b))
    return z3.If(c, a, b)


def zb(v):
    """python bool or z3 term of a 0/1 value"""
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, Sym):
        r = (v == 1)
        return r.e if isinstance(r, SBool) else bool(r)
    return bool(v)


def wrapb(e):
    return e if isinstance(e, bool) else SBool(e)


class Pauli:
    """(-1)^s prod_q i^(x_q z_q) X^x_q Z^z_q"""

    def __init__(self, x=None, z=None, s=False):
        self.x, self.z, self.s = dict(x or {}), dict(z or {}), s

    def copy(self):
        return Pauli(self.x, self.z, self.s)

    def gx(self, q):
        return self.x.get(q, False)

    def gz(self, q):
        return self.z.get(q, False)

    @staticmethod
    def of_bits(row, ids, s=False):
        n = len(ids)
        return Pauli({q: zb(row[i]) for i, q in enumerate(ids)}, {q: zb(row[n + i]) for i, q in enumerate(ids)}, s)

    def qubits(self):
        return sorted(set(self.x) | set(self.z))

    def times(self, o):
        """(phase k, product): self*o = i^k * product, k = 0/1 term for i (sign is put into the product)"""
        r = Pauli(s=bxor(self.s, o.s))
        ph = [False, False]      # two bit counter of powers of i

        def addk(bit1, bit2):    # add bit1 + 2*bit2
            c = band(ph[0], bit1)
            ph[0] = bxor(ph[0], bit1)
            ph[1] = bxor(bxor(ph[1], bit2), c)
        for q in sorted(set(self.qubits()) | set(o.qubits())):
            a, b, c, d = self.gx(q), self.gz(q), o.gx(q), o.gz(q)
            x, z = bxor(a, c), bxor(b, d)
            # i^{ab} X^a Z^b i^{cd} X^c Z^d = i^{ab+cd} (-1)^{bc} X^x Z^z ; divide by i^{xz}
            addk(band(a, b), False)
            addk(band(c, d), False)
            addk(False, band(b, c))
            xz = band(x, z)
            addk(xz, xz)          # minus one = plus three
            r.x[q], r.z[q] = x, z
        r.s = bxor(r.s, ph[1])
        return ph[0], r


def commute(p, o):
    r = False
    for q in sorted(set(p.qubits()) | set(o.qubits())):
        r = bxor(r, bxor(band(p.gx(q), o.gz(q)), band(p.gz(q), o.gx(q))))
    return bnot(r)


def same(p, o, sign=True, qubits=None):
    """condition that two Pauli observables are equal"""
    cs = []
    for q in (qubits or sorted(set(p.qubits()) | set(o.qubits()))):
        cs.append(bnot(bxor(p.gx(q), o.gx(q))))
        cs.append(bnot(bxor(p.gz(q), o.gz(q))))
    if sign:
        cs.append(bnot(bxor(p.s, o.s)))
    return band(*cs)


# -- pulling an observable back through one gate ----------------------------------------------------
def _single(kind, P, q, g):
    x, z = P.gx(q), P.gz(q)
    if kind == 'X':
        P.s = bxor(P.s, band(g, z))
    elif kind == 'Z':
        P.s = bxor(P.s, band(g, x))
    elif kind == 'Y':
        P.s = bxor(P.s, band(g, bxor(x, z)))
    elif kind == 'H':
        P.s = bxor(P.s, band(g, x, z))
        P.x[q], P.z[q] = bite(g, z, x), bite(g, x, z)
    elif kind == 'S':          # S^dagger X S = -Y ... : (x,z) -> (x, z^x)
        P.s = bxor(P.s, band(g, x, bnot(z)))
        P.z[q] = bite(g, bxor(z, x), z)
    elif kind == 'Sdag':
        P.s = bxor(P.s, band(g, x, z))
        P.z[q] = bite(g, bxor(z, x), z)
    else:
        raise Unsupported('gate %s' % kind)


def _cnot(P, c, t, g):
    xc, zc, xt, zt = P.gx(c), P.gz(c), P.gx(t), P.gz(t)
    P.s = bxor(P.s, band(g, xc, zt, bnot(bxor(xt, zc))))
    P.x[t] = bite(g, bxor(xt, xc), xt)
    P.z[c] = bite(g, bxor(zc, zt), zc)


def back(P, g, kind, targets, controls):
    """U^dagger P U for one (conditional) gate, in place"""
    if kind == 'Swap':
        if controls:
            raise Unsupported('controlled swap')
        a, b = targets
        for d in (P.x, P.z):
            u, v = d.get(a, False), d.get(b, False)
            d[a], d[b] = bite(g, v, u), bite(g, u, v)
        return
    if kind[0] == 'ph':        # phase i^k on the all-one state of the controls
        if not controls:
            return
        if len(controls) > 1:
            raise Unsupported('multiply controlled phase')
        k = kind[1]
        if k:
            _single({1: 'S', 2: 'Z', 3: 'Sdag'}[k], P, controls[0], g)
        return
    if kind[0] == 'R':
        raise Unsupported('phase gate that is no multiple of pi/2')
    (t,) = targets
    if not controls:
        _single(kind, P, t, g)
        return
    if len(controls) > 1:
        raise Unsupported('multiply controlled gate')
    c = controls[0]
    if kind == 'X':
        _cnot(P, c, t, g)
    elif kind == 'Z':
        _single('H', P, t, g)
        _cnot(P, c, t, g)
        _single('H', P, t, g)
    elif kind == 'Y':          # S_t CNOT S_t^dagger as an operator: the rightmost factor acts first
        _single('S', P, t, g)
        _cnot(P, c, t, g)
        _single('Sdag', P, t, g)
    else:
        raise Unsupported('controlled %s' % kind)


MAT = {'X': [[0, 1], [1, 0]], 'Y': [[0, -1j], [1j, 0]], 'Z': [[1, 0], [0, -1]], 'H': [[.5 ** .5, .5 ** .5], [.5 ** .5, -.5 ** .5]],
       'S': [[1, 0], [0, 1j]], 'Sdag': [[1, 0], [0, -1j]]}


class Gate:
    __slots__ = ('g', 'kind', 'targets', 'controls', 'obj')

    def __init__(self, g, kind, targets, controls, obj=None):
        self.g, self.kind, self.targets, self.controls, self.obj = g, kind, targets, controls, obj

    def __repr__(self):
        return '%s%s%s' % (self.kind, self.targets, 'c%s' % self.controls if self.controls else '')


def pull(gates, P, h=None):
    R = P.copy()
    for g in reversed(gates):
        if g.kind in ('M', 'alloc', 'dealloc', 'wf'):
            raise Unsupported('%s inside a unitary segment' % g.kind)
        back(R, g.g, g.kind, g.targets, g.controls)
    if h is not None and not h.symbolic:
        dense_check(gates, P, R)
    return R


def matrix(P, ids):
    m = np.eye(1, dtype=complex)
    for q in ids:
        f = np.eye(2, dtype=complex)
        if P.gx(q):
            f = f @ np.array(MAT['X'])
        if P.gz(q):
            f = f @ np.array(MAT['Z'])
        if P.gx(q) and P.gz(q):
            f = 1j * f
        m = np.kron(m, f)
    return -m if P.s else m


def unitary(gates, ids):
    n = len(ids)
    pos = {q: i for i, q in enumerate(ids)}
    U = np.eye(2 ** n, dtype=complex)
    for g in gates:
        if not g.g:
            continue
        if g.kind[0] == 'ph':
            M, ts = np.eye(1) * 1j ** g.kind[1], []
        elif g.kind == 'Swap':
            M, ts = np.eye(4)[[0, 2, 1, 3]], list(g.targets)
        else:
            # the matrix ProjectQ gives for the gate itself, where there is one
            M = np.asarray(g.obj.matrix) if g.obj is not None and hasattr(g.obj, 'matrix') else np.array(MAT[g.kind])
            ts = list(g.targets)
        G = np.zeros((2 ** n, 2 ** n), dtype=complex)
        for v in range(2 ** n):
            bit = lambda q: v >> (n - 1 - pos[q]) & 1
            if not all(bit(c) for c in g.controls):
                G[v, v] = 1
                continue
            i = 0
            for t in ts:
                i = 2 * i + bit(t)
            for o in range(len(M)):
                if M[o, i]:
                    w = v
                    for k, t in enumerate(ts):
                        b = o >> (len(ts) - 1 - k) & 1
                        w = w & ~(1 << (n - 1 - pos[t])) | b << (n - 1 - pos[t])
                    G[w, v] += M[o, i]
        U = G @ U
    return U


def dense_check(gates, P, R):
    ids = sorted(set(P.qubits()) | set(R.qubits()) | {q for g in gates for q in list(g.targets) + list(g.controls)})
    if len(ids) > 7:
        return
    U = unitary(gates, ids)
    if np.abs(U.conj().T @ matrix(P, ids) @ U - matrix(R, ids)).max() > 1e-6:
        raise AssertionError('tableau disagrees with the matrices of the gates')


# -- the recording engine ---------------------------------------------------------------------------
def quarter(angle):
    """k with angle = k*pi/2 modulo 2pi, or None"""
    if isinstance(angle, np.ndarray):
        angle = angle.reshape(-1)[0]
    if isinstance(angle, Sym):
        from . import core
        angle = core.pconst(core.poly_of(angle))
        if angle is None:
            return None
        angle = complex(angle).real
    k = float(angle) / (math.pi / 2)
    return int(round(k)) % 4 if abs(k - round(k)) < 1e-9 else None


def engine(h, on_measure=None):
    """(main engine, recorder)"""
    from projectq import MainEngine
    from projectq.cengines import BasicEngine
    import projectq.ops as ops

    class Recorder(BasicEngine):
        def __init__(self):
            BasicEngine.__init__(self)
            self.log = []
            self.ids = []
            self.n_meas = 0
            self.outcomes = []
            self.live = []
            self.pending = []

        def is_available(self, cmd):
            return True

        def set_wavefunction(self, wf, register):
            self.guarded('set_wavefunction')
            self.log.append(Gate(True, 'wf', [q.id for q in register], [], wf))

        def guarded(self, what):
            if h.symbolic and h.merge is not None and h.merge.GUARDS:
                h.merge.fail(what)

        def receive(self, cmds):
            for c in cmds:
                self.one(c)

        def one(self, c):
            gate = c.gate
            ids = [q.id for r in c.qubits for q in r]
            ctl = [q.id for q in c.control_qubits]
            name = type(gate).__name__
            g = True
            if h.symbolic and h.merge is not None:
                g = h.merge.guard()
            if name == 'FlushGate':        # results of measurements are there once the engine has been flushed
                for q, v in self.pending:
                    self.main_engine.set_measurement_result(q, v)
                self.pending = []
                return
            if name in ('AllocateQubitGate', 'DeallocateQubitGate', 'MeasureGate'):
                self.guarded(name)
            if name == 'AllocateQubitGate':
                self.ids += ids
                self.live += ids
                self.log.append(Gate(True, 'alloc', ids, []))
                return
            if name == 'DeallocateQubitGate':
                self.live = [q for q in self.live if q not in ids]
                self.log.append(Gate(True, 'dealloc', ids, []))
                return
            if name == 'MeasureGate':
                for r in c.qubits:
                    for q in r:
                        self.log.append(Gate(True, 'M', [q.id], []))
                        v = on_measure(q.id, self) if on_measure else h.bit('meas_%d' % self.n_meas)
                        self.n_meas += 1
                        self.last = bool(v == 1) if isinstance(v, Sym) else bool(v)
                        self.outcomes.append((q.id, self.last))
                        self.pending.append((q, self.last))
                return
            neg = [q for q, s in zip(ctl, getattr(c, 'control_state', '1' * len(ctl))) if s == '0']
            for q in neg:
                self.log.append(Gate(g, 'X', [q], []))
            self.gate(g, gate, name, ids, ctl)
            for q in neg:
                self.log.append(Gate(g, 'X', [q], []))

        def gate(self, g, gate, name, ids, ctl):
            if name in ('XGate', 'YGate', 'ZGate', 'HGate', 'SGate'):
                self.log.append(Gate(g, name[0], ids, ctl, gate))
            elif name == 'DaggeredGate' and type(gate._gate).__name__ == 'SGate':
                self.log.append(Gate(g, 'Sdag', ids, ctl))
            elif name == 'SwapGate':
                self.log.append(Gate(g, 'Swap', ids, ctl))
            elif name == 'Ph' and quarter(gate.angle) is not None:
                self.log.append(Gate(g, ('ph', quarter(gate.angle)), [], ctl))
            elif name == 'R' and quarter(gate.angle) is not None:
                k = quarter(gate.angle)
                if not ctl:
                    if k:
                        self.log.append(Gate(g, {1: 'S', 2: 'Z', 3: 'Sdag'}[k], ids, ctl))
                elif k == 2:
                    self.log.append(Gate(g, 'Z', ids, ctl))
                elif k:
                    self.log.append(Gate(g, ('R', gate.angle), ids, ctl, gate))
            elif name == 'R':
                self.log.append(Gate(g, ('R', gate.angle), ids, ctl, gate))
            elif name == 'QubitOperator':
                ((term, coef),) = gate.terms.items()
                for i, p in term:
                    self.log.append(Gate(g, p, [ids[i]], ctl))
                self.log.append(Gate(g, ('ph', quarter(cmath.phase(coef))), [], ctl))
            elif name in ('BarrierGate', 'ClassicalInstructionGate'):
                pass
            else:
                raise Unsupported('gate %s' % name)

    rec = Recorder()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        eng = MainEngine(backend=rec, engine_list=[], verbose=True)
    return eng, rec
