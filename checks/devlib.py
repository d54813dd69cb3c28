"""Circuits with random phases: the random choices are symbolic bits, phase gates carry symbolic angles."""
import cmath, math, sys
import numpy as np
from symx import circuit as C
from symx.core import Unsupported

DA = 'PyQCodes.device_adaptor'
UNIT = math.pi / 12


class Random:
    """stand-in of numpy.random for the module: every random draw is an arbitrary value, made from the input bits of the harness"""

    def __init__(self, h, real):
        self.h, self.real, self.n, self.draws = h, real, 0, []

    def one(self, opts):
        """an arbitrary element of opts"""
        h, m = self.h, len(opts)
        i = self.n
        self.n += 1
        r, rest = 0, 1
        for k in range(m - 1):
            b = h.bit('draw%d#%d' % (i, k))
            r = r + rest * b * opts[k]
            rest = rest * (1 - b)
        r = r + rest * opts[m - 1]
        self.draws.append((list(opts), r))
        return r

    def many(self, opts, size):
        if size is None:
            return self.one(opts)
        shape = (int(size),) if isinstance(size, (int, np.integer)) else tuple(int(s) for s in size)
        tot = int(np.prod(shape)) if shape else 1
        vals = [self.one(opts) for _ in range(tot)]
        kind = 'i' if all(isinstance(o, (int, np.integer)) for o in opts) else 'f'
        return self.h.arr(vals, kind).reshape(shape)

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None or not replace:
            raise Unsupported('numpy.random.choice with probabilities')
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else [float(x) for x in a]
        return self.many(opts, size)

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        return self.many(list(range(int(lo), int(hi))), size)

    def __getattr__(self, name):
        if self.h.symbolic:
            raise Unsupported('numpy.random.%s' % name)
        return getattr(self.real, name)


class NP:
    def __init__(self, base, rnd):
        self._base, self.random = base, rnd

    def __getattr__(self, name):
        return getattr(self._base, name)


def setup(h):
    """give the device module symbolic randomness and phase gates"""
    m = h.mod(DA)
    rnd = Random(h, np.random)
    for k, v in list(m.__dict__.items()):
        if v is np or v is getattr(h, 'np', None):
            h.patch(m, k, NP(v, rnd))
        elif v is np.random:
            h.patch(m, k, rnd)
        elif v is np.random.choice:
            h.patch(m, k, rnd.choice)
        elif v is np.random.randint:
            h.patch(m, k, rnd.randint)
    if h.symbolic:
        import projectq.ops as ops
        from projectq.ops import BasicGate

        class R(BasicGate):
            def __init__(self, angle):
                BasicGate.__init__(self)
                while isinstance(angle, np.ndarray):
                    angle = angle.reshape(-1)[0] if angle.size == 1 else angle.item()
                self.angle = angle
                self.interchangeable_qubit_indices = []

            def __str__(self):
                return 'R'

            def __eq__(self, o):
                return self is o
            __hash__ = object.__hash__

            def get_inverse(self):
                return R(-self.angle)
        for k, v in list(m.__dict__.items()):
            if v is ops.R:
                h.patch(m, k, R)
    return rnd


class Diag:
    """diagonal unitary exp(i sum_m angle_m prod_{q in m} x_q), angles are polynomials in the input bits"""

    def __init__(self):
        self.t = {}

    def add(self, qs, angle):
        qs = frozenset(qs)
        self.t[qs] = self.t[qs] + angle if qs in self.t else angle

    def reduced(self):
        return self.t


def zero_angle(h, a):
    """condition that an angle is a multiple of 2 pi"""
    if not h.symbolic:
        r = float(a) / (2 * math.pi)
        return abs(r - round(r)) < 1e-7
    import z3
    from symx import core
    p = core.poly_of(a)
    c0, ts = 0, []
    for mono, c in p.items():
        u = float(c.real if isinstance(c, complex) else c) / UNIT
        if abs(u - round(u)) > 1e-6:
            raise Unsupported('angle that is no multiple of pi/12')
        u = int(round(u)) % 24
        if not mono:
            c0 += u
        elif u:
            ts.append((u, z3.And([core.A.zv[i] for i in mono]) if len(mono) > 1 else core.A.zv[mono[0]]))
    if not ts:
        return c0 % 24 == 0
    # residues modulo 24 in five-bit arithmetic with 24 = 8*3: decide on integers
    s = z3.Sum([z3.If(b, u, 0) for u, b in ts]) + c0
    return core.SBool(z3.simplify(s % 24 == 0))


PH = {'Z': math.pi, 'S': math.pi / 2, 'Sdag': -math.pi / 2}


def layers(h, gates, stuck=None):
    """normal form: alternating diagonal unitaries and sets of Hadamards, adjacent ones combined; a diagonal that is the identity for
    every value of the input bits is dropped, so that equal neighbouring Hadamards cancel"""
    out = []     # entries ('H', frozenset) / ('D', Diag)

    def push_h(qs):
        if out and out[-1][0] == 'H':
            s = out[-1][1] ^ qs
            out.pop()
            if s:
                out.append(('H', s))
            elif len(out) >= 1 and out[-1][0] == 'D':
                settle()
            return
        if out and out[-1][0] == 'D' and settle() and out and out[-1][0] == 'H':
            push_h(qs)
            return
        out.append(('H', qs))

    def settle():
        """drop the last diagonal if it is the identity"""
        d = out[-1][1]
        cs = [zero_angle(h, a) for a in d.t.values()]
        import z3
        from symx.core import SBool
        bad = []
        for c in cs:
            if isinstance(c, SBool):
                bad.append(z3.Not(c.e))
            elif not c:
                return False
        if bad and h.E.check(z3.Or(*bad), timeout=60000, kind='assert_queries') != z3.unsat:
            if stuck is not None:
                stuck.append(SBool(z3.Not(z3.Or(*bad))))
            return False
        out.pop()
        return True

    for g in gates:
        if g.g is not True:
            raise Unsupported('conditional gate')
        if g.kind == 'H' and not g.controls:
            push_h(frozenset(g.targets))
            continue
        if g.kind == 'Swap':
            raise Unsupported('swap')
        if g.kind[0] == 'R' and isinstance(g.kind, tuple):
            ang, qs = g.kind[1], list(g.targets) + list(g.controls)
        elif g.kind[0] == 'ph' and isinstance(g.kind, tuple):
            if not g.controls:
                continue
            ang, qs = g.kind[1] * math.pi / 2, list(g.controls)
        elif g.kind in PH:
            ang, qs = PH[g.kind], list(g.targets) + list(g.controls)
        elif g.kind == 'X' and len(g.controls) == 1:      # CNOT = H CZ H on the target
            push_h(frozenset(g.targets))
            if not out or out[-1][0] != 'D':
                out.append(('D', Diag()))
            out[-1][1].add(list(g.targets) + list(g.controls), math.pi)
            push_h(frozenset(g.targets))
            continue
        else:
            raise Unsupported('gate %s' % (g.kind,))
        if not out or out[-1][0] != 'D':
            out.append(('D', Diag()))
        out[-1][1].add(qs, ang)
    if out and out[-1][0] == 'D':
        settle()
    return out


def identity(h, gates, ids, label):
    """assert that the gate sequence is the identity for every draw (symbolic) / numerically up to a global phase (concrete)"""
    if h.symbolic:
        stuck = []
        rest = layers(h, gates, stuck)
        if rest and stuck:
            h.true(stuck[0], label)      # a draw for which a diagonal between unequal layers is not the identity
        h.true(not rest, label)
        return
    U = C.unitary(gates, ids)
    h.true(bool(abs(abs(np.trace(U)) - len(U)) < 1e-7), label)
