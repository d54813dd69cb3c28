"""C29: the unitary two-design circuits: structure of each round, and their inverse."""
import itertools
from symx.run import Harness
from symx import circuit as C
from checks.devlib import *
from checks.chanlib import NP_STUB, SPARSE_STUB
BOUNDS = '1-4 qubits (5 thorough), accuracies between 0.5 and 0.001: every outcome of every random draw'
ASSUMPTIONS = ['entries are exact: generator bits are integers, matrix entries reals (rounding outside the claim)', 'sizes (n, k, number of generators) are concrete per harness', 'the random source can return every element it is asked for (probabilities are not claimed)']
STUBS = [NP_STUB, 'projectq engine: records the gates, measurement outcomes are arbitrary bits; gate actions on Pauli operators are those of the Clifford group', 'numpy.random.choice/randint: arbitrary element per draw']
EXPLANATION = 'phase angles are polynomials in the draw bits; design followed by inverse reduces to nothing for all of them, and every round has the documented structure'


def fresh(h, n):
    setup_rnd = setup(h)
    eng, rec = C.engine(h)
    reg = eng.allocate_qureg(n)
    dev = h.mod(DA).ProjectQDeviceAdaptor(eng, reg)
    return setup_rnd, eng, rec, reg, dev, [q.id for q in reg]


def inverse(h, n, eps):
    rnd, eng, rec, reg, dev, ids = fresh(h, n)
    start = len(rec.log)
    ph = dev.approximate_unitary_two_design(eps)
    mid = len(rec.log)
    dev.inverse_of_unitary_two_design(ph)
    gates = rec.log[start:]
    h.true(mid > start, 'the design circuit applies gates')
    h.true(all(g.kind not in ('M', 'alloc', 'dealloc', 'wf') for g in gates), 'both circuits are unitary')
    identity(h, gates, ids, 'the inverse circuit undoes the design circuit for every draw of the phases')


def rounds(n, eps):
    l = 0
    while 2.0 ** (-l * n) > eps * (1 + 1e-12):
        l += 1
    return 2 * l + 1


def structure(h, n, eps):
    """each round: phases 0, 2pi/3, 4pi/3 on every qubit, then signs on pairs of qubits, then Hadamards everywhere"""
    rnd, eng, rec, reg, dev, ids = fresh(h, n)
    start = len(rec.log)
    dev.approximate_unitary_two_design(eps)
    gates = rec.log[start:]
    nh = {q: sum(1 for g in gates if g.kind == 'H' and not g.controls and g.targets == [q]) for q in ids}
    h.true(all(v == rounds(n, eps) for v in nh.values()), 'the number of rounds is 2 ceil(log2(1/epsilon)/n) + 1')
    done = {q: 0 for q in ids}
    lay = [dict() for _ in range(rounds(n, eps) + 1)]
    for g in gates:
        if g.kind == 'H' and not g.controls:
            done[g.targets[0]] += 1
            continue
        qs = list(g.targets) + list(g.controls)
        if isinstance(g.kind, tuple) and g.kind[0] == 'R':
            ang = g.kind[1]
        elif g.kind in PH:
            ang = PH[g.kind]
        elif isinstance(g.kind, tuple) and g.kind[0] == 'ph':
            ang = g.kind[1] * math.pi / 2
            if not qs:
                continue
        else:
            raise Unsupported('gate %s' % (g.kind,))
        r = {done[q] for q in qs}
        h.true(len(r) == 1, 'phase gates act within a round')
        d = lay[r.pop()]
        key = frozenset(qs)
        d[key] = d[key] + ang if key in d else ang
    h.true(not lay[rounds(n, eps)], 'every round ends with the Hadamards')
    for d in lay[:rounds(n, eps)]:
        h.true(all(len(k) <= 2 for k in d), 'phases act on one or two qubits')
        for k, a in d.items():
            unit = 2 * math.pi / 3 if len(k) == 1 else math.pi
            h.true(zero_angle(h, a * round(2 * math.pi / unit)), 'single qubit phases are multiples of 2pi/3, pair phases multiples of pi')


def reach(h, n):
    """every combination of phases can be drawn in a round"""
    targets = list(itertools.product(*([(0, 1, 2)] * n + [(0, 1)] * (n * (n - 1) // 2))))
    if h.symbolic:
        import z3
        from symx.core import SBool
        rnd, eng, rec, reg, dev, ids = fresh(h, n)
        start = len(rec.log)
        dev.approximate_unitary_two_design(1.0)
        gates = rec.log[start:]
        d = angles(gates, ids)
        for t in targets:
            cs = []
            for k, v, u in zip(keys(ids), t, units(n)):
                c = zero_angle(h, d.get(k, 0) - v * u)
                cs.append(c.e if isinstance(c, SBool) else z3.BoolVal(bool(c)))
            ok = h.E.check(*cs, timeout=20000, kind='assert_queries') == z3.sat
            h.true(ok, 'every combination of phases can be drawn in a round')
        return
    seen = set()
    import random as _r
    rng = _r.Random(5)
    for _ in range(60 * len(targets)):
        vals = {}
        h2 = type(h)({}, rng, h.tol)
        try:
            rnd, eng, rec, reg, dev, ids = fresh(h2, n)
            start = len(rec.log)
            dev.approximate_unitary_two_design(1.0)
            d = angles(rec.log[start:], ids)
            seen.add(tuple(int(round(float(d.get(k, 0)) / u)) % m for k, u, m in zip(keys(ids), units(n), [3] * n + [2] * len(targets))))
        finally:
            h2.undo()
    h.true(len(seen) == len(targets), 'every combination of phases can be drawn in a round', '%d of %d' % (len(seen), len(targets)))


def keys(ids):
    return [frozenset([q]) for q in ids] + [frozenset(p) for p in itertools.combinations(ids, 2)]


def units(n):
    return [2 * math.pi / 3] * n + [math.pi] * (n * (n - 1) // 2)


def angles(gates, ids):
    d = {}
    for g in gates:
        if g.kind == 'H':
            continue
        qs = frozenset(list(g.targets) + list(g.controls))
        ang = g.kind[1] if isinstance(g.kind, tuple) and g.kind[0] == 'R' else PH[g.kind] if g.kind in PH else 0
        if qs and not (isinstance(ang, int) and ang == 0):
            d[qs] = d[qs] + ang if qs in d else ang
    return d


HARNESSES = [Harness('inverse-n%d-eps%s' % (n, e), inverse, n=n, eps=e, samples=6, tier=t, time_s=s,
                     bounds='every draw of all phases, %d qubits, epsilon %s' % (n, e))
             for n, e, t, s in [(1, .5, 'quick', 100), (2, .5, 'quick', 100), (2, .1, 'quick', 100), (3, .3, 'quick', 100), (3, .01, 'quick', 300),
                                (4, .01, 'quick', 300), (5, .001, 'thorough', 2000)]]
HARNESSES += [Harness('structure-n%d-eps%s' % (n, e), structure, n=n, eps=e, samples=4, bounds='every draw of all phases, %d qubits, epsilon %s' % (n, e))
              for n, e in [(1, .5), (1, .2), (2, .5), (2, .05), (2, .25), (3, .3), (3, .1), (4, .01)]]
HARNESSES += [Harness('draws-n%d' % n, reach, n=n, samples=1, bounds='all combinations of phases of one round on %d qubits' % n) for n in (1, 2, 3)]
