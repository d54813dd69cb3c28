"""Branch merging for code over GF(2) bits and Pauli strings.

`install(mod)` recompiles the current source of a module with every `if` turned into a merged branch: when the condition is
symbolic and both sides are feasible, both sides run, stores are guarded by the condition, and local variables are joined
with if-then-else terms.  Branches that leave the function or a loop, and values that cannot be joined, fall back to forking
(`MergeFail` restarts the harness with that `if` forked).  Gates sent to the recording ProjectQ backend while a guard is
active carry the guard.
"""
import ast, copy, operator, os, sys
import numpy as np
import z3
from . import core
from .core import Sym, SBool, poly_of, _allbits
from .harness import Restart

GUARDS = []        # (z3 condition, site)
NOMERGE = set()
DEBUG = bool(os.environ.get('MERGE_DEBUG'))


class MergeFail(Restart):
    def __init__(self, site, why=''):
        BaseException.__init__(self, '%s %s' % (site, why))
        if DEBUG:
            print('FORK', site, why, file=sys.stderr)
        self.site = site


class _Unbound:
    def __repr__(self):
        return '<unbound>'


UNB = _Unbound()


class CannotJoin(Exception):
    pass


def fail(why=''):
    """leave the outermost merged branch: it will be forked on the next run"""
    if not GUARDS:
        raise CannotJoin(why)
    site = GUARDS[0][1]
    GUARDS.clear()
    NOMERGE.add(site)
    raise MergeFail(site, why)


def guard():
    if not GUARDS:
        return True
    return GUARDS[0][0] if len(GUARDS) == 1 else z3.And(*[g for g, _ in GUARDS])


def feasible(c):
    s = z3.simplify(c)
    if z3.is_false(s):
        return False
    g = guard()
    return core.E.feasible(c if g is True else z3.And(g, c))


def as_cond(v):
    """SBool or bool of a python value used as a condition (None when it cannot be symbolic)"""
    if isinstance(v, SBool):
        return v
    if isinstance(v, Sym):
        r = v != 0
        return r
    if isinstance(v, np.ndarray) and v.size == 1 and v.dtype == object:
        return as_cond(v.item())
    return None


def decide(c):
    """True/False when only one side is feasible, None when both are"""
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    if not feasible(c):
        return False
    if not feasible(z3.Not(c)):
        return True
    return None


# -- joining values -------------------------------------------------------------------------------
class PChar:
    """one symbolic Pauli letter: list of (condition, character), exhaustive and exclusive"""
    def __init__(self, alts):
        self.alts = alts

    def __eq__(self, o):
        if isinstance(o, PChar):
            cs = [z3.And(a, b) for a, x in self.alts for b, y in o.alts if x == y]
        else:
            cs = [a for a, x in self.alts if x == o]
        if not cs:
            return False
        return SBool(cs[0] if len(cs) == 1 else z3.Or(*cs))

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        if GUARDS:
            fail('hash of a symbolic letter')
        return hash(self.concrete())

    def concrete(self):
        for a, x in self.alts[:-1]:
            if bool(SBool(a)):
                return x
        return self.alts[-1][1]

    def __str__(self):
        return self.concrete() if core.E.active and not GUARDS else '?'

    def __len__(self):
        return 1

    def __add__(self, o):
        return PStr([self]) + o

    def __radd__(self, o):
        return o + PStr([self])

    def map(self, f):
        alts = {}
        for a, x in self.alts:
            alts.setdefault(f(x), []).append(a)
        if len(alts) == 1:
            return list(alts)[0]
        return PChar([(v[0] if len(v) == 1 else z3.Or(*v), k) for k, v in alts.items()])

    def upper(self):
        return self.map(str.upper)

    def lower(self):
        return self.map(str.lower)

    def strip(self):
        return self.map(str.strip)

    def __contains__(self, o):
        return bool(in_(o, self))

    def __iter__(self):
        return iter([self])

    def __getitem__(self, k):
        return [self][k]


def chars(s):
    return s.cs if isinstance(s, PStr) else [s] if isinstance(s, PChar) else list(s)


class PStr(str):
    """string of possibly symbolic letters"""
    def __new__(cls, cs):
        s = str.__new__(cls, ''.join(c if isinstance(c, str) else '?' for c in cs))
        s.cs = list(cs)
        return s

    def __iter__(self):
        return iter(self.cs)

    def __getitem__(self, k):
        r = self.cs[k]
        return PStr(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return PStr(self.cs + chars(o))

    def __radd__(self, o):
        return PStr(chars(o) + self.cs)

    def __eq__(self, o):
        if not isinstance(o, str) or len(o) != len(self):
            return False
        r = True
        for a, b in zip(self.cs, chars(o)):
            e = (a == b)
            if e is False:
                return False
            r = e if r is True else (r if e is True else r & e)
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        if GUARDS:
            fail('hash of a symbolic string')
        return hash(''.join(c if isinstance(c, str) else c.concrete() for c in self.cs))

    def __reversed__(self):
        return reversed(self.cs)

    def count(self, ch):
        r = 0
        for c in self.cs:
            e = (c == ch)
            r = r + (e.as_sym() if isinstance(e, SBool) else int(bool(e)))
        return r

    def __contains__(self, ch):
        return bool(in_(ch, self))

    def upper(self):
        return PStr([c.upper() for c in self.cs])

    def replace(self, a, b):
        if len(a) == len(b) == 1:
            return PStr([c.map(lambda x: b if x == a else x) if isinstance(c, PChar) else b if c == a else c for c in self.cs])
        return self.plain().replace(a, b)

    def plain(self):
        """the string with every letter decided (forks)"""
        if GUARDS:
            fail('letters of a symbolic string')
        return ''.join(c if isinstance(c, str) else c.concrete() for c in self.cs)

    def index(self, c, *a):
        return meth(self, 'index', c, *a)

    def _no(self, *a, **k):
        raise core.Unsupported('string method on a symbolic string')
    find = strip = lower = split = translate = startswith = endswith = _no


def ite_char(c, a, b):
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    alts = {}
    for g, x in ((c, a), (z3.Not(c), b)):
        for e, ch in (x.alts if isinstance(x, PChar) else [(None, x)]):
            alts.setdefault(ch, []).append(g if e is None else z3.And(g, e))
    if len(alts) == 1:
        return list(alts)[0]
    return PChar([(v[0] if len(v) == 1 else z3.Or(*v), k) for k, v in alts.items()])


def bit_expr(v):
    """z3 Bool for a value that is 0 or 1, else None"""
    if isinstance(v, (bool, np.bool_)):
        return z3.BoolVal(bool(v))
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, Sym):
        p = v.p
        if not _allbits(p):
            return None
        ms = list(p.items())
        if len(ms) == 1 and ms[0][1] == 1:
            m = ms[0][0]
            return core.A.zv[m[0]] if len(m) == 1 else z3.And(*[core.A.zv[a] for a in m])
        if len(ms) == 2 and p.get(()) == 1:
            m = [k for k in p if k][0]
            if p[m] == -1:
                return z3.Not(core.A.zv[m[0]] if len(m) == 1 else z3.And(*[core.A.zv[a] for a in m]))
        return None
    if isinstance(v, (int, float, np.integer, np.floating)) and v in (0, 1):
        return z3.BoolVal(bool(v))
    return None


def bit_of(v):
    """z3 Bool of a value known to be a bit"""
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, Sym):
        r = (v == 1)
        return r.e if isinstance(r, SBool) else z3.BoolVal(bool(r))
    return z3.BoolVal(bool(v))


NUM = (int, float, complex, np.number, np.bool_, Sym, SBool)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, NUM) and isinstance(b, NUM):
        if isinstance(a, SBool) or isinstance(b, SBool):
            return isinstance(a, SBool) and isinstance(b, SBool) and a.e.eq(b.e)
        pa, pb = poly_of(a), poly_of(b)
        return pa is not None and pa == pb
    return False


def ite_num(c, a, b):
    if same(a, b):
        return a
    boolish = all(isinstance(v, (bool, np.bool_, SBool)) for v in (a, b))
    ea, eb = bit_expr(a), bit_expr(b)
    if ea is not None and eb is not None:
        if z3.is_true(ea) and z3.is_false(eb):
            e = c
        elif z3.is_false(ea) and z3.is_true(eb):
            e = z3.Not(c)
        elif z3.is_false(ea):
            e = z3.And(z3.Not(c), eb)
        elif z3.is_false(eb):
            e = z3.And(c, ea)
        elif z3.is_true(ea):
            e = z3.Or(c, eb)
        elif z3.is_true(eb):
            e = z3.Or(z3.Not(c), ea)
        else:
            e = z3.If(c, ea, eb)
        return SBool(e) if boolish else SBool(e).as_sym()
    return b + SBool(c).as_sym() * (a - b)


def join(c, a, b):
    """value that is a where c holds and b elsewhere; None-able via MergeFail"""
    if a is b:
        return a
    if a is UNB or b is UNB:
        fail('variable bound on one side only')
    if isinstance(a, NUM) and isinstance(b, NUM):
        return ite_num(c, a, b)
    if isinstance(a, (str, PChar)) and isinstance(b, (str, PChar)):
        ca, cb = chars(a), chars(b)
        if len(ca) != len(cb):
            fail('strings of different length')
        if a == b is True:
            return a
        cs = [ite_char(c, x, y) for x, y in zip(ca, cb)]
        if len(cs) == 1 and not isinstance(a, PStr) and not isinstance(b, PStr) and not isinstance(cs[0], str):
            return PStr(cs)
        return PStr(cs) if any(isinstance(x, PChar) for x in cs) else ''.join(cs)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        from . import arr
        if a.shape != b.shape:
            fail('arrays of different shape')
        r = arr.elementwise2(lambda x, y: join(c, x, y), a, b) if a.ndim else None
        if r is None:
            fail('0-d arrays')
        r.kind = arr.join(arr.kind_of(a), arr.kind_of(b))
        return r
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            fail('sequences of different length')
        r = [join(c, x, y) for x, y in zip(a, b)]
        return r if isinstance(a, list) else tuple(r)
    if isinstance(a, range) and a == b:
        return a
    try:
        if type(a) is type(b) and a == b and not isinstance(a == b, SBool):
            return a
    except Exception:
        pass
    fail('cannot join %s / %s' % (type(a).__name__, type(b).__name__))


# -- run time support -----------------------------------------------------------------------------
class Branch:
    """merged if: modes  'T' only then, 'F' only else, 'M' both"""

    def __init__(self, v, site, loc, names):
        self.names = names
        self.site = site
        c = as_cond(v)
        if c is None or c is True or c is False:
            self.mode = 'T' if (v if c is None else c) else 'F'
            return
        self.c = c.e
        d = decide(self.c)
        if d is not None:
            self.mode = 'T' if d else 'F'
            return
        if site in NOMERGE:
            if GUARDS:
                fail('inner branch must fork')
            self.mode = 'T' if bool(c) else 'F'
            return
        self.mode = 'M'
        self.saved = [loc.get(n, UNB) for n in names]
        if DEBUG:
            print('merge', site, file=sys.stderr)

    def then(self):
        if self.mode == 'M':
            GUARDS.append((self.c, self.site))
        return self.mode in 'TM'

    def mid(self, loc):
        cur = [loc.get(n, UNB) for n in self.names]
        if self.mode != 'M':
            return cur
        GUARDS.pop()
        self.t = cur
        return self.saved

    def els(self):
        if self.mode == 'M':
            GUARDS.append((z3.Not(self.c), self.site))
        return self.mode in 'FM'

    def end(self, loc):
        cur = [loc.get(n, UNB) for n in self.names]
        if self.mode != 'M':
            return cur
        g = GUARDS[-1]
        out = []
        for a, b in zip(self.t, cur):
            out.append(join(self.c, a, b))
        GUARDS.pop()
        return out


def fork(v, site):
    c = as_cond(v)
    if c is None:
        return bool(v)
    if c is True or c is False:
        return c
    d = decide(c.e)
    if d is not None:
        return d
    if GUARDS:
        fail('branch that leaves the block')
    return bool(c)


def and_(a, b):
    c = as_cond(a)
    if c is None:
        return b() if a else a
    if c is True:
        return b()
    if c is False:
        return a
    d = decide(c.e)
    if d is True:
        return b()
    if d is False:
        return False
    x = b()
    y = as_cond(x)
    if y is None:
        if isinstance(x, (bool, np.bool_)):
            return c if x else False
        return x if bool(c) else False
    return c & y


def or_(a, b):
    c = as_cond(a)
    if c is None:
        return a if a else b()
    if c is True:
        return a
    if c is False:
        return b()
    d = decide(c.e)
    if d is True:
        return True
    if d is False:
        return b()
    x = b()
    y = as_cond(x)
    if y is None:
        if isinstance(x, (bool, np.bool_)):
            return True if x else c
        return True if bool(c) else x
    return c | y


def not_(a):
    c = as_cond(a)
    if c is None:
        return not a
    return ~c if isinstance(c, SBool) else not c


def ifexp(v, f, g):
    c = as_cond(v)
    if c is None:
        return f() if v else g()
    if c is True or c is False:
        return f() if c else g()
    d = decide(c.e)
    if d is not None:
        return f() if d else g()
    GUARDS.append((c.e, 'ifexp'))
    a = f()
    GUARDS[-1] = (z3.Not(c.e), 'ifexp')
    b = g()
    GUARDS.pop()
    if isinstance(a, NUM + (str, PChar)) and isinstance(b, NUM + (str, PChar)) or \
            (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape):
        if not isinstance(a, (str, PChar)) or len(chars(a)) == len(chars(b)):
            return join(c.e, a, b)
    if GUARDS:
        fail('conditional expression')
    return a if bool(c) else b


def set_(o, i, v):
    if isinstance(o, (list, np.ndarray)):
        r = split_index(i)
        if r is not None:
            s, f = r
            site = GUARDS[0][1] if GUARDS else 'store'
            cs = [(z_eq(s, k), k) for k in values_of(s)]
            cs = [(c, k) for c, k in cs if c is not False and (c is True or feasible(c))]
            if len(cs) == 1:
                return set_(o, f(cs[0][1]), v)
            for c, k in cs:
                try:
                    o[f(k)]
                except IndexError:
                    if GUARDS:
                        fail('index out of range')
                    if bool(SBool(c)):
                        raise
                    continue
                GUARDS.append((c, site))
                set_(o, f(k), v)
                GUARDS.pop()
            return
    elif isinstance(o, dict) and symbolic(i):
        if GUARDS:
            fail('symbolic key')
    if not GUARDS:
        o[i] = v
        return
    g = guard()
    old = o[i]
    if isinstance(old, np.ndarray):
        from . import arr
        r = arr.elementwise2(lambda x, y: join(g, x, y), arr.to_obj(v), old)
        if isinstance(r, np.ndarray) and r.shape != old.shape:
            fail('store shape')
        o[i] = r
    else:
        if isinstance(v, np.ndarray) and v.size == 1:
            v = v.item()
        o[i] = join(g, v, old)


def setattr_(o, n, v):
    if not GUARDS:
        setattr(o, n, v)
    else:
        setattr(o, n, join(guard(), v, getattr(o, n, UNB)))


# -- expressions ----------------------------------------------------------------------------------
def symbolic(v):
    if isinstance(v, (Sym, SBool, PChar)):
        return True
    if isinstance(v, PStr):
        return any(isinstance(c, PChar) for c in v.cs)
    if isinstance(v, (list, tuple)):
        return any(symbolic(x) for x in v)
    if isinstance(v, np.ndarray) and v.dtype == object and v.size <= 64:
        return any(isinstance(x, (Sym, SBool)) for x in v.flat)
    return False


def z_eq(a, b):
    """z3 Bool (or bool) of a == b for scalars, letters, strings and sequences of them"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        cs = [z_eq(x, y) for x, y in zip(a, b)]
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return True if not cs else cs[0] if len(cs) == 1 else z3.And(*cs)
    if isinstance(a, np.ndarray) and a.size == 1 and a.ndim == 0:
        a = a.item()
    if isinstance(b, np.ndarray) and b.size == 1 and b.ndim == 0:
        b = b.item()
    if isinstance(a, str) and len(a) == 1 and isinstance(b, PChar) or isinstance(a, str) and isinstance(b, PStr):
        a, b = b, a
    if isinstance(a, (str, PChar)) != isinstance(b, (str, PChar)):
        return False
    r = a == b
    if isinstance(r, SBool):
        return True if z3.is_true(r.e) else False if z3.is_false(r.e) else r.e
    if isinstance(r, np.ndarray):
        raise core.Unsupported('comparison of arrays')
    return bool(r)


def z_or(cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs):
        return True
    return False if not cs else SBool(cs[0] if len(cs) == 1 else z3.Or(*cs))


def in_(x, y):
    if isinstance(y, PChar):
        y = [y]
    if isinstance(y, str):
        if not symbolic(x) and not symbolic(y):
            return x in y
        if isinstance(x, (str, PChar)):
            xs, ys = chars(x), chars(y)
            return z_or([z_eq(list(xs), list(ys[i:i + len(xs)])) for i in range(len(ys) - len(xs) + 1)])
    elif isinstance(y, (list, tuple, set, frozenset, dict, range, type({}.keys()), type({}.values()))):
        if symbolic(x) or any(symbolic(v) for v in y):
            return z_or([True if x is v else z_eq(x, v) for v in y])
    elif isinstance(y, np.ndarray) and y.dtype == object and not isinstance(x, np.ndarray):
        return z_or([z_eq(x, v) for v in y.flat])
    return x in y


def notin_(x, y):
    return not_(in_(x, y))


def pick(cands):
    """value chosen by exclusive conditions that cover every case"""
    r = cands[-1][1]
    try:
        for c, v in reversed(cands[:-1]):
            r = join(c, v, r)
        return r
    except CannotJoin:
        for c, v in cands[:-1]:
            if bool(SBool(c)):
                return v
        return cands[-1][1]


def choose(cands, exc):
    """feasible candidates; exc when none applies"""
    out = []
    for c, f in cands:
        if c is False:
            continue
        if c is True:
            out.append((z3.BoolVal(True), f))
            break
        if feasible(c):
            out.append((c, f))
    if not out:
        raise exc
    cs = [c for c, _ in out]
    rest = z3.Not(cs[0] if len(cs) == 1 else z3.Or(*cs))
    if not any(z3.is_true(c) for c in cs) and feasible(rest):
        if GUARDS:
            fail('key or index may be missing')
        if bool(SBool(rest)):
            raise exc
    return pick([(c, f()) for c, f in out])


def values_of(i):
    """integers a symbolic scalar can be"""
    if isinstance(i, SBool):
        return [0, 1]
    if not _allbits(i.p):
        raise core.Unsupported('symbolic index')
    lo, hi = core.bits_range(i.p)
    if hi - lo > 40:
        raise core.Unsupported('symbolic index')
    return list(range(lo, hi + 1))


def split_index(i):
    """(symbolic scalar inside an index, function giving the index with that scalar replaced) or None"""
    if isinstance(i, np.ndarray) and i.ndim == 0 and i.dtype == object:
        i = i.item()
    if isinstance(i, (Sym, SBool)):
        return i, lambda v: v
    if isinstance(i, (tuple, list)):
        for k, x in enumerate(i):
            r = split_index(x)
            if r:
                return r[0], lambda v: type(i)(list(i[:k]) + [r[1](v)] + list(i[k + 1:]))
    if isinstance(i, slice):
        for k, x in enumerate((i.start, i.stop, i.step)):
            r = split_index(x)
            if r:
                a = [i.start, i.stop, i.step]
                return r[0], lambda v: slice(*(a[:k] + [r[1](v)] + a[k + 1:]))
    return None


def get_(o, i):
    if isinstance(o, dict):
        if symbolic(i):
            return choose([(z_eq(i, k), lambda v=v: v) for k, v in o.items()], KeyError(i))
        return o[i]
    if isinstance(o, (str, list, tuple, np.ndarray, range)):
        r = split_index(i)
        if r is not None:
            s, f = r
            vals = values_of(s)
            if isinstance(s, SBool) and isinstance(o, np.ndarray) and i is s:
                raise core.Unsupported('boolean mask')
            if isinstance(o, (str, list, tuple, range)) and not isinstance(i, slice):
                vals = [v for v in vals if -len(o) <= v < len(o)]
            return choose([(z_eq(s, v), lambda v=v: get_(o, f(v))) for v in vals], IndexError('index out of range'))
        if isinstance(o, PChar):
            return o[i]
    return o[i]


def int_(x=0, *a):
    if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
        x = x.item()
    if isinstance(x, SBool):
        return x.as_sym()
    if isinstance(x, Sym) and _allbits(x.p):
        return x
    return int(x, *a)


def bool_(x=False):
    c = as_cond(x)
    return bool(x) if c is None else c


def any_(it):
    r = []
    for v in it:
        c = as_cond(v)
        if c is None:
            c = bool(v)
        if c is True:
            return True
        if c is not False:
            if z3.is_true(c.e):
                return True
            r.append(c.e)
    return z_or(r)


def all_(it):
    r = []
    for v in it:
        c = as_cond(v)
        if c is None:
            c = bool(v)
        if c is False:
            return False
        if c is not True:
            if z3.is_false(c.e):
                return False
            r.append(z3.Not(c.e))
    return not_(z_or(r))


def meth(o, name, *args):
    """methods of dictionaries, lists and strings with symbolic arguments or elements"""
    if name == 'join' and isinstance(o, str) and len(args) == 1:
        xs = list(args[0])
        if any(isinstance(x, (PChar, PStr)) for x in xs) or isinstance(o, PStr):
            cs = []
            for k, x in enumerate(xs):
                if k:
                    cs += chars(o)
                cs += chars(x)
            return PStr(cs)
        return o.join(xs)
    if name == 'get' and isinstance(o, dict) and args and symbolic(args[0]):
        d = args[1] if len(args) > 1 else None
        c = in_(args[0], o)
        if c is False:
            return d
        if c is True or decide(c.e):
            return get_(o, args[0])
        if decide(c.e) is False:
            return d
        GUARDS.append((c.e, 'get'))
        try:
            v = get_(o, args[0])
        finally:
            if GUARDS:
                GUARDS.pop()
        return pick([(c.e, v), (z3.Not(c.e), d)])
    if name in ('index', 'find') and isinstance(o, (list, tuple, str)) and len(args) == 1 and (symbolic(args[0]) or symbolic(o)):
        if not isinstance(o, str) or len(chars(args[0])) == 1:
            seq = chars(o) if isinstance(o, str) else o
            cands, before = [], []
            for k, v in enumerate(seq):
                c = z_eq(args[0], v)
                if c is False:
                    continue
                cz = z3.BoolVal(True) if c is True else c
                cands.append((z3.And(cz, *[z3.Not(b) for b in before]) if before else cz, lambda k=k: k))
                before.append(cz)
                if c is True:
                    break
            if name == 'find':
                cands.append((z3.And(*[z3.Not(b) for b in before]) if before else True, lambda: -1))
            return choose(cands, ValueError('substring not found'))
    if name == 'count' and isinstance(o, (list, tuple)) and len(args) == 1 and (symbolic(args[0]) or symbolic(o)):
        r = 0
        for v in o:
            c = z_eq(args[0], v)
            r = r + (int(c) if isinstance(c, bool) else SBool(c).as_sym())
        return r
    if name == 'count' and type(o) is str and isinstance(args[0], PChar):
        return meth(list(o), 'count', *args)
    return getattr(o, name)(*args)


OPS = {k: (getattr(operator, k), getattr(operator, 'i' + k)) for k in
       ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'xor', 'matmul', 'lshift', 'rshift')}
OPS['and'] = (operator.and_, operator.iand)
OPS['or'] = (operator.or_, operator.ior)


def aug(op, a, b):
    """a op= b; without side effect on a inside a merged branch"""
    f, g = OPS[op]
    if GUARDS and isinstance(a, np.ndarray):
        set_(a, Ellipsis, f(a, b))
        return a
    if GUARDS and isinstance(a, list):
        return f(a, list(b))
    return g(a, b)


def append_(x, v):
    if GUARDS and isinstance(x, list):
        return x + [v]
    x.append(v)
    return x


def extend_(x, v):
    if GUARDS and isinstance(x, list):
        return x + list(v)
    x.extend(v)
    return x


# -- the transformation ---------------------------------------------------------------------------
def walk_same(s):
    """nodes of a statement without those of nested functions"""
    yield s
    if isinstance(s, FN):
        return
    for c in ast.iter_child_nodes(s):
        yield from walk_same(c)


def ends(b):
    """every way through the statements returns, raises, breaks or continues"""
    if not b:
        return False
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(s, ast.If) and ends(s.body) and ends(s.orelse)


def no_continue(b):
    """loop body in which an if that ends in continue has the rest of the body as its other side"""
    for k, s in enumerate(b):
        if isinstance(s, ast.Continue):
            return b[:k] or [ast.Pass()]
        if isinstance(s, ast.If) and any(isinstance(n, ast.Continue) for n in walk_loop(s)):
            if b[k + 1:] and not (ends(s.body) or ends(s.orelse)):
                return b
            rest = b[k + 1:]
            x, y = (s.body if ends(s.body) else s.body + rest), (s.orelse if ends(s.orelse) else s.orelse + rest)
            return b[:k] + [ast.copy_location(ast.If(s.test, no_continue(x), no_continue(y)), s)]
    return b


def walk_loop(s):
    """nodes of a statement without those of nested functions and loops"""
    yield s
    if isinstance(s, FN + (ast.For, ast.While)):
        return
    for c in ast.iter_child_nodes(s):
        yield from walk_loop(c)


FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def abrupt(stmts, loop=False):
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise, ast.Try, ast.While, ast.Delete, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)
                      + FN):
            return True
        if isinstance(s, (ast.Break, ast.Continue)) and not loop:
            return True
        if isinstance(s, ast.If) and (abrupt(s.body, loop) or abrupt(s.orelse, loop)):
            return True
        if isinstance(s, ast.For) and (abrupt(s.body, True) or abrupt(s.orelse, loop)):
            return True
        if isinstance(s, ast.With) and abrupt(s.body, loop):
            return True
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                return True
    return False


def abrupt_hard(stmts, loop=False):
    """statements after which merging is impossible even when the abrupt part is infeasible or conditional"""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise, ast.Try, ast.While, ast.Delete, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)
                      + FN):
            return True
        if isinstance(s, (ast.Break, ast.Continue)) and not loop:
            return True
        if isinstance(s, ast.For) and (abrupt_hard(s.body, True) or abrupt_hard(s.orelse, loop)):
            return True
        if isinstance(s, ast.With) and abrupt_hard(s.body, loop):
            return True
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                return True
    return False


def assigned(stmts):
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
    # names bound inside comprehensions are local to them
    comp = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    for m in ast.walk(g.target):
                        if isinstance(m, ast.Name):
                            comp.add(m.id)
    plain = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    for m in ast.walk(t):
                        if isinstance(m, ast.Name):
                            plain.add(m.id)
            if isinstance(n, ast.withitem) and n.optional_vars is not None:
                for m in ast.walk(n.optional_vars):
                    if isinstance(m, ast.Name):
                        plain.add(m.id)
    return [n for n in out if n in plain or n not in comp]


def call(f, *args):
    return ast.Call(ast.Name('symx__' + f, ast.Load()), list(args), [])


def lam(e):
    return ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), e)


OPN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
       ast.BitXor: 'xor', ast.BitAnd: 'and', ast.BitOr: 'or', ast.MatMult: 'matmul', ast.LShift: 'lshift', ast.RShift: 'rshift'}


def slices(sl):
    """index expression as a value"""
    def conv(e):
        if isinstance(e, ast.Slice):
            n = ast.Constant(None)
            return ast.Call(ast.Name('symx__slice', ast.Load()), [e.lower or n, e.upper or n, e.step or n], [])
        if isinstance(e, ast.Tuple):
            return ast.Tuple([conv(x) for x in e.elts], ast.Load())
        return e
    return conv(sl)


class Exprs(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        f = 'and' if isinstance(n.op, ast.And) else 'or'
        e = n.values[-1]
        for v in reversed(n.values[:-1]):
            e = call(f, v, lam(e))
        return e

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        return call('not', n.operand) if isinstance(n.op, ast.Not) else n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return call('ifexp', n.test, lam(n.body), lam(n.orelse))

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        return call('get', n.value, slices(n.slice))

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ('any', 'all', 'sum', 'len') and len(n.args) == 1 and not n.keywords \
                and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and (f.id != 'len' or n.args[0].generators[-1].ifs):
            g = n.args[0]
            last = g.generators[-1]
            if last.ifs:
                c = last.ifs[0] if len(last.ifs) == 1 else ast.BoolOp(ast.And(), last.ifs)
                last.ifs = []
                if f.id == 'any':
                    g.elt = ast.BoolOp(ast.And(), [c, g.elt])
                elif f.id == 'all':
                    g.elt = ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), c), g.elt])
                else:
                    g.elt = ast.IfExp(c, g.elt if f.id == 'sum' else ast.Constant(1), ast.Constant(0))
                    n.func = f = ast.Name('sum', ast.Load())
            if isinstance(g, ast.GeneratorExp):     # a list comprehension needs no generator frame
                n.args[0] = ast.ListComp(g.elt, g.generators) if f.id == 'sum' else g
        self.generic_visit(n)
        plain = not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args)
        if isinstance(f, ast.Name) and plain and f.id in ('int', 'bool', 'any', 'all'):
            return call(f.id, *n.args)
        if isinstance(f, ast.Attribute) and plain and f.attr in ('join', 'get', 'index', 'find', 'count') and n.args:
            return call('meth', f.value, ast.Constant(f.attr), *n.args)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.ifs = [call('fork', c, ast.Constant('comprehension')) for c in n.ifs]
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            if isinstance(n.ops[0], ast.In):
                return call('in', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                return call('notin', n.left, n.comparators[0])
            return n
        if not all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.UnaryOp)) for x in n.comparators[:-1]):
            return n
        parts = []
        left = n.left
        for o, r in zip(n.ops, n.comparators):
            parts.append(self.visit_Compare(ast.Compare(left, [o], [r])) if isinstance(o, (ast.In, ast.NotIn))
                         else ast.Compare(left, [o], [r]))
            left = r
        e = parts[-1]
        for v in reversed(parts[:-1]):
            e = call('and', v, lam(e))
        return e


class Trans:
    def __init__(self, fname):
        self.fname = fname
        self.k = 0

    def new(self):
        self.k += 1
        return 'symx__b%d' % self.k

    def function(self, fn):
        args = fn.args
        self.locals = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs} | set(assigned(fn.body))
        gl = {n for s in ast.walk(fn) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
        self.locals -= gl
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))
        body = fn.body
        if not gen:
            tail = self.tail(body)
            if tail is not None:
                body = tail + [ast.Return(ast.Name('symx__ret', ast.Load()))]
        fn.body = self.block(body)
        return fn

    def tail(self, body):
        """single-exit form of a function whose returns are in (nested) ifs, None when there are others"""
        def has(b):
            return any(isinstance(n, ast.Return) for s in b for n in walk_same(s))

        def conv(b, last):
            """last: value returned when the end of b is reached (None: unknown)"""
            for k, s in enumerate(b):
                if isinstance(s, ast.Return):
                    return b[:k] + [ast.copy_location(ast.Assign([ast.Name('symx__ret', ast.Store())], s.value or ast.Constant(None)), s)]
                if isinstance(s, ast.Raise):
                    return b[:k + 1]
                if not has([s]):
                    continue
                if not isinstance(s, ast.If):
                    return None
                rest = b[k + 1:]
                x = conv(s.body + ([] if ends(s.body) else rest), last)
                y = conv(s.orelse + ([] if ends(s.orelse) else copy.deepcopy(rest)), last)
                if x is None or y is None:
                    return None
                return b[:k] + [ast.copy_location(ast.If(s.test, x, y), s)]
            return b + [ast.Assign([ast.Name('symx__ret', ast.Store())], ast.Constant(None))]

        if not has(body) or sum(isinstance(n, ast.Return) for s in body for n in walk_same(s)) > 12:
            return None
        if isinstance(body[-1], ast.Return) and not has(body[:-1]):
            return None
        return conv(body, None)

    def block(self, stmts):
        out = []
        for s in stmts:
            out += self.stmt(s)
        return out

    def exprs(self, s):
        return Exprs().visit(s)

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            t = Trans(self.fname)
            t.k = self.k + 1000
            t.function(s)
            return [s]
        if isinstance(s, ast.ClassDef):
            s.body = self.block(s.body)
            return [s]
        if isinstance(s, ast.If):
            return self.if_(s)
        if isinstance(s, ast.Match):
            return self.match(s)
        if isinstance(s, ast.For):
            s.iter = self.exprs(s.iter)
            s.body = no_continue(s.body)
            s.body, s.orelse = self.block(s.body), self.block(s.orelse)
            return [s]
        if isinstance(s, ast.While):
            s.test = call('fork', self.exprs(s.test), ast.Constant('%s:%d' % (self.fname, s.lineno)))
            s.body, s.orelse = self.block(s.body), self.block(s.orelse)
            return [s]
        if isinstance(s, ast.With):
            s.items = [self.exprs(i) for i in s.items]
            s.body = self.block(s.body)
            return [s]
        if isinstance(s, ast.Try):
            s.body, s.orelse, s.finalbody = self.block(s.body), self.block(s.orelse), self.block(s.finalbody)
            for h in s.handlers:
                h.body = self.block(h.body)
            return [s]
        if isinstance(s, ast.Assert):
            s.test = call('fork', self.exprs(s.test), ast.Constant('%s:%d' % (self.fname, s.lineno)))
            return [s]
        s = self.exprs(s)
        if isinstance(s, ast.Assign):
            return self.assign(s)
        if isinstance(s, ast.AugAssign):
            op = ast.Constant(OPN[type(s.op)])
            t = s.target
            if isinstance(t, ast.Name):
                return [ast.Assign([t], call('aug', op, ast.Name(t.id, ast.Load()), s.value))]
            if isinstance(t, ast.Subscript):
                a, b = self.new(), self.new()
                return [ast.Assign([ast.Name(a, ast.Store())], t.value), ast.Assign([ast.Name(b, ast.Store())], self.idx(t.slice)),
                        ast.Expr(call('set', ast.Name(a, ast.Load()), ast.Name(b, ast.Load()),
                                      call('aug', op, ast.Subscript(ast.Name(a, ast.Load()), ast.Name(b, ast.Load()), ast.Load()), s.value)))]
            if isinstance(t, ast.Attribute):
                a = self.new()
                return [ast.Assign([ast.Name(a, ast.Store())], t.value),
                        ast.Expr(call('setattr', ast.Name(a, ast.Load()), ast.Constant(t.attr),
                                      call('aug', op, ast.Attribute(ast.Name(a, ast.Load()), t.attr, ast.Load()), s.value)))]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and s.value.func.attr in ('append', 'extend') and isinstance(s.value.func.value, ast.Name) \
                and s.value.func.value.id in getattr(self, 'locals', ()) and len(s.value.args) == 1 and not s.value.keywords:
            n = s.value.func.value.id
            return [ast.Assign([ast.Name(n, ast.Store())], call(s.value.func.attr, ast.Name(n, ast.Load()), s.value.args[0]))]
        return [s]

    def idx(self, sl):
        return slices(sl)

    def match(self, s):
        """match over constants as an if chain"""
        def cond(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(ast.Name(v, ast.Load()), [ast.Eq()], [p.value])
            if isinstance(p, ast.MatchOr):
                cs = [cond(q) for q in p.patterns]
                return None if any(c is None for c in cs) else ast.BoolOp(ast.Or(), cs)
            if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                return ast.Constant(True)
            if isinstance(p, ast.MatchSequence):
                cs = []
                for k, q in enumerate(p.patterns):
                    if not isinstance(q, ast.MatchValue):
                        return None
                    cs.append(ast.Compare(ast.Subscript(ast.Name(v, ast.Load()), ast.Constant(k), ast.Load()), [ast.Eq()], [q.value]))
                return ast.BoolOp(ast.And(), cs) if len(cs) > 1 else None
            return None
        v = self.new()
        cs = [cond(c.pattern) for c in s.cases]
        if any(c is None for c in cs) or any(c.guard for c in s.cases):
            for c in s.cases:
                c.body = self.block(c.body)
            s.subject = self.exprs(s.subject)
            return [s]
        chain = []
        for c, t in reversed(list(zip(s.cases, cs))):
            chain = [ast.copy_location(ast.If(t, c.body, chain), s)]
        return [ast.Assign([ast.Name(v, ast.Store())], self.exprs(s.subject))] + self.block(chain)

    def assign(self, s):
        hard = [t for t in s.targets for n in ast.walk(t) if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store)]
        if not hard or not getattr(self, 'locals', None):
            return [s]
        v = self.new()
        out = [ast.Assign([ast.Name(v, ast.Store())], s.value)]

        def store(t, e):
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(call('set', t.value, self.idx(t.slice), e)))
            elif isinstance(t, ast.Attribute):
                out.append(ast.Expr(call('setattr', t.value, ast.Constant(t.attr), e)))
            elif isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
                w = self.new()
                out.append(ast.Assign([ast.Name(w, ast.Store())], ast.Call(ast.Name('symx__tuple', ast.Load()), [e], [])))
                for i, x in enumerate(t.elts):
                    store(x, ast.Subscript(ast.Name(w, ast.Load()), ast.Constant(i), ast.Load()))
            else:
                out.append(ast.Assign([t], e))
        for t in s.targets:
            store(t, ast.Name(v, ast.Load()))
        return out

    def if_(self, s):
        site = ast.Constant('%s:%d' % (self.fname, s.lineno))
        test = self.exprs(s.test)
        if getattr(self, 'locals', None) is None:       # module or class level
            s.body, s.orelse = self.block(s.body), self.block(s.orelse)
            return [s]
        if abrupt_hard(s.body) or abrupt_hard(s.orelse):
            return [ast.If(call('fork', test, site), self.block(s.body), self.block(s.orelse))]
        body, orelse = self.block(s.body), self.block(s.orelse)
        names = [n for n in assigned(body + orelse) if not n.startswith('symx__b')]
        b = self.new()
        bl = lambda: ast.Name(b, ast.Load())
        loc = lambda: ast.Call(ast.Name('symx__locals', ast.Load()), [], [])
        tgt = lambda: [ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())]
        m = lambda f, *a: ast.Call(ast.Attribute(bl(), f, ast.Load()), list(a), [])

        def upd(f):
            if names:
                return ast.Assign(tgt(), m(f, loc()))
            return ast.Expr(m(f, loc()))
        return [ast.Assign([ast.Name(b, ast.Store())], call('if', test, site, loc(), ast.Tuple([ast.Constant(n) for n in names], ast.Load()))),
                ast.If(m('then'), body, []), upd('mid'), ast.If(m('els'), orelse or [ast.Pass()], []), upd('end')]


HELP = {'symx__if': Branch, 'symx__fork': fork, 'symx__and': and_, 'symx__or': or_, 'symx__not': not_, 'symx__ifexp': ifexp,
        'symx__set': set_, 'symx__setattr': setattr_, 'symx__aug': aug, 'symx__append': append_, 'symx__extend': extend_,
        'symx__slice': slice, 'symx__tuple': tuple, 'symx__in': in_, 'symx__notin': notin_, 'symx__get': get_, 'symx__int': int_,
        'symx__bool': bool_, 'symx__any': any_, 'symx__all': all_, 'symx__meth': meth}


def transform(src, fname):
    tree = ast.parse(src, fname)
    t = Trans(os.path.basename(fname))
    tree.body = t.block(tree.body)
    return ast.fix_missing_locations(tree)


def install(modname):
    """replace the functions and classes of an imported module by their merging versions (symbolic process only)"""
    m = sys.modules[modname]
    src = open(m.__file__).read()
    code = compile(transform(src, m.__file__), m.__file__, 'exec')
    old = dict(m.__dict__)
    m.__dict__.update(HELP)
    m.__dict__['print'] = lambda *a, **k: None     # printing has no effect on results and would ask for every symbolic letter
    m.__dict__['symx__locals'] = locals      # the builtin reads the frame of its caller
    exec(code, m.__dict__)
    for name, v in old.items():
        nv = m.__dict__.get(name)
        if nv is not v and isinstance(v, (type, type(install))):
            for mm in list(sys.modules.values()):
                if mm is not m and getattr(mm, '__name__', '').startswith('PyQCodes') and getattr(mm, name, None) is v:
                    setattr(mm, name, nv)
