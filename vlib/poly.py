"""Canonical polynomials over atoms (integer or real unknowns), path conditions over them, and their Z3 form."""
from fractions import Fraction
import time
import z3

ZERO = Fraction(0)


class Atoms:
    """All unknowns of one execution. An atom is a Z3 expression with an initial interval."""

    def __init__(self):
        self.z3 = []
        self.is_int = []
        self.lo = []
        self.hi = []
        self.names = []
        self.side = []          # per atom: defining constraints (Z3 BoolRef list), added to every query that mentions it
        self.deps = []          # atoms mentioned by the definition
        self.cache = {}
        self.zcache = {}

    def new(self, name, is_int, lo=None, hi=None, expr=None, side=None, deps=()):
        i = len(self.z3)
        if expr is None:
            expr = z3.Int('%s!%d' % (name, i)) if is_int else z3.Real('%s!%d' % (name, i))
        self.z3.append(expr)
        self.is_int.append(is_int)
        self.lo.append(lo)
        self.hi.append(hi)
        self.names.append(name)
        self.side.append(side or [])
        self.deps.append(tuple(deps))
        return i


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    return tuple(sorted(a + b))


class Poly:
    __slots__ = ('t', '_k')

    def __init__(self, t):
        self.t = t
        self._k = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(i):
        return Poly({(i,): 1})

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def cval(self):
        return self.t.get((), 0)

    def add(self, o):
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def sub(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = -c
            else:
                v = v - c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def addc(self, c):
        if not c:
            return self
        r = dict(self.t)
        v = r.get((), 0) + c
        if v:
            r[()] = v
        else:
            r.pop((), None)
        return Poly(r)

    def scale(self, c):
        if c == 1:
            return self
        if not c:
            return Poly({})
        return Poly({m: v * c for m, v in self.t.items()})

    def mul(self, o):
        if o.is_const():
            return self.scale(o.cval())
        if self.is_const():
            return o.scale(self.cval())
        r = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mono_mul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return Poly(r)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def single(self):
        """(atom, coefficient, constant) when linear in one atom"""
        t = self.t
        if len(t) == 1:
            (m, c), = t.items()
            if len(m) == 1:
                return m[0], c, 0
        elif len(t) == 2 and () in t:
            for m, c in t.items():
                if len(m) == 1:
                    return m[0], c, t[()]
                if len(m) > 1:
                    return None
        return None

    def __repr__(self):
        return 'Poly(%r)' % (self.t,)


def zconst(c, is_int):
    if is_int:
        return z3.IntVal(int(c))
    if isinstance(c, Fraction):
        return z3.RealVal('%d/%d' % (c.numerator, c.denominator))
    return z3.RealVal(int(c))


def poly_z3(A, p):
    """Z3 term; an integer term when every atom and coefficient is an integer, a real one otherwise"""
    k = p.key()
    r = A.zcache.get(k)
    if r is not None:
        return r
    is_int = all(A.is_int[a] for m in p.t for a in m) and all(not isinstance(c, Fraction) or c.denominator == 1 for c in p.t.values())
    terms = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        f = []
        for a in m:
            e = A.z3[a]
            if not is_int and A.is_int[a]:
                e = z3.ToReal(e)
            f.append(e)
        if c != 1 or not f:
            f.insert(0, zconst(c, is_int))
        e = f[0]
        for x in f[1:]:
            e = e * x
        terms.append(e)
    if not terms:
        r = zconst(0, is_int)
    elif len(terms) == 1:
        r = terms[0]
    else:
        r = z3.Sum(terms)
    A.zcache[k] = r
    return r


class Rel:
    """poly <op> 0 with op one of le, lt, eq, ne"""
    __slots__ = ('p', 'op')

    def __init__(self, p, op):
        self.p = p
        self.op = op

    def neg(self):
        if self.op == 'le':
            return Rel(self.p.neg(), 'lt')
        if self.op == 'lt':
            return Rel(self.p.neg(), 'le')
        return Rel(self.p, 'ne' if self.op == 'eq' else 'eq')

    def key(self):
        return (self.op, self.p.key())

    def atoms(self):
        return self.p.atoms()

    def z3(self, A):
        e = poly_z3(A, self.p)
        if self.op == 'le':
            return e <= 0
        if self.op == 'lt':
            return e < 0
        if self.op == 'eq':
            return e == 0
        return e != 0

    def __repr__(self):
        return '%s %s 0' % (self.p, self.op)


class ZC:
    """any other condition, as a Z3 expression over the atoms given"""
    __slots__ = ('e', 'a')

    keep = []               # keeps the expressions alive, their identifiers are used as keys

    def __init__(self, e, a):
        self.e = e
        self.a = frozenset(a)
        ZC.keep.append(e)

    def neg(self):
        return ZC(z3.Not(self.e), self.a)

    def key(self):
        return ('z', self.e.get_id())

    def atoms(self):
        return self.a

    def z3(self, A):
        return self.e


def imul(a, b):
    """product of intervals, None = unbounded"""
    if a == (0, 0) or b == (0, 0):
        return (0, 0)
    if None in a or None in b:
        if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
            return (a[0] * b[0], None)
        return (None, None)
    c = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return (min(c), max(c))


class Path:
    """Path condition: intervals for single-atom constraints, everything else as a list."""

    def __init__(self, A):
        self.A = A
        self.dom = {}           # atom -> [lo, lo_strict, hi, hi_strict]
        self.cons = []          # Rel / ZC
        self.linked = set()
        self.known = {}
        self.model = None

    def clone(self):
        p = Path.__new__(Path)
        p.A = self.A
        p.dom = dict(self.dom)
        p.cons = list(self.cons)
        p.linked = set(self.linked)
        p.known = dict(self.known)
        p.model = self.model
        return p

    def atom_range(self, a):
        d = self.dom.get(a)
        if d is None:
            return (self.A.lo[a], self.A.hi[a])
        return (d[0], d[2])

    def range(self, p):
        lo, hi = 0, 0
        for m, c in p.t.items():
            if not m:
                if lo is not None:
                    lo += c
                if hi is not None:
                    hi += c
                continue
            if len(m) == 1:
                l, h = self.atom_range(m[0])
            else:
                l, h = 1, 1
                i = 0
                while i < len(m):
                    j = i
                    while j < len(m) and m[j] == m[i]:
                        j += 1
                    al, ah = self.atom_range(m[i])
                    n = j - i
                    if n % 2 == 0:
                        q = n
                        if al is None or ah is None:
                            al, ah = 0, None
                        else:
                            cand = (abs(al), abs(ah))
                            nl = 0 if al <= 0 <= ah else min(cand)
                            al, ah = nl ** q, max(cand) ** q
                        l, h = imul((l, h), (al, ah))
                    else:
                        for _ in range(n):
                            l, h = imul((l, h), (al, ah))
                    i = j
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + l * c
            hi = None if hi is None or h is None else hi + h * c
            if lo is None and hi is None:
                return (None, None)
        return (lo, hi)

    def quick(self, c):
        """True/False/None by intervals"""
        if c.__class__ is bool:
            return c
        if c.__class__ is not Rel:
            k = self.known.get(c.key())
            return k
        p = c.p
        op = c.op
        if p.is_const():
            v = p.cval()
            return v <= 0 if op == 'le' else v < 0 if op == 'lt' else v == 0 if op == 'eq' else v != 0
        lo, hi = self.range(p)
        if op == 'le' or op == 'lt':
            if hi is not None and (hi < 0 or (hi == 0 and op == 'le')):
                return True
            if lo is not None and (lo > 0 or (lo == 0 and op == 'lt')):
                return False
            s = p.single()
            if s and (lo == 0 or hi == 0):
                # strict bounds
                d = self.dom.get(s[0])
                if d:
                    lo_strict, hi_strict = (d[1], d[3]) if s[1] > 0 else (d[3], d[1])
                    if op == 'lt' and hi == 0 and hi_strict:
                        return True
                    if op == 'le' and lo == 0 and lo_strict:
                        return False
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return op == 'ne'
            if lo == 0 and hi == 0:
                return op == 'eq'
        return self.known.get(c.key())

    def add(self, c):
        """assume c; returns False if the intervals show it infeasible"""
        if c.__class__ is bool:
            return c
        self.known[c.key()] = True
        self.known[c.neg().key()] = False
        if c.__class__ is Rel and c.op != 'ne':
            s = c.p.single()
            if s:
                return self._box(s, c.op)
        self.cons.append(c)
        for a in c.atoms():
            self._link(a)
        return True

    def _link(self, a):
        if a not in self.linked:
            self.linked.add(a)
            for b in self.A.deps[a]:
                self._link(b)

    def _box(self, s, op):
        a, k, d = s
        A = self.A
        bound = Fraction(-d) / k if not (isinstance(k, int) and isinstance(d, int) and d % k == 0) else -d // k
        is_int = A.is_int[a]
        cur = self.dom.get(a)
        lo, ls, hi, hs = cur if cur else (A.lo[a], False, A.hi[a], False)
        strict = op == 'lt'
        if op == 'eq' or k > 0:
            b, st = bound, strict
            if is_int:
                if Fraction(b).denominator != 1:
                    if op == 'eq':
                        return False
                    b, st = b.numerator // b.denominator, False
                elif st:
                    b, st = int(b) - 1, False
                else:
                    b = int(b)
            if hi is None or b < hi or (b == hi and st):
                hi, hs = b, st
        if op == 'eq' or k < 0:
            b, st = bound, strict
            if is_int:
                if Fraction(b).denominator != 1:
                    b, st = -((-b.numerator) // b.denominator), False
                elif st:
                    b, st = int(b) + 1, False
                else:
                    b = int(b)
            if lo is None or b > lo or (b == lo and st):
                lo, ls = b, st
        self.dom[a] = (lo, ls, hi, hs)
        if self.A.deps[a] or self.A.side[a]:
            self._link(a)
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))):
            return False
        return True

    def closure(self, atoms):
        """atoms, the atoms they are defined from, and those connected to them by constraints"""
        A = self.A
        seen = set()
        todo = list(atoms)
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            todo.extend(A.deps[a])
        return seen

    def split(self):
        """(conditions, definitions) of the path"""
        A = self.A
        out = [c.z3(A) for c in self.cons]
        used = set()
        for c in self.cons:
            used |= set(c.atoms())
        for a, (lo, ls, hi, hs) in self.dom.items():
            e, is_int = A.z3[a], A.is_int[a]
            if lo is not None and (lo != A.lo[a] or ls):
                out.append(e > zconst(lo, is_int) if ls else e >= zconst(lo, is_int))
            if hi is not None and (hi != A.hi[a] or hs):
                out.append(e < zconst(hi, is_int) if hs else e <= zconst(hi, is_int))
            used.add(a)
        return out, self.closure(used)

    def formula(self, extra=()):
        """Z3 formulas of the path condition (relevant atoms only for definitions)"""
        A = self.A
        out = []
        used = set()
        for c in list(self.cons) + [x for x in extra if x.__class__ is not bool]:
            out.append(c.z3(A))
            used |= set(c.atoms())
        for x in extra:
            if x is False:
                out.append(z3.BoolVal(False))
        used |= set(self.dom)
        for a in sorted(self.closure(used)):
            out += A.side[a]
            lo, ls, hi, hs = self.dom.get(a) or (A.lo[a], False, A.hi[a], False)
            e = A.z3[a]
            is_int = A.is_int[a]
            if lo is not None:
                out.append(e > zconst(lo, is_int) if ls else e >= zconst(lo, is_int))
            if hi is not None:
                out.append(e < zconst(hi, is_int) if hs else e <= zconst(hi, is_int))
        return out


class Solver:
    def __init__(self, timeout_ms=60000, tactic=None):
        self.queries = 0
        self.seconds = 0.0
        self.timeout_ms = timeout_ms
        self.fast = 0           # decided by intervals or equal polynomials
        self.tactic = tactic

    def check(self, formulas, timeout_ms=None):
        """'sat' with a model, 'unsat' or 'unknown'; other solver strategies are tried before giving up"""
        total = timeout_ms or self.timeout_ms
        formulas = list(formulas)
        self.queries += 1
        plan = [(self.tactic, total)] if timeout_ms else [(self.tactic, total // 4), ('smt', total // 4), ('qfnra-nlsat', total // 4), (self.tactic, total)]
        reason = None
        for tactic, limit in plan:
            s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
            s.set('timeout', limit)
            for f in formulas:
                s.add(f)
            t = time.time()
            try:
                r = s.check()
            except z3.Z3Exception as e:
                r, reason = z3.unknown, str(e)
            self.seconds += time.time() - t
            if r == z3.sat:
                return 'sat', s.model()
            if r == z3.unsat:
                return 'unsat', None
            reason = reason or s.reason_unknown()
        return 'unknown', reason
