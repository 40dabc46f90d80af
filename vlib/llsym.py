"""Engine B: symbolic execution of LLVM IR, made by clang from the real C (headers, and code the generators wrote) plus a harness.

Integers are exact (mathematical integers with intervals, wrapped where C wraps; signed overflow, bad shifts, division by zero and
out-of-range conversions are violations). Concrete floats are bit exact. Symbolic floats are either real numbers (rounding is not
modelled; libm functions are uninterpreted), or, for inputs marked as ordered keys, exact floats on which only comparisons happen.
Every branch on symbolic data is decided under the path condition, both ways if both are feasible."""
import math
import os
import struct
import subprocess
import time
from fractions import Fraction

import z3

from . import core, llir
from .core import CheckError
from .llir import Reg, Glob, C, NULL, UNDEFC, ZEROINIT, sign
from .poly import Atoms, Poly, Rel, ZC, Path, Solver, poly_z3, zconst

HARNESS = os.path.join(core.VERIF, 'harness')


class Unsupported(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, text, cond=None):
        Exception.__init__(self, '%s: %s' % (kind, text))
        self.kind = kind
        self.text = text
        self.cond = cond        # the violating condition (None: the whole path)


class Infeasible(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


NULLP = Ptr(0, 0)


class IV:
    """symbolic integer: equal to p modulo 2**width of its type"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'IV(%r)' % (self.p,)


class BV:
    """symbolic truth value (as i1, or extended to a wider integer 0/1)"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class RV:
    """symbolic real"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class FK:
    """exact symbolic float (not NaN), known only by its position in the order of floats (of float or double precision)"""
    __slots__ = ('p', 'prec')

    def __init__(self, p, prec):
        self.p = p
        self.prec = prec


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fkey(x, prec):
    """order key of a float constant; both zeros are 0"""
    if prec == 32:
        b = struct.unpack('<I', struct.pack('<f', x))[0]
        m = b & 0x7fffffff
        return -m if b >> 31 else m
    b = struct.unpack('<Q', struct.pack('<d', x))[0]
    m = b & 0x7fffffffffffffff
    return -m if b >> 63 else m


def fkey_to_bits(k, prec):
    return (-k) | (1 << (prec - 1)) if k < 0 else k


class Obj:
    __slots__ = ('size', 'cells', 'owner', 'name', 'const', 'alive', 'heap')

    def __init__(self, size, name, owner, const=False, heap=False):
        self.size = size
        self.cells = {}
        self.owner = owner
        self.name = name
        self.const = const
        self.alive = True
        self.heap = heap

    def copy(self, owner):
        o = Obj.__new__(Obj)
        o.size = self.size
        o.cells = dict(self.cells)
        o.owner = owner
        o.name = self.name
        o.const = self.const
        o.alive = self.alive
        o.heap = self.heap
        return o


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'regs', 'dst', 'allocas', 'label')

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.block = self.block
        f.idx = self.idx
        f.regs = dict(self.regs)
        f.dst = self.dst
        f.allocas = list(self.allocas)
        f.label = self.label
        return f


class State:
    n = 0

    def __init__(self, A):
        self.path = Path(A)
        self.mem = {}
        self.stack = []
        self.steps = 0
        self.inputs = []
        self.reached = []
        State.n += 1
        self.id = State.n
        self.asserted = 0

    def clone(self):
        s = State.__new__(State)
        s.path = self.path.clone()
        s.mem = dict(self.mem)
        s.stack = [f.clone() for f in self.stack]
        s.steps = self.steps
        s.inputs = list(self.inputs)
        s.reached = list(self.reached)
        State.n += 1
        s.id = State.n
        # objects are shared now: neither may write them in place
        State.n += 1
        self.id = State.n
        s.asserted = self.asserted
        return s


class Exec:
    def __init__(self, module, max_steps=3000000, timeout_ms=60000, max_paths=200000, time_limit=600, tactic=None):
        self.m = module
        self.A = Atoms()
        self.solver = Solver(timeout_ms, tactic)
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.work = []
        self.funcs_run = set()
        self.violations = []    # (kind, text, model inputs, where)
        self.violating = 0
        self.paths = 0
        self.infeasible = 0
        self.asserts = 0
        self.fast_asserts = 0
        self.reached = {}
        self.witness = []
        self.total_steps = 0
        self.next_obj = 1
        self.ufs = {}
        self.replace = {}       # calls of one function made calls of another
        self.max_violations = 12
        self.cover = []         # condition of every finished path, and of every input set excluded by an assumption
        self.cover_atoms = set()
        self.exhaustive = None
        self.gobj = {}
        self.init = State(self.A)
        self.hooks = {}
        for n in dir(self):
            if n.startswith('hook_'):
                self.hooks[n[5:]] = getattr(self, n)
        self.ops = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('op_')}
        for n in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            self.ops[n] = self.cast
        for n in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem', 'and', 'or', 'xor'):
            self.ops[n] = self.arith
        for n in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            self.ops[n] = self.farith
        self._globals()
        self._link()

    # ---- setup
    def _globals(self):
        st = self.init
        for name, (ty, v, const) in self.m.globals.items():
            size = self.m.types.size_align(ty)[0] if v is not None else 0
            o = self.alloc(st, size, '@' + name, const=const)
            self.gobj[name] = o
        for name, (ty, v, const) in self.m.globals.items():
            if v is not None:
                self._init(st.mem[self.gobj[name].obj], 0, ty, v)

    def constval(self, ty, v):
        """operand constant -> runtime value"""
        if isinstance(v, Glob):
            if v in self.gobj:
                return self.gobj[v]
            return FnPtr(str(v))
        x = v.v
        if x is NULL or (isinstance(x, tuple) and x == NULL):
            return NULLP
        if isinstance(x, tuple):
            if x == UNDEFC:
                return UNDEF
            rt = self.m.types.resolve(ty)
            if x == ZEROINIT:
                if isinstance(rt, tuple) and rt[0] == 'struct':
                    return [self.constval(e, v) for e in rt[1]]
                if isinstance(rt, tuple) and rt[0] == 'arr':
                    return [self.constval(rt[2], v) for _ in range(rt[1])]
                if rt == 'ptr':
                    return NULLP
                return 0.0 if rt in ('float', 'double') else 0
            if x[0] == 'agg':
                return [self.constval(t, e) for t, e in x[1]]
            if x[0] == 'bytes':
                return list(x[1])
            if x[0] == 'gep':
                base = self.constval(*x[2][0])
                off = 0
                t = x[1]
                for k, (ity, iv) in enumerate(x[2][1:]):
                    i = iv.v
                    if k == 0:
                        off += i * self.m.types.size_align(t)[0]
                    else:
                        t = self.m.types.resolve(t)
                        if t[0] == 'arr':
                            t = t[2]
                            off += i * self.m.types.size_align(t)[0]
                        else:
                            d, t = self.m.types.field(t, i)
                            off += d
                return Ptr(base.obj, base.off + off)
        return x

    def _init(self, o, off, ty, v):
        ty = self.m.types.resolve(ty)
        T = self.m.types
        x = v.v if isinstance(v, C) else None
        if isinstance(ty, tuple) and ty[0] == 'arr':
            es = T.size_align(ty[2])[0]
            if x == ZEROINIT:
                if ty[2] == ('i', 8) or es not in (1, 2, 4, 8):
                    for i in range(ty[1]):
                        self._init(o, off + i * es, ty[2], v)
                else:
                    zero = self.constval(ty[2], v)
                    for i in range(ty[1]):
                        o.cells[off + i * es] = (es, zero)
            elif x == UNDEFC:
                pass
            elif x[0] == 'bytes':
                for i, b in enumerate(x[1]):
                    o.cells[off + i] = (1, sign(b, 8))
            else:
                for i, (t, e) in enumerate(x[1]):
                    self._init(o, off + i * es, t, e)
        elif isinstance(ty, tuple) and ty[0] == 'struct':
            for i, t in enumerate(ty[1]):
                d, _ = T.field(ty, i)
                if x == ZEROINIT or x == UNDEFC:
                    self._init(o, off + d, t, v)
                else:
                    self._init(o, off + d, x[1][i][0], x[1][i][1])
        else:
            val = self.constval(ty, v)
            if val is not UNDEF:
                if ty == 'float':
                    val = f32(val)
                o.cells[off] = (T.size_align(ty)[0], val)

    def _link(self):
        def cv(ty, o):
            if isinstance(o, Reg):
                return o
            v = self.constval(ty, o)
            return C(v)
        for f in self.m.functions.values():
            for lab, ins in f.blocks.items():
                out = []
                for i in ins:
                    op = i[0]
                    if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                        i = (op, i[1], i[2], cv(i[2], i[3]), cv(i[2], i[4])) + i[5:]
                    elif op == 'fneg':
                        i = i[:3] + (cv(i[2], i[3]),)
                    elif op in ('icmp', 'fcmp'):
                        i = i[:4] + (cv(i[3], i[4]), cv(i[3], i[5]))
                    elif op == 'br':
                        i = (op, None, cv(('i', 1), i[2]), i[3], i[4])
                    elif op == 'switch':
                        i = (op, None, i[2], cv(i[2], i[3]), i[4], i[5])
                    elif op == 'ret':
                        i = (op, None, i[2], None if i[3] is None else cv(i[2], i[3]))
                    elif op == 'alloca':
                        i = (op, i[1], i[2], cv(('i', 64), i[3]), self.m.types.size_align(i[2])[0])
                    elif op == 'load':
                        i = (op, i[1], self.m.types.resolve(i[2]), cv('ptr', i[3]))
                    elif op == 'store':
                        i = (op, None, self.m.types.resolve(i[2]), cv(i[2], i[3]), cv('ptr', i[4]))
                    elif op == 'gep':
                        i = self._link_gep(i, cv)
                    elif op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
                        i = i[:3] + (cv(i[2], i[3]),) + i[4:]
                    elif op == 'select':
                        i = (op, i[1], i[2], cv(('i', 1), i[3]), cv(i[2], i[4]), cv(i[2], i[5]))
                    elif op == 'phi':
                        i = (op, i[1], i[2], {k: cv(i[2], v) for k, v in i[3].items()})
                    elif op == 'call':
                        cal = i[3]
                        i = (op, i[1], i[2], str(cal) if isinstance(cal, Glob) else cal, [(t, cv(t, v), b) for t, v, b in i[4]])
                    elif op == 'extractvalue':
                        i = i[:3] + (cv(i[2], i[3]), i[4])
                    elif op == 'insertvalue':
                        i = (op, i[1], i[2], cv(i[2], i[3]), i[4], cv(i[4], i[5]), i[6])
                    out.append(i)
                # float constants of type float
                f.blocks[lab] = out

    def _link_gep(self, i, cv):
        """(gep, dst, base, constant offset, [(reg, width, scale)])"""
        T = self.m.types
        t = i[2]
        off = 0
        dyn = []
        for k, (ity, iv) in enumerate(i[4]):
            if k == 0:
                s = T.size_align(t)[0]
            else:
                t = T.resolve(t)
                if t[0] == 'arr':
                    t = t[2]
                    s = T.size_align(t)[0]
                else:
                    d, t = T.field(t, iv.v)
                    off += d
                    continue
            if isinstance(iv, Reg):
                dyn.append((iv, ity[1], s))
            else:
                off += iv.v * s
        return ('gep', i[1], cv('ptr', i[3]), off, dyn)

    # ---- memory
    def alloc(self, st, size, name, const=False, heap=False):
        n = self.next_obj
        self.next_obj += 1
        st.mem[n] = Obj(size, name, st.id, const, heap)
        return Ptr(n, 0)

    def access(self, st, p, size, write):
        """object and concrete offset, after the bounds check"""
        if p is UNDEF:
            raise Violation('uninitialised', 'use of an uninitialised pointer')
        if isinstance(p, FnPtr):
            raise Violation('pointer', 'access through a function pointer')
        if p.obj == 0:
            raise Violation('null', 'null pointer access')
        o = st.mem[p.obj]
        off = p.off
        if off.__class__ is Poly:
            lo = Rel(off, 'lt')
            hi = Rel(off.neg().addc(o.size - size), 'lt')
            for c in (lo, hi):
                self.must_not(st, c, 'bounds', '%s of %d bytes outside %s (%d bytes)' % ('write' if write else 'read', size, o.name, o.size))
            off = self.concretize_poly(st, off)
        if not o.alive:
            raise Violation('dangling', 'access to dead object %s' % o.name)
        if off < 0 or off + size > o.size:
            raise Violation('bounds', '%s of %d bytes at offset %d outside %s (%d bytes)' % ('write' if write else 'read', size, off, o.name, o.size))
        if write:
            if o.const:
                raise Violation('const', 'write to constant %s' % o.name)
            if o.owner != st.id:
                o = o.copy(st.id)
                st.mem[p.obj] = o
        return o, off

    def bytes_of(self, size, val):
        """list of byte values (ints 0..255, or IV in 0..255, or opaque)"""
        if val.__class__ is int:
            return list((val & ((1 << (8 * size)) - 1)).to_bytes(size, 'little'))
        if val.__class__ is float:
            return list(struct.pack('<f' if size == 4 else '<d', val))
        if val.__class__ is BV:
            return [val] + [0] * (size - 1)
        if val.__class__ is Ptr and val.obj == 0 and val.off == 0:
            return [0] * 8
        if val.__class__ is IV:
            if size == 1:
                return [val]
            u = self.unsigned(None, val, size * 8)
            out = []
            rest = u
            for i in range(size):
                q = self.floordiv(rest, 256)
                out.append(IV(rest.sub(q.scale(256))))
                rest = q
            return out
        return [('part', val, i, size) for i in range(size)]

    def cells_at(self, o, off, size):
        """byte list for a range, None for uninitialised bytes"""
        out = []
        i = off
        end = off + size
        cells = o.cells
        while i < end:
            c = cells.get(i)
            base = i
            if c is None:
                for back in range(1, 16):
                    c = cells.get(i - back)
                    if c is not None:
                        if c[0] <= back:
                            c = None
                        else:
                            base = i - back
                        break
            if c is None:
                out.append(None)
                i += 1
                continue
            b = self.bytes_of(*c)
            k = i - base
            while k < c[0] and i < end:
                out.append(b[k])
                k += 1
                i += 1
        return out

    def load(self, st, p, ty):
        if ty.__class__ is tuple and ty[0] != 'i':
            ty = self.m.types.resolve(ty)
            if ty[0] == 'arr':
                es = self.m.types.size_align(ty[2])[0]
                return [self.load(st, self.padd(p, i * es), ty[2]) for i in range(ty[1])]
            return [self.load(st, self.padd(p, self.m.types.field(ty, i)[0]), e) for i, e in enumerate(ty[1])]
        if ty == 'float':
            size = 4
        elif ty == 'double' or ty == 'ptr':
            size = 8
        else:
            size = max(1, (ty[1] + 7) // 8)
        o, off = self.access(st, p, size, False)
        c = o.cells.get(off)
        if c is None or c[0] != size:
            bs = self.cells_at(o, off, size)
            v = self.join(bs, size)
        else:
            v = c[1]
        return self.astype(v, ty, size)

    def join(self, bs, size):
        if any(b is None for b in bs):
            return UNDEF
        if all(b.__class__ is int for b in bs):
            return int.from_bytes(bytes(b & 255 for b in bs), 'little', signed=True)
        b0 = bs[0]
        if b0.__class__ is tuple and b0[3] == size and all(b.__class__ is tuple and b[1] is b0[1] and b[2] == i for i, b in enumerate(bs)):
            return b0[1]
        if b0.__class__ is BV and all(b.__class__ is int and b == 0 for b in bs[1:]):
            return b0
        p = Poly({})
        for i, b in enumerate(bs):
            if b.__class__ is int:
                p = p.addc((b & 255) << (8 * i))
            elif b.__class__ is IV:
                p = p.add(self.unsigned(None, b, 8).scale(1 << (8 * i)))
            else:
                raise Unsupported('partial access of %r' % (b,))
        return IV(p)

    def astype(self, v, ty, size):
        cls = v.__class__
        if ty == 'float' or ty == 'double':
            if cls is int:
                return struct.unpack('<f' if size == 4 else '<d', (v & ((1 << (8 * size)) - 1)).to_bytes(size, 'little'))[0]
            if cls in (IV, BV, Ptr):
                raise Unsupported('symbolic integer read as float')
            return v
        if ty == 'ptr':
            if cls is int:
                if v == 0:
                    return NULLP
                raise Unsupported('integer read as pointer')
            return v
        if cls is float:
            b = struct.pack('<f' if size == 4 else '<d', v)
            return int.from_bytes(b, 'little', signed=True)
        if cls in (RV, FK):
            raise Unsupported('symbolic float read as integer')
        if cls is int and ty[1] < size * 8:
            return sign(v, ty[1]) if ty[1] > 1 else v & 1
        return v

    def padd(self, p, d):
        if d == 0:
            return p
        if p.off.__class__ is Poly:
            return Ptr(p.obj, p.off.addc(d))
        return Ptr(p.obj, p.off + d)

    def store(self, st, p, ty, v):
        if ty.__class__ is tuple and ty[0] != 'i':
            ty = self.m.types.resolve(ty)
            if v is UNDEF:
                return
            if ty[0] == 'arr':
                es = self.m.types.size_align(ty[2])[0]
                for i in range(ty[1]):
                    self.store(st, self.padd(p, i * es), ty[2], v[i])
            else:
                for i, e in enumerate(ty[1]):
                    self.store(st, self.padd(p, self.m.types.field(ty, i)[0]), e, v[i])
            return
        if ty == 'float':
            size = 4
        elif ty == 'double' or ty == 'ptr':
            size = 8
        else:
            size = max(1, (ty[1] + 7) // 8)
        o, off = self.access(st, p, size, True)
        self.put(o, off, size, v)

    def put(self, o, off, size, v):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, v)
            return
        self.clear(o, off, size)
        if v is not UNDEF:
            o.cells[off] = (size, v)

    def clear(self, o, off, size):
        cells = o.cells
        for b in range(max(0, off - 15), off + size):
            c = cells.get(b)
            if c is None:
                continue
            if b + c[0] <= off:
                continue
            del cells[b]
            if b < off or b + c[0] > off + size:
                bs = self.bytes_of(*c)
                for i, x in enumerate(bs):
                    if not off <= b + i < off + size:
                        cells[b + i] = (1, x if x.__class__ is not int else sign(x, 8))

    # ---- decisions
    def infeasible_path(self):
        raise Infeasible()

    def feasible(self, st, extra):
        """solver verdict on path and extra; returns (bool, model)"""
        r, m = self.solver.check(st.path.formula(extra))
        if r == 'unknown':
            raise CheckError('solver gave up: %s' % m)
        return r == 'sat', m

    def decide(self, st, c):
        """truth of condition c on this path; forks when both are possible"""
        if c.__class__ is bool:
            return c
        q = st.path.quick(c)
        if q is not None:
            return q
        n = c.neg()
        free = False
        if c.__class__ is Rel:
            s = c.p.single()
            if s and s[0] not in st.path.linked and not self.A.deps[s[0]] and not self.A.side[s[0]] and c.op in ('le', 'lt'):
                free = True
        if not free:
            can_t, mt = self._can(st, c)
            can_f, mf = (True, None) if not can_t else self._can(st, n)
            if not can_t:
                # the path itself is assumed feasible
                self.assume_now(st, n)
                return False
            if not can_f:
                self.assume_now(st, c)
                return True
        other = st.clone()
        ok = other.path.add(n)
        if not free:
            other.path.model = mf
            st.path.model = mt
        if ok:
            self.work.append(other)
            if len(self.work) > 100000:
                raise CheckError('too many pending paths')
        if not st.path.add(c):
            raise Infeasible()
        return True

    def _can(self, st, c):
        m = st.path.model
        e = c.z3(self.A)
        if m is not None:
            try:
                # complete only for what the model constrains
                full = st.path.formula([c])
                if all(z3.is_true(m.eval(x, model_completion=True)) for x in full):
                    return True, m
            except z3.Z3Exception:
                pass
        return self.feasible(st, [c])

    def assume_now(self, st, c):
        if not st.path.add(c):
            raise Infeasible()

    def truth(self, st, v):
        """branch on a value"""
        if v.__class__ is int:
            return v != 0
        if v.__class__ is BV:
            return self.decide(st, v.c)
        if v.__class__ is IV:
            return self.decide(st, Rel(v.p, 'ne'))
        if v is UNDEF:
            raise Violation('uninitialised', 'branch on an uninitialised value')
        raise Unsupported('truth of %r' % (v,))

    def must_not(self, st, c, kind, text):
        """c must be impossible; otherwise it is a violation, and the path continues without it"""
        q = st.path.quick(c)
        if q is False:
            return
        if q is True:
            raise Violation(kind, text)
        ok, m = self.feasible(st, [c])
        if ok:
            self.record(st, Violation(kind, text, c), m)
        self.assume_now(st, c.neg())

    def concretize_poly(self, st, p):
        if p.is_const():
            return int(p.cval())
        lo, hi = st.path.range(p)
        if lo is None or hi is None or hi - lo > 1 << 20:
            # by models
            for _ in range(5000):
                ok, m = self.feasible(st, [])
                if not ok:
                    raise Infeasible()
                v = m.eval(poly_z3(self.A, p), model_completion=True).as_long()
                if self.decide(st, Rel(p.addc(-v), 'eq')):
                    return v
            raise Unsupported('too many values')
        while lo < hi:
            mid = (lo + hi) // 2
            if self.decide(st, Rel(p.addc(-mid), 'le')):
                hi = mid
            else:
                lo = mid + 1
        return int(lo)

    def concrete(self, st, v, w, signed=False):
        if v.__class__ is int:
            return v if signed or v >= 0 else v + (1 << w)
        if v.__class__ is BV:
            return 1 if self.decide(st, v.c) else 0
        if v is UNDEF:
            raise Violation('uninitialised', 'use of an uninitialised value')
        return self.concretize_poly(st, self.signed(st, v, w) if signed else self.unsigned(st, v, w))

    # ---- integer normal forms
    def topoly(self, st, v):
        if v.__class__ is int:
            return Poly.const(v)
        if v.__class__ is IV:
            return v.p
        if v.__class__ is BV:
            return Poly.const(1 if self.decide(st, v.c) else 0)
        if v is UNDEF:
            raise Violation('uninitialised', 'use of an uninitialised value')
        raise Unsupported('integer operation on %r' % (v,))

    def prange(self, st, p):
        if st is None:
            return Path(self.A).range(p)
        return st.path.range(p)

    def signed(self, st, v, w):
        p = v.p if v.__class__ is IV else self.topoly(st, v)
        lo, hi = self.prange(st, p)
        h = 1 << (w - 1)
        if lo is not None and hi is not None:
            if -h <= lo and hi < h:
                return p
            # one shift of the whole range
            k = (lo + h) // (2 * h)
            if (hi + h) // (2 * h) == k:
                return p.addc(-k * 2 * h)
        if st is not None and st.path.quick(Rel(p.addc(-h + 1), 'le')) and st.path.quick(Rel(p.neg().addc(-h), 'le')):
            return p
        if lo is not None and hi is not None and st is not None and hi - lo < 4 * h:
            # fork between wrapped and not
            k = (lo + h) // (2 * h)
            bound = k * 2 * h + h - 1
            if self.decide(st, Rel(p.addc(-bound), 'le')):
                return p.addc(-k * 2 * h)
            return p.addc(-(k + 1) * 2 * h)
        if st is not None and any(self.A.deps[a] for a in p.atoms()):
            # a value that is in range for a reason the intervals do not show
            out = z3.Or(Rel(p.addc(h), 'lt').z3(self.A), Rel(p.neg().addc(h), 'le').z3(self.A))
            if self.solver.check(st.path.formula([ZC(out, p.atoms())]), 5000)[0] == 'unsat':
                self.assume_now(st, Rel(p.addc(-h + 1), 'le'))
                self.assume_now(st, Rel(p.neg().addc(-h), 'le'))
                return p
        q = self.floordiv(p.addc(h), 2 * h)
        return p.sub(q.scale(2 * h))

    def unsigned(self, st, v, w):
        if v.__class__ is int:
            return Poly.const(v & ((1 << w) - 1))
        p = v.p if v.__class__ is IV else self.topoly(st, v)
        m = 1 << w
        lo, hi = self.prange(st, p)
        if lo is not None and hi is not None:
            k = lo // m
            if hi // m == k:
                return p.addc(-k * m)
        if lo is not None and hi is not None and st is not None and hi - lo < 2 * m:
            k = lo // m
            if hi // m == k + 1:
                if self.decide(st, Rel(p.addc(-(k + 1) * m), 'lt')):
                    return p.addc(-k * m)
                return p.addc(-(k + 1) * m)
        q = self.floordiv(p, m)
        return p.sub(q.scale(m))

    def floordiv(self, p, d):
        """floor(p / d), d > 0 constant"""
        if p.is_const():
            return Poly.const(int(p.cval()) // d)
        if d == 1:
            return p
        # exact part
        whole, rest = {}, {}
        for m, c in p.t.items():
            q, r = divmod(c, d)
            if q:
                whole[m] = q
            if r:
                rest[m] = r
        w, r = Poly(whole), Poly(rest)
        if not r.t:
            return w
        lo, hi = self.prange(None, r)
        if lo is not None and hi is not None and lo // d == hi // d:
            return w.addc(lo // d)
        key = ('div', r.key(), d)
        a = self.A.cache.get(key)
        if a is None:
            a = self.A.new('div', True, None if lo is None else lo // d, None if hi is None else hi // d,
                           expr=None, deps=r.atoms())
            q = self.A.z3[a]
            e = poly_z3(self.A, r)
            self.A.side[a] = [d * q <= e, e < d * q + d]
            self.A.cache[key] = a
        return w.add(Poly.atom(a))

    def mkint(self, p):
        if p.is_const():
            return int(p.cval())
        return IV(p)

    # ---- main loop
    def run(self, fname, args=()):
        st = self.init
        self.push(st, fname, list(args), None)
        self.work = [st]
        t0 = time.time()
        while self.work:
            s = self.work.pop()
            if time.time() - t0 > self.time_limit:
                raise CheckError('time limit of %ds: %d paths done, %d pending' % (self.time_limit, self.paths, len(self.work) + 1))
            try:
                self.run_state(s, t0)
                self.paths += 1
                self.covered(s.path)
                if len(self.witness) < 3:
                    self.witness.append(s)
            except Infeasible:
                self.infeasible += 1
            except Violation as v:
                self.record(s, v)
            if self.paths > self.max_paths:
                raise CheckError('more than %d paths' % self.max_paths)
            if len(self.violations) >= self.max_violations:
                return

    def covered(self, path):
        if len(self.cover) > 4000:
            return
        f, at = path.split()
        self.cover.append(z3.And(f) if f else z3.BoolVal(True))
        self.cover_atoms |= at

    def check_exhaustive(self, timeout_ms=20000):
        """the solver's verdict that the explored paths are all there is: no input lies outside all of them"""
        if self.violating or len(self.cover) > 4000:
            return None
        A = self.A
        f = [z3.Not(c) for c in self.cover]
        for a in self.cover_atoms:
            f += A.side[a]
            e, is_int = A.z3[a], A.is_int[a]
            if A.lo[a] is not None:
                f.append(e >= zconst(A.lo[a], is_int))
            if A.hi[a] is not None:
                f.append(e <= zconst(A.hi[a], is_int))
        old = self.solver.timeout_ms
        self.solver.timeout_ms = timeout_ms
        r, m = self.solver.check(f)
        self.solver.timeout_ms = old
        if r == 'sat':
            raise CheckError('the explored paths do not cover all inputs, for example %s' % str(m)[:500])
        self.exhaustive = r == 'unsat'
        return self.exhaustive

    def record(self, st, v, model=None):
        given = model is not None
        if model is None:
            ok, model = self.feasible(st, [v.cond] if v.cond is not None else [])
            if not ok:
                self.infeasible += 1
                return
        self.violating += 1
        if len(self.violations) < self.max_violations:
            self.violations.append((v.kind, v.text, self.model_inputs(st, model), self.where(st)))
        if given and len(self.violations) >= self.max_violations:
            raise Infeasible()      # enough to report

    def where(self, st):
        return ' < '.join(f.fn.name for f in reversed(st.stack))[:200]

    def model_inputs(self, st, model):
        out = []
        for name, val, kind, size in st.inputs:
            if val.__class__ is int:
                out.append(val & ((1 << (8 * size)) - 1))
            elif val.__class__ is IV:
                x = self.evalp(model, val.p, st)
                out.append(int(x) & ((1 << (8 * size)) - 1))
            elif val.__class__ is FK:
                x = self.evalp(model, val.p, st)
                out.append(fkey_to_bits(int(x), val.prec))
            elif val.__class__ is RV:
                x = float(self.evalp(model, val.p, st))
                out.append(int.from_bytes(struct.pack('<f' if size == 4 else '<d', x), 'little'))
            elif val.__class__ is float:
                out.append(int.from_bytes(struct.pack('<f' if size == 4 else '<d', val), 'little'))
            else:
                raise Unsupported('input %r' % (val,))
        return out

    def evalp(self, model, p, st):
        s = p.single()
        if s and s[0] in st.path.dom and s[0] not in st.path.linked and model is not None:
            v = model.eval(self.A.z3[s[0]], model_completion=False)
            if not (z3.is_int_value(v) or z3.is_rational_value(v)):
                d = st.path.dom[s[0]]
                x = d[0] if d[0] is not None else d[2]
                return s[1] * x + s[2]
        v = model.eval(poly_z3(self.A, p), model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        raise Unsupported('model value %s' % v)

    def push(self, st, fname, args, dst):
        fn = self.m.functions[fname]
        self.funcs_run.add(fname)
        f = Frame()
        f.fn = fn
        f.label = fn.entry
        f.block = fn.blocks[fn.entry]
        f.idx = 0
        f.regs = {}
        f.dst = dst
        f.allocas = []
        if len(st.stack) > 200:
            raise Violation('recursion', 'call depth above 200')
        for (ty, reg, byval), v in zip(fn.params, args):
            if byval is not None:
                size = self.m.types.size_align(byval)[0]
                np = self.alloc(st, size, 'byval of ' + fname)
                self.copy(st, np, v, size)
                f.allocas.append(np.obj)
                v = np
            f.regs[reg] = v
        st.stack.append(f)

    def run_state(self, st, t0):
        ops = self.ops
        while st.stack:
            fr = st.stack[-1]
            ins = fr.block[fr.idx]
            st.steps += 1
            if st.steps > self.max_steps:
                raise Violation('termination', 'no end after %d instructions' % st.steps)
            if st.steps & 0xfff == 0 and time.time() - t0 > self.time_limit:
                raise CheckError('time limit of %ds: %d paths done, %d pending' % (self.time_limit, self.paths, len(self.work) + 1))
            ops[ins[0]](st, fr, ins)
        self.total_steps += st.steps

    # ---- instructions
    def op_jmp(self, st, fr, ins):
        self.goto(fr, ins[2])

    def goto(self, fr, label):
        blk = fr.fn.blocks[label]
        i = 0
        if blk[0][0] == 'phi':
            prev = fr.label
            regs = fr.regs
            new = []
            while blk[i][0] == 'phi':
                o = blk[i][3][prev]
                new.append((blk[i][1], regs[o] if o.__class__ is Reg else o.v))
                i += 1
            for d, v in new:
                regs[d] = v
        fr.label = label
        fr.block = blk
        fr.idx = i

    def op_br(self, st, fr, ins):
        o = ins[2]
        v = fr.regs[o] if o.__class__ is Reg else o.v
        if v.__class__ is int:
            t = v != 0
        else:
            t = self.truth(st, v)
        self.goto(fr, ins[3] if t else ins[4])

    def op_switch(self, st, fr, ins):
        o = ins[3]
        v = fr.regs[o] if o.__class__ is Reg else o.v
        w = ins[2][1]
        if v.__class__ is int:
            for c, l in ins[5]:
                if c == v:
                    return self.goto(fr, l)
            return self.goto(fr, ins[4])
        p = self.signed(st, v, w)
        for c, l in ins[5]:
            if self.decide(st, self.rel(p.addc(-c), 'eq')):
                return self.goto(fr, l)
        self.goto(fr, ins[4])

    def rel(self, p, op):
        if p.is_const():
            v = p.cval()
            return v <= 0 if op == 'le' else v < 0 if op == 'lt' else v == 0 if op == 'eq' else v != 0
        return Rel(p, op)

    def op_ret(self, st, fr, ins):
        o = ins[3]
        v = None if o is None else fr.regs[o] if o.__class__ is Reg else o.v
        for a in fr.allocas:
            ob = st.mem[a]
            if ob.owner != st.id:
                ob = Obj(ob.size, ob.name, st.id)
                st.mem[a] = ob
            ob.alive = False
            ob.cells = {}
        st.stack.pop()
        if st.stack:
            up = st.stack[-1]
            if fr.dst is not None:
                up.regs[fr.dst] = v
            up.idx += 1

    def op_unreachable(self, st, fr, ins):
        raise Violation('unreachable', 'end of a function reached without a value, or abort')

    def op_alloca(self, st, fr, ins):
        o = ins[3]
        n = self.concrete(st, fr.regs[o] if o.__class__ is Reg else o.v, 64)
        p = self.alloc(st, ins[4] * n, 'local of ' + fr.fn.name)
        fr.allocas.append(p.obj)
        fr.regs[ins[1]] = p
        fr.idx += 1

    def op_load(self, st, fr, ins):
        o = ins[3]
        p = fr.regs[o] if o.__class__ is Reg else o.v
        fr.regs[ins[1]] = self.load(st, p, ins[2])
        fr.idx += 1

    def op_store(self, st, fr, ins):
        o = ins[4]
        p = fr.regs[o] if o.__class__ is Reg else o.v
        o = ins[3]
        v = fr.regs[o] if o.__class__ is Reg else o.v
        if v.__class__ is float and ins[2] == 'float':
            v = f32(v)
        self.store(st, p, ins[2], v)
        fr.idx += 1

    def op_gep(self, st, fr, ins):
        o = ins[2]
        p = fr.regs[o] if o.__class__ is Reg else o.v
        if p is UNDEF:
            raise Violation('uninitialised', 'use of an uninitialised pointer')
        off = ins[3]
        base = p.off
        for reg, w, s in ins[4]:
            v = fr.regs[reg]
            if v.__class__ is int:
                off += v * s
            else:
                q = self.signed(st, v, w).scale(s)
                base = q.addc(base) if base.__class__ is int else base.add(q)
        if base.__class__ is int:
            base = base + off
        else:
            base = base.addc(off)
            if base.is_const():
                base = int(base.cval())
        fr.regs[ins[1]] = Ptr(p.obj, base)
        fr.idx += 1

    def op_phi(self, st, fr, ins):
        raise Unsupported('phi not at block start')

    def op_freeze(self, st, fr, ins):
        o = ins[3]
        fr.regs[ins[1]] = fr.regs[o] if o.__class__ is Reg else o.v
        fr.idx += 1

    def op_extractvalue(self, st, fr, ins):
        o = ins[3]
        v = fr.regs[o] if o.__class__ is Reg else o.v
        for i in ins[4]:
            v = v[i]
        fr.regs[ins[1]] = v
        fr.idx += 1

    def op_insertvalue(self, st, fr, ins):
        o = ins[3]
        v = fr.regs[o] if o.__class__ is Reg else o.v
        rt = self.m.types.resolve(ins[2])
        if v is UNDEF:
            v = [UNDEF] * (len(rt[1]) if rt[0] == 'struct' else rt[1])
        v = list(v)
        e = ins[5]
        if len(ins[6]) != 1:
            raise Unsupported('nested insertvalue')
        v[ins[6][0]] = fr.regs[e] if e.__class__ is Reg else e.v
        fr.regs[ins[1]] = v
        fr.idx += 1

    def op_select(self, st, fr, ins):
        o = ins[3]
        c = fr.regs[o] if o.__class__ is Reg else o.v
        t = self.truth(st, c)
        o = ins[4] if t else ins[5]
        fr.regs[ins[1]] = fr.regs[o] if o.__class__ is Reg else o.v
        fr.idx += 1

    def arith(self, st, fr, ins):
        op, dst, ty, oa, ob, nsw, nuw = ins
        a = fr.regs[oa] if oa.__class__ is Reg else oa.v
        b = fr.regs[ob] if ob.__class__ is Reg else ob.v
        fr.regs[dst] = self.arith_val(st, op, ty[1], a, b, nsw)
        fr.idx += 1

    def arith_val(self, st, op, w, a, b, nsw):
        if a is UNDEF or b is UNDEF:
            raise Violation('uninitialised', 'arithmetic on an uninitialised value')
        if w == 1:
            return self.bool_op(st, op, a, b)
        if a.__class__ is Ptr or b.__class__ is Ptr:
            if op == 'sub' and a.__class__ is Ptr and b.__class__ is Ptr and a.obj == b.obj and a.off.__class__ is int and b.off.__class__ is int:
                return a.off - b.off
            if op == 'sub' and a.__class__ is Ptr and b.__class__ is Ptr and a.obj == b.obj:
                pa = a.off if a.off.__class__ is Poly else Poly.const(a.off)
                pb = b.off if b.off.__class__ is Poly else Poly.const(b.off)
                return self.mkint(self.tame(st, pa.sub(pb), w))
            raise Unsupported('pointer arithmetic %s' % op)
        if a.__class__ is BV and b.__class__ is BV and op in ('and', 'or', 'xor'):
            return self.bool_op(st, op, a, b)
        if a.__class__ is BV and b.__class__ is int and ((op == 'xor' and b == 1) or (op == 'and' and b == 1)):
            return BV(a.c.neg()) if op == 'xor' else a
        if a.__class__ is int and b.__class__ is int:
            return self.arith_int(op, w, a, b, nsw)
        h = 1 << (w - 1)
        if op in ('add', 'sub', 'mul'):
            if nsw:
                pa, pb = self.signed(st, a, w), self.signed(st, b, w)
            else:
                pa, pb = self.topoly(st, a), self.topoly(st, b)
            r = pa.add(pb) if op == 'add' else pa.sub(pb) if op == 'sub' else pa.mul(pb)
            if nsw:
                self.no_overflow(st, r, w, op)
            else:
                r = self.tame(st, r, w)
            return self.mkint(r)
        if op == 'shl':
            k = self.concrete(st, b, w)
            if k >= w:
                raise Violation('shift', 'shift by %d of %d bits' % (k, w))
            p = self.signed(st, a, w) if nsw else self.topoly(st, a)
            r = p.scale(1 << k)
            if nsw:
                self.no_overflow(st, r, w, 'shl')
            else:
                r = self.tame(st, r, w)
            return self.mkint(r)
        if op in ('lshr', 'ashr'):
            k = self.concrete(st, b, w)
            if k >= w:
                raise Violation('shift', 'shift by %d of %d bits' % (k, w))
            p = self.unsigned(st, a, w) if op == 'lshr' else self.signed(st, a, w)
            return self.mkint(self.floordiv(p, 1 << k))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            u = op[0] == 'u'
            pa = self.unsigned(st, a, w) if u else self.signed(st, a, w)
            pb = self.unsigned(st, b, w) if u else self.signed(st, b, w)
            self.must_not(st, self.rel(pb, 'eq'), 'division', 'division by zero')
            if not u:
                both = ZC(z3.And(poly_z3(self.A, pa) == -h, poly_z3(self.A, pb) == -1), pa.atoms() | pb.atoms())
                lo, hi = st.path.range(pa)
                bl, bh = st.path.range(pb)
                if (lo is None or lo <= -h) and not (bl is not None and bl > -1) and not (bh is not None and bh < -1):
                    self.must_not(st, both, 'overflow', 'signed division overflow')
            # signs
            an = not u and self.decide(st, self.rel(pa, 'lt'))
            bn = not u and self.decide(st, self.rel(pb, 'lt'))
            if an:
                pa = pa.neg()
            if bn:
                pb = pb.neg()
            if pb.is_const():
                q = self.floordiv(pa, int(pb.cval()))
            else:
                q = self.divatom(st, pa, pb)
            if op in ('udiv', 'sdiv'):
                return self.mkint(q.neg() if an != bn else q)
            r = pa.sub(q.mul(pb))
            return self.mkint(r.neg() if an else r)
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, w, a, b)
        raise Unsupported(op)

    def divatom(self, st, pa, pb):
        """floor(pa/pb), pa >= 0, pb > 0"""
        key = ('divs', pa.key(), pb.key())
        a = self.A.cache.get(key)
        if a is None:
            lo, hi = st.path.range(pa)
            lo0, hi0 = self.prange(None, pa)
            a = self.A.new('quot', True, 0, None, deps=pa.atoms() | pb.atoms())
            q = self.A.z3[a]
            n, d = poly_z3(self.A, pa), poly_z3(self.A, pb)
            # holds for pa >= 0, pb > 0 (which is on the path wherever it is used)
            self.A.side[a] = [z3.Implies(z3.And(n >= 0, d > 0), z3.And(q * d <= n, n < q * d + d, q <= n))]
            self.A.cache[key] = a
        lo, hi = st.path.range(pa)
        r = Poly.atom(a)
        if hi is not None:
            self.assume_now(st, Rel(r.addc(-hi), 'le'))
        return r

    def tame(self, st, r, w):
        """keeps unnormalised integers from growing without bound"""
        lo, hi = st.path.range(r)
        if lo is None or hi is None or hi - lo > 1 << (w + 70):
            return self.unsigned(st, IV(r), w)
        return r

    def no_overflow(self, st, r, w, op):
        h = 1 << (w - 1)
        if r.is_const():
            v = r.cval()
            if v < -h or v >= h:
                raise Violation('overflow', 'signed overflow in %s' % op)
            return
        lo, hi = st.path.range(r)
        if hi is None or hi >= h:
            self.must_not(st, Rel(r.neg().addc(h), 'le'), 'overflow', 'signed overflow in %d-bit %s' % (w, op))
        if lo is None or lo < -h:
            self.must_not(st, Rel(r.addc(h), 'lt'), 'overflow', 'signed overflow in %d-bit %s' % (w, op))

    def bool_op(self, st, op, a, b):
        if a.__class__ is int and b.__class__ is int:
            return (a & b if op == 'and' else a | b if op == 'or' else a ^ b) & 1
        if a.__class__ is int:
            a, b = b, a
        if b.__class__ is int:
            if op == 'xor':
                return BV(a.c.neg()) if b & 1 else a
            if op == 'and':
                return a if b & 1 else 0
            return 1 if b & 1 else a
        ea, eb = a.c.z3(self.A), b.c.z3(self.A)
        at = set(a.c.atoms()) | set(b.c.atoms())
        return BV(ZC(z3.And(ea, eb) if op == 'and' else z3.Or(ea, eb) if op == 'or' else z3.Xor(ea, eb), at))

    def arith_int(self, op, w, a, b, nsw):
        mask = (1 << w) - 1
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if nsw and not -(1 << (w - 1)) <= r < 1 << (w - 1):
                raise Violation('overflow', 'signed overflow in %d-bit %s' % (w, op))
            return sign(r, w)
        if op in ('shl', 'lshr', 'ashr'):
            b &= mask
            if b >= w:
                raise Violation('shift', 'shift by %d of %d bits' % (b, w))
            if op == 'shl':
                return sign(a << b, w)
            return sign((a & mask) >> b, w) if op == 'lshr' else a >> b
        if op in ('udiv', 'urem'):
            a, b = a & mask, b & mask
            if b == 0:
                raise Violation('division', 'division by zero')
            return sign(a // b if op == 'udiv' else a % b, w)
        if op in ('sdiv', 'srem'):
            if b == 0:
                raise Violation('division', 'division by zero')
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            if not -(1 << (w - 1)) <= q < 1 << (w - 1):
                raise Violation('overflow', 'signed division overflow')
            return q if op == 'sdiv' else a - q * b
        return sign(a & b if op == 'and' else a | b if op == 'or' else a ^ b, w)

    def bitop(self, st, op, w, a, b):
        if a.__class__ is int:
            a, b = b, a
        if b.__class__ is int:
            mask = (1 << w) - 1
            m = b & mask
            if op == 'and':
                if m == 0:
                    return 0
                if m == mask:
                    return a
                if m & (m + 1) == 0:        # low bits
                    return self.mkint(self.unsigned(st, a, m.bit_length()))
                inv = mask ^ m
                if inv & (inv + 1) == 0:    # high bits
                    u = self.unsigned(st, a, w)
                    k = inv.bit_length()
                    return self.mkint(self.floordiv(u, 1 << k).scale(1 << k))
                # a run of bits
                low = (m & -m).bit_length() - 1
                run = m >> low
                if run & (run + 1) == 0:
                    u = self.unsigned(st, a, low + run.bit_length())
                    return self.mkint(self.floordiv(u, 1 << low).scale(1 << low))
            if op == 'xor' and m == mask:
                return self.mkint(self.topoly(st, a).neg().addc(-1))
            if op == 'or' and m == 0:
                return a
            if op == 'or':
                low = (m & -m).bit_length() - 1
                u = self.unsigned(st, a, w)
                lo, hi = st.path.range(u)
                if hi is not None and hi < 1 << low:
                    return self.mkint(u.addc(m))
                # set bits one run at a time: (a & ~m) + m
                r = self.arith_val(st, 'sub', w, a, self.bitop(st, 'and', w, a, sign(m, w)), False) if (m >> low) & ((m >> low) + 1) == 0 else None
                if r is not None:
                    return self.arith_val(st, 'add', w, r, sign(m, w), False)
        else:
            if op == 'or':
                ua, ub = self.unsigned(st, a, w), self.unsigned(st, b, w)
                for x, y in ((ua, ub), (ub, ua)):
                    # x a multiple of 2^k, y below 2^k
                    hi = st.path.range(y)[1]
                    if hi is not None:
                        k = int(hi).bit_length()
                        if all(c % (1 << k) == 0 for c in x.t.values()):
                            return self.mkint(x.add(y))
        # bit vectors
        pa, pb = self.unsigned(st, a, w), self.unsigned(st, b, w)
        key = (op, w, pa.key(), pb.key())
        at = self.A.cache.get(key)
        if at is None:
            za, zb = z3.Int2BV(poly_z3(self.A, pa), w), z3.Int2BV(poly_z3(self.A, pb), w)
            e = za & zb if op == 'and' else za | zb if op == 'or' else za ^ zb
            at = self.A.new(op, True, 0, (1 << w) - 1, deps=pa.atoms() | pb.atoms())
            self.A.side[at] = [self.A.z3[at] == z3.BV2Int(e)]
            self.A.cache[key] = at
        return IV(Poly.atom(at))

    def op_icmp(self, st, fr, ins):
        op, dst, pred, ty, oa, ob = ins
        a = fr.regs[oa] if oa.__class__ is Reg else oa.v
        b = fr.regs[ob] if ob.__class__ is Reg else ob.v
        fr.regs[dst] = self.icmp(st, pred, ty, a, b)
        fr.idx += 1

    def icmp(self, st, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            raise Violation('uninitialised', 'comparison of an uninitialised value')
        if ty == 'ptr':
            return self.pcmp(st, pred, a, b)
        w = ty[1]
        if a.__class__ is int and b.__class__ is int:
            if pred[0] == 'u':
                m = (1 << w) - 1
                a, b = a & m, b & m
            k = pred if pred in ('eq', 'ne') else pred[1:]
            return int(a == b if k == 'eq' else a != b if k == 'ne' else a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b)
        if a.__class__ is BV and b.__class__ is int and pred in ('eq', 'ne'):
            if b == 0:
                return BV(a.c.neg()) if pred == 'eq' else a
            if b == 1 or w == 1:
                return a if pred == 'eq' else BV(a.c.neg())
            return int(pred == 'ne')
        if pred in ('eq', 'ne'):
            pa, pb = self.topoly(st, a), self.topoly(st, b)
            d = pa.sub(pb)
            if d.is_const():
                return int((d.cval() % (1 << w) == 0) == (pred == 'eq'))
            lo, hi = st.path.range(d)
            if lo is None or hi is None or lo <= -(1 << w) or hi >= 1 << w:
                d = self.unsigned(st, IV(pa), w).sub(self.unsigned(st, IV(pb), w))
            elif not (lo > -(1 << w) and hi < (1 << w)):
                d = self.unsigned(st, IV(pa), w).sub(self.unsigned(st, IV(pb), w))
            return self.mkcond(st, d, pred)
        k = pred[1:]
        f = self.unsigned if pred[0] == 'u' else self.signed
        pa, pb = f(st, a, w), f(st, b, w)
        return self.cmp_polys(st, k, pa, pb)

    def cmp_polys(self, st, k, pa, pb):
        d = pa.sub(pb)
        if k == 'lt':
            return self.mkcond(st, d, 'lt')
        if k == 'le':
            return self.mkcond(st, d, 'le')
        if k == 'gt':
            return self.mkcond(st, d.neg(), 'lt')
        return self.mkcond(st, d.neg(), 'le')

    def mkcond(self, st, d, op):
        c = self.rel(d, op)
        if c.__class__ is bool:
            return int(c)
        q = st.path.quick(c)
        if q is not None:
            return int(q)
        return BV(c)

    def pcmp(self, st, pred, a, b):
        if a.__class__ is FnPtr or b.__class__ is FnPtr:
            same = a.__class__ is b.__class__ and a.name == b.name
            return int(same == (pred == 'eq'))
        if a.obj != b.obj:
            if pred in ('eq', 'ne'):
                return int(pred == 'ne')
            raise Unsupported('ordering of unrelated pointers')
        pa = a.off if a.off.__class__ is Poly else Poly.const(a.off)
        pb = b.off if b.off.__class__ is Poly else Poly.const(b.off)
        if pred in ('eq', 'ne'):
            return self.mkcond(st, pa.sub(pb), pred)
        return self.cmp_polys(st, pred[1:], pa, pb)

    # ---- floats
    def op_fneg(self, st, fr, ins):
        o = ins[3]
        v = fr.regs[o] if o.__class__ is Reg else o.v
        if v is UNDEF:
            raise Violation('uninitialised', 'arithmetic on an uninitialised value')
        if v.__class__ is float:
            r = -v
        elif v.__class__ is RV:
            r = RV(v.p.neg())
        elif v.__class__ is FK:
            r = FK(v.p.neg(), v.prec)
        else:
            raise Unsupported('fneg')
        fr.regs[ins[1]] = r
        fr.idx += 1

    def real(self, v):
        if v.__class__ is RV:
            return v.p
        if v.__class__ is float:
            if math.isinf(v) or math.isnan(v):
                raise Unsupported('arithmetic of a symbolic value with %r' % v)
            f = Fraction(v)
            return Poly.const(f.numerator if f.denominator == 1 else f)
        if v is UNDEF:
            raise Violation('uninitialised', 'arithmetic on an uninitialised value')
        raise Unsupported('arithmetic on %r' % (v,))

    def mkreal(self, p):
        return RV(p)

    def farith(self, st, fr, ins):
        op, dst, ty, oa, ob = ins[:5]
        a = fr.regs[oa] if oa.__class__ is Reg else oa.v
        b = fr.regs[ob] if ob.__class__ is Reg else ob.v
        fr.regs[dst] = self.farith_val(st, op, ty, a, b)
        fr.idx += 1

    def farith_val(self, st, op, ty, a, b):
        if a.__class__ is float and b.__class__ is float:
            try:
                if op == 'fadd':
                    r = a + b
                elif op == 'fsub':
                    r = a - b
                elif op == 'fmul':
                    r = a * b
                elif op == 'fdiv':
                    r = a / b if b != 0 else (math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1, b))
                else:
                    r = math.fmod(a, b)
            except (OverflowError, ValueError):
                r = math.nan
            return f32(r) if ty == 'float' else r
        if a is UNDEF or b is UNDEF:
            raise Violation('uninitialised', 'arithmetic on an uninitialised value')
        pa, pb = self.real(a), self.real(b)
        if op == 'fadd':
            r = pa.add(pb)
        elif op == 'fsub':
            r = pa.sub(pb)
        elif op == 'fmul':
            r = pa.mul(pb)
        elif op == 'fdiv':
            if pb.is_const():
                c = pb.cval()
                if c == 0:
                    raise Violation('division', 'float division by zero')
                r = pa.scale(Fraction(1) / c)
            else:
                r = pa.mul(self.inverse(st, pb))
        else:
            raise Unsupported('frem')
        if r.is_const():
            return float(r.cval())
        return RV(r)

    def inverse(self, st, p):
        """1/p"""
        self.must_not(st, self.rel(p, 'eq'), 'division', 'float division by zero')
        key = ('inv', p.key())
        a = self.A.cache.get(key)
        if a is None:
            a = self.A.new('inv', False, deps=p.atoms())
            d = poly_z3(self.A, p)
            # products with the inverse, as the polynomials see them
            prod = poly_z3(self.A, p.mul(Poly.atom(a)))
            self.A.side[a] = [prod == 1, z3.Implies(d > 0, self.A.z3[a] > 0), z3.Implies(d < 0, self.A.z3[a] < 0)]
            self.A.cache[key] = a
        return Poly.atom(a)

    def op_fcmp(self, st, fr, ins):
        op, dst, pred, ty, oa, ob = ins
        a = fr.regs[oa] if oa.__class__ is Reg else oa.v
        b = fr.regs[ob] if ob.__class__ is Reg else ob.v
        fr.regs[dst] = self.fcmp(st, pred, a, b)
        fr.idx += 1

    def fcmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF:
            raise Violation('uninitialised', 'comparison of an uninitialised value')
        if a.__class__ is float and b.__class__ is float:
            un = math.isnan(a) or math.isnan(b)
            if pred == 'ord':
                return int(not un)
            if pred == 'uno':
                return int(un)
            if un:
                return int(pred[0] == 'u')
            k = pred[1:]
            return int(a == b if k == 'eq' else a != b if k == 'ne' else a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b)
        if pred in ('ord', 'uno'):
            x = a if a.__class__ is float else b
            un = x.__class__ is float and math.isnan(x)
            return int(un == (pred == 'uno'))
        k = pred[1:]
        if a.__class__ is FK or b.__class__ is FK:
            return self.fk_cmp(st, k, a, b)
        for x, y, s in ((a, b, 1), (b, a, -1)):
            if x.__class__ is float and (math.isinf(x) or math.isnan(x)):
                if math.isnan(x):
                    return int(pred[0] == 'u')
                big = (x > 0) == (s > 0)      # a above b
                return int(k in ('gt', 'ge', 'ne') if big else k in ('lt', 'le', 'ne'))
        d = self.real(a).sub(self.real(b))
        if k in ('eq', 'ne'):
            return self.mkcond(st, d, k)
        if k in ('gt', 'ge'):
            d = d.neg()
        return self.mkcond(st, d, 'lt' if k in ('lt', 'gt') else 'le')

    def fk_cmp(self, st, k, a, b):
        if a.__class__ is FK and b.__class__ is FK:
            if a.prec != b.prec:
                raise Unsupported('comparison of different precisions')
            return self.cmp_polys(st, k, a.p, b.p) if k not in ('eq', 'ne') else self.mkcond(st, a.p.sub(b.p), k)
        flip = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
        if b.__class__ is FK:
            a, b, k = b, a, flip[k]
        if b.__class__ is not float:
            raise Unsupported('comparison of an exact float with %r' % (b,))
        if math.isnan(b):
            return int(k == 'ne')
        if a.prec == 32:
            c = f32(b)
            if math.isinf(c) and not math.isinf(b):
                c = math.copysign(3.4028234663852886e38, b) if (c > 0) == (b > 0) else c
            kc = fkey(c, 32) if not math.isinf(c) else (0x7f800000 if c > 0 else -0x7f800000)
            if c == b:
                exact, below = True, kc
            else:
                exact, below = False, kc if c < b else kc - 1       # the largest float below b
        else:
            exact, below = True, fkey(b, 64)
        p = a.p
        if exact:
            kb = Poly.const(below)
            return self.mkcond(st, p.sub(kb), k) if k in ('eq', 'ne') else self.cmp_polys(st, k, p, kb)
        if k in ('eq', 'ne'):
            return int(k == 'ne')
        # b lies strictly between below and below + 1
        if k in ('lt', 'le'):
            return self.mkcond(st, p.addc(-below), 'le')
        return self.mkcond(st, p.neg().addc(below + 1), 'le')

    # ---- conversions
    def cast(self, st, fr, ins):
        op, dst, ty, o, to = ins
        v = fr.regs[o] if o.__class__ is Reg else o.v
        fr.regs[dst] = self.cast_val(st, op, ty, v, to)
        fr.idx += 1

    def cast_val(self, st, op, ty, v, to):
        if v is UNDEF:
            if op in ('trunc', 'zext', 'sext', 'bitcast', 'fpext', 'fptrunc'):
                return UNDEF
            raise Violation('uninitialised', 'conversion of an uninitialised value')
        cls = v.__class__
        if op == 'sext':
            if cls is int:
                return -v if ty[1] == 1 else v
            if cls is BV:
                return -1 if self.decide(st, v.c) and ty[1] == 1 else (1 if self.decide(st, v.c) else 0)
            return IV(self.signed(st, v, ty[1]))
        if op == 'zext':
            if cls is int:
                return v & ((1 << ty[1]) - 1)
            if cls is BV:
                return v
            return IV(self.unsigned(st, v, ty[1]))
        if op == 'trunc':
            if cls is int:
                return sign(v, to[1]) if to[1] > 1 else v & 1
            if cls is BV:
                return v
            if to[1] == 1:
                u = self.unsigned(st, v, 1)
                return self.mkcond(st, u, 'ne')
            return self.mkint(self.signed_if_small(st, v.p, to[1]))
        if op in ('sitofp', 'uitofp'):
            if cls is int:
                x = v if op == 'sitofp' else v & ((1 << ty[1]) - 1)
                try:
                    r = float(x)
                except OverflowError:
                    r = math.inf
                return f32(r) if to == 'float' else r
            p = self.signed(st, v, ty[1]) if op == 'sitofp' else self.unsigned(st, v, ty[1])
            return RV(p)
        if op in ('fptosi', 'fptoui'):
            w = to[1]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
            if cls is float:
                if math.isnan(v) or math.isinf(v) or not lo - 1 < v < hi + 1:
                    raise Violation('conversion', 'float %r does not fit in %d bits' % (v, w))
                return sign(int(v), w)
            if cls is FK:
                raise Unsupported('conversion of an exact symbolic float')
            p = v.p
            self.must_not(st, self.rel(p.neg().addc(hi + 1), 'le'), 'conversion', 'float does not fit in %d bits' % w)
            self.must_not(st, self.rel(p.addc(-(lo - 1)), 'le'), 'conversion', 'float does not fit in %d bits' % w)
            return self.mkint(self.trunc_real(st, p))
        if op == 'fpext':
            return v
        if op == 'fptrunc':
            if cls is float:
                return f32(v)
            if cls is FK and v.prec == 64:
                raise Unsupported('rounding of an exact symbolic float')
            return v
        if op == 'ptrtoint':
            if cls is Ptr and v.obj == 0:
                return v.off
            return v
        if op == 'inttoptr':
            if cls is Ptr:
                return v
            if cls is int and v == 0:
                return NULLP
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            size = self.m.types.size_align(to)[0]
            return self.astype(v, to, size)
        raise Unsupported(op)

    def signed_if_small(self, st, p, w):
        lo, hi = st.path.range(p)
        h = 1 << (w - 1)
        if lo is not None and hi is not None:
            k = (lo + h) // (2 * h)
            if (hi + h) // (2 * h) == k:
                return p.addc(-k * 2 * h)
        return p

    def all_int(self, p):
        return all(self.A.is_int[a] for m in p.t for a in m) and all(c.__class__ is int or c.denominator == 1 for c in p.t.values())

    def floor_real(self, p):
        """integer poly floor(p)"""
        if self.all_int(p):
            return Poly({m: int(c) for m, c in p.t.items()})
        # integers over a common denominator
        if all(self.A.is_int[a] for m in p.t for a in m):
            den = 1
            for c in p.t.values():
                if c.__class__ is not int:
                    den = den * c.denominator // math.gcd(den, c.denominator)
            return self.floordiv(Poly({m: int(c * den) for m, c in p.t.items()}), den)
        key = ('floor', p.key())
        a = self.A.cache.get(key)
        if a is None:
            lo, hi = self.prange(None, p)
            a = self.A.new('floor', True, None if lo is None else math.floor(lo), None if hi is None else math.floor(hi), deps=p.atoms())
            e = poly_z3(self.A, p)
            if e.sort() == z3.IntSort():
                e = z3.ToReal(e)
            n = z3.ToReal(self.A.z3[a])
            self.A.side[a] = [n <= e, e < n + 1]
            self.A.cache[key] = a
        return Poly.atom(a)

    def trunc_real(self, st, p):
        if self.all_int(p):
            return self.floor_real(p)
        if self.decide(st, self.rel(p, 'lt')):
            return self.floor_real(p.neg()).neg()
        return self.floor_real(p)

    # ---- calls
    def op_call(self, st, fr, ins):
        op, dst, rt, callee, args = ins
        if callee.__class__ is not str:
            v = fr.regs[callee] if callee.__class__ is Reg else callee.v
            if v.__class__ is not FnPtr:
                raise Violation('pointer', 'call through an invalid function pointer')
            callee = v.name
        callee = self.replace.get(callee, callee)
        vals = []
        for ty, o, byval in args:
            vals.append(fr.regs[o] if o.__class__ is Reg else o.v)
        h = self.hooks.get(callee)
        if h is not None:
            r = h(st, vals)
        elif callee.startswith('llvm.memcpy') or callee.startswith('llvm.memmove'):
            r = self.hook_memmove(st, vals)
        elif callee.startswith('llvm.memset'):
            r = self.hook_memset(st, vals)
        elif callee.startswith('llvm.lifetime') or callee.startswith('llvm.dbg') or callee.startswith('llvm.assume'):
            r = None
        elif callee.startswith('llvm.fabs'):
            r = self.hook_fabs(st, vals)
        elif callee == '__cxa_throw' and 'vh_on_throw' in self.m.functions:
            # ends in the harness, as if the call that it made had returned after vh_on_throw()
            del st.stack[1:]
            self.push(st, 'vh_on_throw', [1 if vals[1].__class__ is Ptr and st.mem[vals[1].obj].name.startswith('@_ZTIP') else 0], None)
            return
        elif callee == '__cxa_allocate_exception':
            r = self.hook_malloc(st, vals)
        elif callee.startswith('llvm.is.fpclass'):
            r = self.fpclass(vals[0], vals[1])
        elif callee.startswith('llvm.va_'):
            raise Unsupported(callee)
        elif callee in self.m.functions:
            self.push(st, callee, vals, dst)
            return
        else:
            r = self.libm(st, callee, vals, rt)
        if dst is not None:
            fr.regs[dst] = r
        fr.idx += 1

    def fpclass(self, v, mask):
        """llvm.is.fpclass: bits for signalling NaN, NaN, -inf, -normal, -denormal, -0, +0, +denormal, +normal, +inf"""
        if v is UNDEF:
            raise Violation('uninitialised', 'class of an uninitialised value')
        if v.__class__ is float:
            if math.isnan(v):
                return int(bool(mask & 3))
            neg = math.copysign(1.0, v) < 0
            if math.isinf(v):
                return int(bool(mask & (4 if neg else 0x200)))
            k = mask & (0x38 if neg else 0x1c0)
            if k in (0, 0x38, 0x1c0):
                return int(bool(k))
            raise Unsupported('class of a number')
        if v.__class__ is not FK and mask & 0x1f8 in (0, 0x1f8):
            return int(bool(mask & 0x1f8))      # real numbers are finite
        if v.__class__ is FK and mask & 0x3fc in (0, 0x3fc):
            return int(bool(mask & 0x3fc))
        raise Unsupported('class of a symbolic number')

    def size_arg(self, st, v):
        return self.concrete(st, v, 64)

    def copy(self, st, d, s, n):
        if n == 0:
            return
        so, soff = self.access(st, s, n, False)
        # whole cells where possible
        cells = []
        i = soff
        end = soff + n
        c = so.cells
        while i < end:
            x = c.get(i)
            if x is not None and i + x[0] <= end:
                cells.append((i - soff, x))
                i += x[0]
            elif x is None and not any((c.get(i - b) or (0,))[0] > b for b in range(1, 16)):
                i += 1
            else:
                b = self.cells_at(so, i, 1)[0]
                if b is not None:
                    cells.append((i - soff, (1, b if b.__class__ is not int else sign(b, 8))))
                i += 1
        do, doff = self.access(st, d, n, True)
        self.clear(do, doff, n)
        for k, x in cells:
            do.cells[doff + k] = x

    def hook_memcpy(self, st, a):
        n = self.size_arg(st, a[2])
        if n and a[0].obj == a[1].obj and a[0].obj != 0 and a[0].off.__class__ is int and a[1].off.__class__ is int and abs(a[0].off - a[1].off) < n and a[0].off != a[1].off:
            raise Violation('overlap', 'memcpy of overlapping ranges')
        self.copy(st, a[0], a[1], n)
        return a[0]

    def hook_memmove(self, st, a):
        self.copy(st, a[0], a[1], self.size_arg(st, a[2]))
        return a[0]

    def hook_memset(self, st, a):
        n = self.size_arg(st, a[2])
        if n == 0:
            return a[0]
        v = self.concrete(st, a[1], 8) & 255
        o, off = self.access(st, a[0], n, True)
        self.clear(o, off, n)
        i = off
        end = off + n
        w4 = sign(v * 0x01010101, 32)
        w2 = sign(v * 0x0101, 16)
        w1 = sign(v, 8)
        while i < end:
            if i % 4 == 0 and i + 4 <= end:
                o.cells[i] = (4, w4)
                i += 4
            elif i % 2 == 0 and i + 2 <= end:
                o.cells[i] = (2, w2)
                i += 2
            else:
                o.cells[i] = (1, w1)
                i += 1
        return a[0]

    def hook_memcmp(self, st, a):
        n = self.size_arg(st, a[2])
        for i in range(n):
            x = self.load(st, self.padd(a[0], i), ('i', 8))
            y = self.load(st, self.padd(a[1], i), ('i', 8))
            px, py = self.unsigned(st, x, 8), self.unsigned(st, y, 8)
            if not self.decide(st, self.rel(px.sub(py), 'eq')):
                return -1 if self.decide(st, self.rel(px.sub(py), 'lt')) else 1
        return 0

    def hook_strlen(self, st, a):
        n = 0
        while True:
            x = self.load(st, self.padd(a[0], n), ('i', 8))
            if self.decide(st, self.rel(self.unsigned(st, x, 8), 'eq')):
                return n
            n += 1

    def hook_strcmp(self, st, a):
        i = 0
        while True:
            x = self.unsigned(st, self.load(st, self.padd(a[0], i), ('i', 8)), 8)
            y = self.unsigned(st, self.load(st, self.padd(a[1], i), ('i', 8)), 8)
            if not self.decide(st, self.rel(x.sub(y), 'eq')):
                return -1 if self.decide(st, self.rel(x.sub(y), 'lt')) else 1
            if self.decide(st, self.rel(x, 'eq')):
                return 0
            i += 1

    def hook_malloc(self, st, a):
        n = self.size_arg(st, a[0])
        return self.alloc(st, n, 'allocation of %d bytes' % n, heap=True)

    def hook_calloc(self, st, a):
        n = self.size_arg(st, a[0]) * self.size_arg(st, a[1])
        p = self.alloc(st, n, 'allocation of %d bytes' % n, heap=True)
        self.hook_memset(st, [p, 0, n])
        return p

    def hook_free(self, st, a):
        if a[0].obj:
            o = st.mem[a[0].obj]
            if not o.alive or not o.heap or a[0].off != 0:
                raise Violation('free', 'invalid free')
            o = o.copy(st.id)
            o.alive = False
            st.mem[a[0].obj] = o
        return None

    def hook_printf(self, st, a):
        return 0

    hook_fprintf = hook_printf
    hook_puts = hook_printf
    hook_putchar = hook_printf
    hook_fflush = hook_printf

    def hook_abs(self, st, a):
        p = self.signed(st, a[0], 32)
        if self.decide(st, self.rel(p, 'lt')):
            p = p.neg()
        return self.mkint(p)

    def hook_abort(self, st, a):
        raise Violation('abort', 'abort called')

    def hook___assert_fail(self, st, a):
        raise Violation('assert', 'assertion in the code failed')

    # harness interface
    def cstr(self, st, p):
        out = bytearray()
        o = st.mem[p.obj]
        i = p.off
        while True:
            c = o.cells[i][1]
            if c == 0:
                return out.decode('utf8', 'replace')
            out.append(c & 255)
            i += 1

    def hook_vh_ll_input(self, st, a):
        """(pointer, size, kind: 0 unsigned 1 signed 2 real 3 ordered float 4 bool, name)"""
        p, size, kind = a[0], a[1], a[2]
        name = self.cstr(st, a[3])
        if kind in (2, 3) and kind == 2:
            at = self.A.new(name, False)
            v = RV(Poly.atom(at))
            ty = 'float' if size == 4 else 'double'
        elif kind == 3:
            lim = 0x7f7fffff if size == 4 else 0x7fefffffffffffff
            v = FK(Poly.atom(self.A.new(name, True, -lim, lim)), size * 8)
            ty = 'float' if size == 4 else 'double'
        else:
            w = size * 8
            lo, hi = (0, (1 << w) - 1) if kind == 0 else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if kind == 4:
                lo, hi = 0, 1
            v = IV(Poly.atom(self.A.new(name, True, lo, hi)))
            ty = ('i', w)
        self.store(st, p, ty, v)
        st.inputs.append((name, v, kind, size))
        return None

    def hook_vh_ll_assume(self, st, a):
        v = a[0]
        if v.__class__ is int:
            if not v:
                self.covered(st.path)
                raise Infeasible()
            return None
        c = v.c if v.__class__ is BV else Rel(v.p, 'ne')
        q = st.path.quick(c)
        if q is None:
            ex = st.path.clone()
            if ex.add(c.neg()):
                self.covered(ex)
        if q is False or not st.path.add(c):
            raise Infeasible()
        if q is None:
            s = c.p.single() if c.__class__ is Rel else None
            if not (s and s[0] not in st.path.linked and c.op != 'ne'):
                ok, m = self.feasible(st, [])
                if not ok:
                    raise Infeasible()
                st.path.model = m
        return None

    def hook_vh_ll_assert(self, st, a):
        v = a[0]
        text = self.cstr(st, a[1])
        self.asserts += 1
        if v is UNDEF:
            raise Violation('assert', text + ' (uninitialised value)')
        if v.__class__ is int:
            if not v:
                raise Violation('assert', text)
            self.fast_asserts += 1
            return None
        c = v.c if v.__class__ is BV else Rel(v.p, 'ne')
        n = c.neg()
        ok, m = self.feasible(st, [n])
        if ok:
            self.record(st, Violation('assert', text, n), m)
        self.assume_now(st, c)
        return None

    def hook_vh_ll_reach(self, st, a):
        label = self.cstr(st, a[0])
        if label not in self.reached:
            ok, m = self.feasible(st, [])
            if not ok:
                raise Infeasible()
            self.reached[label] = self.model_inputs(st, m)
        return None

    # libm
    def hook_fabs(self, st, a):
        v = a[0]
        if v.__class__ is float:
            return abs(v)
        if v.__class__ is FK:
            return FK(v.p.neg(), v.prec) if self.decide(st, self.rel(v.p, 'lt')) else v
        p = self.real(v)
        return RV(p.neg()) if self.decide(st, self.rel(p, 'lt')) else v

    hook_fabsf = hook_fabs

    def libm(self, st, name, vals, rt):
        base = name[:-1] if name.endswith('f') and name not in ('erf',) else name
        known = ('exp', 'log', 'log2', 'log10', 'sqrt', 'sin', 'cos', 'tan', 'tanh', 'pow', 'floor', 'ceil', 'round', 'fmax', 'fmin', 'trunc', 'exp2', 'log1p', 'expm1', 'lroundf', 'lround', 'roundeven', 'rint', 'erf', 'atan', 'sinh', 'cosh', 'asin', 'acos')
        if base not in known:
            raise Unsupported('call of %s' % name)
        if any(v is UNDEF for v in vals):
            raise Violation('uninitialised', 'argument of %s uninitialised' % name)
        if all(v.__class__ is float for v in vals):
            try:
                if base == 'log2':
                    r = math.log2(vals[0])
                elif base == 'round':
                    r = math.copysign(math.floor(abs(vals[0]) + 0.5), vals[0])
                elif base == 'fmax':
                    r = max(vals)
                elif base == 'fmin':
                    r = min(vals)
                elif base == 'exp2':
                    r = 2.0 ** vals[0]
                else:
                    r = float(getattr(math, base)(*vals))
            except OverflowError:
                r = math.inf
            except ValueError:
                r = -math.inf if base.startswith('log') and vals[0] == 0 else math.nan
            return f32(r) if rt == 'float' else r
        if base in ('fmax', 'fmin'):
            t = self.fcmp(st, 'ogt', vals[0], vals[1])
            big = self.truth(st, t)
            return vals[0] if big == (base == 'fmax') else vals[1]
        p = [self.real(v) for v in vals]
        if base == 'pow' and vals[1].__class__ is float and vals[1] in (1.0, 2.0, 3.0):
            q = p[0]
            for _ in range(int(vals[1]) - 1):
                q = q.mul(p[0])
            return RV(q)
        if base == 'floor':
            return RV(self.floor_real(p[0]))
        if base == 'ceil':
            return RV(self.floor_real(p[0].neg()).neg())
        if base == 'trunc':
            return RV(self.trunc_real(st, p[0]))
        if base == 'round':
            if self.decide(st, self.rel(p[0], 'lt')):
                return RV(self.floor_real(p[0].neg().addc(Fraction(1, 2))).neg())
            return RV(self.floor_real(p[0].addc(Fraction(1, 2))))
        return RV(self.uf(base, p))

    def uf(self, base, p):
        key = ('uf', base) + tuple(x.key() for x in p)
        a = self.A.cache.get(key)
        if a is None:
            f = self.ufs.get(base)
            if f is None:
                f = z3.Function('uf_' + base, *([z3.RealSort()] * (len(p) + 1)))
                self.ufs[base] = f
            args = []
            deps = set()
            for x in p:
                e = poly_z3(self.A, x)
                args.append(z3.ToReal(e) if e.sort() == z3.IntSort() else e)
                deps |= x.atoms()
            lo = hi = None
            if base == 'tanh':
                lo, hi = -1, 1
            if base == 'sqrt':
                lo = 0
            if base in ('sin', 'cos'):
                lo, hi = -1, 1
            a = self.A.new(base, False, lo, hi, deps=deps)
            e = self.A.z3[a]
            self.A.side[a] = [e == f(*args)]
            if base == 'exp':
                self.A.side[a].append(e > 0)
            if base == 'sqrt':
                self.A.side[a].append(z3.Implies(args[0] >= 0, e * e == args[0]))
            self.A.cache[key] = a
        return Poly.atom(a)


CXX = ['-x', 'c++', '-std=c++17', '-nostdinc++', '-fno-threadsafe-statics']


def compile_ir(source, workdir, includes=(), defines=(), name='h', cxx=False):
    """C source text -> Module"""
    c = os.path.join(workdir, name + '.c')
    with open(c, 'w') as f:
        f.write(source)
    ll = os.path.join(workdir, name + '.ll')
    cmd = ['clang-18', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-builtin', '-w', '-fbracket-depth=8192', '-DVH_LL'] + (CXX if cxx else ['-std=gnu11']) + [
           '-I', core.INCLUDE, '-I', HARNESS] + ['-I' + i for i in includes] + ['-D' + d for d in defines] + [c, '-o', ll]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError('clang: %s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    p = subprocess.run(['opt-18', '-S', '-passes=' + ('function(lowerinvoke,simplifycfg<keep-loops;no-speculate-blocks>,mem2reg)' if cxx else 'mem2reg'), ll, '-o', ll + '2'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError('opt: %s' % p.stdout[-2000:])
    return llir.Module(open(ll + '2').read())
