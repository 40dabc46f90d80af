"""Engine C: symbolic execution of the real Python code.

Values of the code under test are proxies around Z3 terms (integers exact; floats as real numbers; strings). Every branch on a proxy is
decided by Z3 under the path condition; if both ways are feasible the run is repeated for the other one, until no path is left.
v.check(condition) asks Z3 for a counterexample over all values on that path. A counterexample is replayed: the same body is run
with ordinary Python/NumPy values on the real code, and only a reproduced failure is a violation."""
import os
import builtins
import dis
import importlib
import math
import random
import re
import sys
import time
import traceback
import types
from fractions import Fraction

import numpy
import z3

from . import core
from .core import CheckError

if core.REPO not in sys.path:
    sys.path.insert(0, core.REPO)

CUR = None      # the current symbolic run


class Failed(Exception):
    """a property does not hold (concrete run)"""


class Skip(Exception):
    """assumption not satisfied"""


class Abort(Exception):
    """path infeasible, or ends here"""


def isym(x):
    return isinstance(x, (SNum, SBool, SStr))


def unwrap(x):
    if isinstance(x, numpy.ndarray) and x.shape == ():
        x = x.item()
    if isinstance(x, numpy.generic):
        x = x.item()
    return x


def ex(x):
    """z3 term of a number or truth value"""
    x = unwrap(x)
    if isinstance(x, (SNum, SBool)):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise CheckError('not a finite number: %r' % x)
        f = Fraction(x)
        return z3.RealVal(f)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    raise CheckError('not a number: %r' % (x,))


def num(e):
    """proxy, or a plain value if the term is one"""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SNum(e)


def truth(c):
    """SBool or bool as z3"""
    c = unwrap(c)
    if isinstance(c, SBool):
        return c.e
    if isinstance(c, SNum):
        return c.e != 0
    return z3.BoolVal(bool(c))


def And(*cs):
    cs = [c for c in cs]
    if any(isym(c) for c in cs):
        return SBool(z3.And([truth(c) for c in cs]))
    return all(bool(c) for c in cs)


def Or(*cs):
    if any(isym(c) for c in cs):
        return SBool(z3.Or([truth(c) for c in cs]))
    return any(bool(c) for c in cs)


def Not(c):
    return SBool(z3.Not(truth(c))) if isym(c) else not c


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if not isym(c):
        return a if c else b
    x, y = ex(a), ex(b)
    if x.sort() != y.sort():
        x, y = toreal(x), toreal(y)
    return num(z3.If(truth(c), x, y))


def toreal(e):
    if z3.is_bool(e):
        e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return z3.ToReal(e) if z3.is_int(e) else e


class SBool:
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def logical_not(self):
        return Not(self)

    def __eq__(self, o):
        if isinstance(unwrap(o), (bool, SBool)):
            return SBool(self.e == truth(o))
        return num(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) == o

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def _n(self):
        return SNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def __repr__(self):
        return 'SBool(%s)' % self.e


def _arr(o):
    return isinstance(o, numpy.ndarray) and o.shape != ()


class SNum:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return z3.is_int(self.e)

    def _two(self, o):
        a, b = self.e, ex(o)
        if z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        return a, b

    def _op(f):
        def g(self, o):
            if _arr(o) or isinstance(o, (str, list, tuple, type(None))):
                return NotImplemented
            if not isinstance(unwrap(o), (int, float, Fraction, SNum, SBool)):
                return NotImplemented
            return f(self, o)
        return g

    @_op
    def __add__(self, o):
        a, b = self._two(o)
        return num(a + b)
    __radd__ = __add__

    @_op
    def __sub__(self, o):
        a, b = self._two(o)
        return num(a - b)

    @_op
    def __rsub__(self, o):
        a, b = self._two(o)
        return num(b - a)

    @_op
    def __mul__(self, o):
        a, b = self._two(o)
        return num(a * b)
    __rmul__ = __mul__

    @_op
    def __truediv__(self, o):
        return _div(self, o)

    @_op
    def __rtruediv__(self, o):
        return _div(o, self)

    @_op
    def __floordiv__(self, o):
        a, b = self._two(o)
        if isinstance(o, int) and o > 0 and z3.is_int(a):
            return num(a / b)
        return _floor(_div(self, o))

    @_op
    def __mod__(self, o):
        a, b = self._two(o)
        if isinstance(o, int) and o > 0 and z3.is_int(a):
            return num(a % b)
        return self - _floor(_div(self, o)) * o

    def __lshift__(self, n):
        if isinstance(n, int) and self.is_int:
            return self * (1 << n)
        raise CheckError('shift by a symbolic amount')

    def __rshift__(self, n):
        if isinstance(n, int) and self.is_int:
            return num(self.e / (1 << n))
        raise CheckError('shift by a symbolic amount')

    def __pow__(self, n):
        n = unwrap(n)
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int) and n >= 0:
            out = 1
            for _ in range(n):
                out = self * out
            return out
        if n == 0.5:
            return self.sqrt()
        raise CheckError('power %r' % (n,))

    def __neg__(self):
        return num(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return num(z3.If(self.e >= 0, self.e, -self.e))

    @_op
    def __lt__(self, o):
        a, b = self._two(o)
        return _b(a < b)

    @_op
    def __le__(self, o):
        a, b = self._two(o)
        return _b(a <= b)

    @_op
    def __gt__(self, o):
        a, b = self._two(o)
        return _b(a > b)

    @_op
    def __ge__(self, o):
        a, b = self._two(o)
        return _b(a >= b)

    def __eq__(self, o):
        if _arr(o):
            return NotImplemented
        if not isinstance(unwrap(o), (int, float, Fraction, SNum, SBool)):
            return False
        if isinstance(o, float) and (o != o or math.isinf(o)):
            return False
        a, b = self._two(o)
        return _b(a == b)

    def __ne__(self, o):
        if _arr(o):
            return NotImplemented
        return Not(self == o)

    def __hash__(self):
        raise CheckError('hash of a symbolic number')

    def __bool__(self):
        return CUR.branch(self.e != 0)

    # float() and int() must give plain values: the modules under test get replacements for them
    def __index__(self):
        return CUR.concretize(self.e)

    def __int__(self):
        return CUR.concretize(_trunc(self).e if isym(_trunc(self)) else z3.IntVal(_trunc(self)))

    def __float__(self):
        # only '%f' % x asks for a float this way, without a replacement for float() in between: the text can be recognised
        f = sys._getframe(1)
        at = [i for i in dis.get_instructions(f.f_code) if i.offset == f.f_lasti]
        if at and at[0].opname == 'BINARY_OP' and at[0].argrepr == '%':
            return CUR.sentinel(self)
        raise TypeError('symbolic number cannot be made a float')

    def __trunc__(self):
        return _trunc(self)

    def __floor__(self):
        return _floor(self)

    def __ceil__(self):
        return -_floor(-self)

    def __round__(self, n=None):
        if n is None or n == 0:
            return _rint(self)
        return _rint(self * 10**n) / 10**n

    def is_integer(self):
        return _b(z3.IsInt(toreal(self.e)))

    # called by numpy functions on arrays of objects
    def rint(self):
        return _rint(self)

    def floor(self):
        return _floor(self)

    def ceil(self):
        return -_floor(-self)

    def trunc(self):
        return _trunc(self)

    def sqrt(self):
        CUR.axiom(self.e >= 0, 'square root of a negative number')
        y = CUR.fresh_real('sqrt')
        CUR.define(z3.And(y >= 0, y * y == toreal(self.e)))
        return SNum(y)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    def __format__(self, spec):
        return CUR.token(self, spec)

    def __str__(self):
        return CUR.token(self, '')

    def __repr__(self):
        return CUR.token(self, '') if CUR is not None else 'SNum(%s)' % self.e


def _b(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def _div(a, b):
    x, y = toreal(ex(a)), toreal(ex(b))
    y = z3.simplify(y)
    if z3.is_rational_value(y):
        if y.as_fraction() == 0:
            raise ZeroDivisionError('division by zero')
    elif CUR.branch(y == 0):
        raise ZeroDivisionError('division by zero')
    return num(x / y)


def _floor(x):
    if not isym(x):
        return math.floor(x)
    if x.is_int:
        return x
    return num(z3.ToInt(x.e))


def _trunc(x):
    if not isym(x):
        return math.trunc(x)
    if x.is_int:
        return x
    return num(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))


def _rint(x):
    """to nearest, ties to even"""
    if not isym(x):
        return round(x)
    if x.is_int:
        return x
    f = z3.ToInt(x.e)
    d = x.e - z3.ToReal(f)
    half = z3.RealVal('1/2')
    return num(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))


def sym_int(x=0, *a):
    x0 = unwrap(x)
    if isinstance(x0, SNum):
        return _trunc(x0)
    if isinstance(x0, SBool):
        return x0._n()
    if isinstance(x0, str) and CUR is not None and not a:
        n = CUR.number(x0)
        if n is not None:
            if not n.is_int:
                raise ValueError('invalid literal for int() with base 10: %r' % x0)
            return n
    return builtins.int(x, *a)


def sym_float(x=0.0):
    x0 = unwrap(x)
    if isinstance(x0, SNum):
        return SNum(toreal(x0.e))
    if isinstance(x0, str) and CUR is not None:
        n = CUR.number(x0)
        if n is not None:
            return SNum(toreal(n.e))
    return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int) or (isinstance(o, SNum) and o.is_int)

    def __call__(cls, *a):
        return sym_int(*a)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float) or (isinstance(o, SNum) and not o.is_int)

    def __call__(cls, *a):
        return sym_float(*a)


class IntShim(metaclass=_IntMeta):
    pass


class FloatShim(metaclass=_FloatMeta):
    pass


def _to_float(v, dt):
    x = toreal(v.e)
    if dt.itemsize >= 8:
        return SNum(x)
    # rounding to a shorter type: the same value always gives the same result, within half a unit in the last place
    y = CUR.uf('round_%s' % dt.name, v)
    err = z3.If(x >= 0, x, -x) / (2 ** {4: 24, 2: 11}[dt.itemsize]) + (z3.RealVal('1/1' + 45 * '0') if dt.itemsize == 4 else z3.RealVal('1/10000000'))
    CUR.define(z3.And(y.e - x <= err, x - y.e <= err))
    return y


class SArr(numpy.ndarray):
    """an array of proxies; conversion of the element type is modelled"""

    def astype(self, dtype, *a, **k):
        if dtype is int or dtype is IntShim:
            dtype = numpy.dtype('int64')
        elif dtype is float or dtype is FloatShim:
            dtype = numpy.dtype('float64')
        dt = numpy.dtype(dtype)
        out = numpy.empty(self.shape, dtype=object).view(SArr)
        for i in numpy.ndindex(*self.shape):
            v = numpy.ndarray.__getitem__(self, i)
            if dt.kind in 'iu':
                t = _trunc(v) if isym(v) else math.trunc(v)
                info = numpy.iinfo(dt)
                if isym(t) or isinstance(v, (int, numpy.integer)):
                    inside = And(t >= int(info.min), t <= int(info.max))
                    if isym(inside) and not CUR.branch(inside.e) or inside is False:
                        # out of range: integers wrap, for others the result is not defined
                        if isym(v) and v.is_int or isinstance(v, (int, numpy.integer)):
                            out[i] = (t - int(info.min)) % (int(info.max) - int(info.min) + 1) + int(info.min)
                            continue
                        u = CUR.fresh_int('undefined')
                        CUR.define(z3.And(u >= int(info.min), u <= int(info.max)))
                        t = SNum(u)
                out[i] = t
            elif dt.kind == 'f':
                out[i] = _to_float(v, dt) if isym(v) else float(dt.type(v))
            elif dt.kind == 'b':
                out[i] = bool(v)
            elif dt.kind == 'O':
                out[i] = v
            else:
                raise CheckError('astype %r' % (dt,))
        out.vdtype = dt
        return out

    @property
    def dtype(self):
        d = getattr(self, 'vdtype', None)
        return d if d is not None else numpy.ndarray.dtype.__get__(self)

    def __array_finalize__(self, obj):
        self.vdtype = None


def sarr(values):
    a = numpy.empty(numpy.shape(values) if not isinstance(values, numpy.ndarray) else values.shape, dtype=object)
    src = numpy.array(values, dtype=object)
    for i in numpy.ndindex(*a.shape):
        a[i] = src[i]
    return a.view(SArr)


def _has_sym(x):
    if isym(x):
        return True
    if isinstance(x, numpy.ndarray):
        return numpy.ndarray.dtype.__get__(x) == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(i) for i in x)
    return False


class NumpyShim:
    """numpy, with arrays that can hold proxies"""

    def __getattr__(self, n):
        return getattr(numpy, n)

    def zeros(self, shape, dtype=None, **k):
        if dtype is not None and numpy.dtype(dtype if dtype not in (FloatShim, IntShim) else float).kind not in 'f':
            return numpy.zeros(shape, dtype, **k)
        a = numpy.zeros(shape, dtype=object).view(SArr)
        a[...] = 0.0
        return a

    def ones(self, shape, dtype=None, **k):
        if dtype is not None and numpy.dtype(dtype if dtype not in (FloatShim, IntShim) else float).kind not in 'f':
            return numpy.ones(shape, dtype, **k)
        return self.zeros(shape) + 1.0

    def empty(self, shape, dtype=None, **k):
        return self.zeros(shape, dtype)

    def ndarray(self, shape, dtype=None, **k):
        return self.zeros(shape, dtype)

    def zeros_like(self, a, **k):
        return self.zeros(numpy.shape(a))

    def full(self, shape, v, **k):
        a = self.zeros(shape)
        a[...] = v
        return a

    def array(self, x, dtype=None, **k):
        if _has_sym(x):
            a = sarr(x)
            return a if dtype is None else a.astype(dtype)
        if dtype in (FloatShim, IntShim):
            dtype = {FloatShim: float, IntShim: int}[dtype]
        return numpy.array(x, dtype=dtype, **k)

    def asarray(self, x, dtype=None, **k):
        return self.array(x, dtype)

    def trunc(self, x):
        return numpy.vectorize(_trunc, otypes=[object])(x).view(SArr) if _has_sym(x) and isinstance(x, numpy.ndarray) else _trunc(x) if isym(x) else numpy.trunc(x)

    def round(self, x, decimals=0):
        if _has_sym(x):
            if isym(x):
                return _rint(x * 10**decimals) / 10**decimals if decimals else _rint(x)
            return sarr(numpy.array([self.round(v, decimals) for v in numpy.ravel(x)], dtype=object).reshape(numpy.shape(x)))
        return numpy.round(x, decimals)
    around = round

    def _each(self, name, x, one):
        if isinstance(x, (list, tuple)) and _has_sym(x):
            x = sarr(x)
        if isinstance(x, numpy.ndarray) and numpy.ndarray.dtype.__get__(x) == object:
            out = numpy.empty(x.shape, dtype=object)
            for i in numpy.ndindex(*x.shape):
                v = numpy.ndarray.__getitem__(x, i)
                out[i] = one(v) if isym(v) else getattr(numpy, name)(float(v))
            return out.view(SArr) if out.shape else out.item()
        return one(x) if isym(x) else getattr(numpy, name)(x)

    def log2(self, x):
        return self._each('log2', x, lambda v: CUR.uf('log2', v))

    def log(self, x):
        return self._each('log', x, lambda v: CUR.uf('log', v))

    def log10(self, x):
        return self._each('log10', x, lambda v: CUR.uf('log10', v))

    def exp(self, x):
        return self._each('exp', x, lambda v: CUR.uf('exp', v))

    def sqrt(self, x):
        return self._each('sqrt', x, lambda v: v.sqrt())

    def floor(self, x):
        return self._each('floor', x, lambda v: v.floor())

    def ceil(self, x):
        return self._each('ceil', x, lambda v: v.ceil())

    def square(self, x):
        return x * x if _has_sym(x) else numpy.square(x)

    def maximum(self, a, b):
        if _has_sym(a) or _has_sym(b):
            a, b = numpy.broadcast_arrays(numpy.array(a, dtype=object), numpy.array(b, dtype=object))
            o = numpy.empty(a.shape, dtype=object)
            for i in numpy.ndindex(*a.shape):
                o[i] = a[i] if a[i] >= b[i] else b[i]
            return o.view(SArr) if o.shape else o.item()
        return numpy.maximum(a, b)

    def minimum(self, a, b):
        r = self.maximum(-numpy.array(a, dtype=object) if _arr(a) else -a, -numpy.array(b, dtype=object) if _arr(b) else -b)
        return -r

    def sign(self, x):
        return Ite(x > 0, 1, Ite(x < 0, -1, 0)) if isym(x) else numpy.sign(x)

    def abs(self, x):
        return abs(x) if _has_sym(x) else numpy.abs(x)
    absolute = abs
    fabs = abs

    def isfinite(self, x):
        return numpy.ones(numpy.shape(x), dtype=bool) if _has_sym(x) else numpy.isfinite(x)

    def isnan(self, x):
        return numpy.zeros(numpy.shape(x), dtype=bool) if _has_sym(x) else numpy.isnan(x)

    def float64(self, x=0.0):
        return sym_float(x)


SHIM = NumpyShim()


# ---- strings -------------------------------------------------------------------------------------------------------------------

SYMNAME = 'symbolicname'


def known_strings(modules):
    """all strings the modules could compare with or look up: constants of their code and of their global containers"""
    out, seen = set(), set()

    def code(c):
        for k in c.co_consts:
            if hasattr(k, 'co_consts'):
                code(k)
            else:
                value(k, 0)

    def value(x, depth):
        if isinstance(x, str):
            out.add(x)
        elif depth < 4 and id(x) not in seen:
            seen.add(id(x))
            if isinstance(x, dict):
                for k, y in x.items():
                    value(k, depth + 1)
                    value(y, depth + 1)
            elif isinstance(x, (list, tuple, set, frozenset)):
                for y in x:
                    value(y, depth + 1)
            elif hasattr(x, '__code__') and str(getattr(x, '__module__', '')).startswith('emlearn'):
                code(x.__code__)

    for m in modules:
        for k, x in list(vars(m).items()):
            if k != '__builtins__':
                value(x, 0)
    return sorted(x for x in out if 0 < len(x) < 40 and x.isprintable() and re.fullmatch(r'[\w.-]+', x))


_CASES = {}


def _cased(fold, c):
    """the code points that the case conversion turns into text that starts with the character c, and that text"""
    if fold not in _CASES:
        _CASES[fold] = {}
        for cp in range(0x30000):
            t = getattr(chr(cp), fold)()
            _CASES[fold].setdefault(t[0], []).append((cp, t))
    return _CASES[fold].get(c, [])


class Cased:
    """a symbolic string in lower or upper case: comparison with ASCII text, and membership"""
    __slots__ = ('s', 'fold')

    def __init__(self, s, fold):
        self.s, self.fold = s, fold

    def preimage(self, text):
        if getattr(text, self.fold)() != text:
            return None
        if not text.isascii():
            raise CheckError('case conversion of other than ASCII text')
        memo = {len(text): z3.Re('')}
        for i in range(len(text) - 1, -1, -1):
            options = [z3.Concat(z3.Re(strval(chr(cp))), memo[i + len(t)]) for cp, t in _cased(self.fold, text[i]) if text.startswith(t, i) and memo.get(i + len(t)) is not None]
            memo[i] = None if not options else options[0] if len(options) == 1 else z3.Union(*options)
        return memo[0]

    def __eq__(self, o):
        if isinstance(o, Cased) and o.fold == self.fold and o.s.e.eq(self.s.e):
            return True
        if not isinstance(o, str):
            if isinstance(o, (SStr, Cased)):
                return getattr(self.s.pinned(), self.fold)() == o
            return False
        r = self.preimage(o)
        return False if r is None else SBool(z3.InRe(self.s.e, r))

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        for k in CUR.owner.strings():
            c = self == k
            if c is not False and CUR.branch(c.e):
                return hash(k)
        return 0x5eed

    def __bool__(self):
        return bool(self.s)

    def __str__(self):
        return getattr(self.s.pinned(), self.fold)()

    def __getattr__(self, n):
        if n in ('lower', 'upper', 'casefold') and n == self.fold:
            return lambda: self
        if hasattr(str, n):
            return getattr(getattr(self.s.pinned(), self.fold)(), n)
        raise AttributeError(n)


class SStr:
    """symbolic string (equality, membership, regular expressions, first character)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SStr):
            return SBool(self.e == o.e)
        return SBool(self.e == strval(o)) if isinstance(o, str) else False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        # which of the strings it may be looked up among it is, if any, is decided on this path first
        for k in CUR.owner.strings():
            if CUR.branch(self.e == strval(k)):
                return hash(k)
        return 0x5eed

    def __len__(self):
        return CUR.concretize(z3.Length(self.e))

    def pinned(self):
        """the one value the string can have on this path"""
        if not CUR.sat():
            raise Abort()
        v = CUR.solver.model().eval(self.e, model_completion=True)
        if CUR.sat(self.e != v):
            raise CheckError('case conversion of an undetermined string')
        return v.as_string()

    def title(self):
        return self.pinned().title()

    def lower(self):
        return Cased(self, 'lower')

    def upper(self):
        return Cased(self, 'upper')

    def casefold(self):
        return Cased(self, 'casefold')

    def capitalize(self):
        return self.pinned().capitalize()

    def __bool__(self):
        return CUR.branch(z3.Length(self.e) > 0)

    def __getitem__(self, i):
        if isinstance(i, int):
            n = z3.Length(self.e)
            at = z3.IntVal(i) if i >= 0 else n + i
            if CUR.branch(z3.Or(at < 0, at >= n)):
                raise IndexError('string index out of range')
            return SStr(z3.SubString(self.e, at, 1))
        if isinstance(i, slice) and i.step in (None, 1) and (i.start is None or i.start >= 0) and i.stop is None:
            s = i.start or 0
            n = z3.Length(self.e)
            return SStr(z3.If(n <= s, z3.StringVal(''), z3.SubString(self.e, s, n - s)))
        raise CheckError('slice of a symbolic string')

    def __contains__(self, o):
        return CUR.branch(z3.Contains(self.e, o.e if isinstance(o, SStr) else strval(o)))

    def startswith(self, o):
        return Or(*[SBool(z3.PrefixOf(strval(x), self.e)) for x in ([o] if isinstance(o, str) else o)])

    def endswith(self, o):
        return Or(*[SBool(z3.SuffixOf(strval(x), self.e)) for x in ([o] if isinstance(o, str) else o)])

    def _cls(self, pred):
        return SBool(z3.And(z3.Length(self.e) > 0, z3.InRe(self.e, z3.Star(charset(pred)))))

    def isdigit(self):
        return self._cls(lambda c: chr(c).isdigit())

    def isalpha(self):
        return self._cls(lambda c: chr(c).isalpha())

    def isalnum(self):
        return self._cls(lambda c: chr(c).isalnum())

    def isascii(self):
        return SBool(z3.InRe(self.e, z3.Star(z3.Range(strval('\0'), strval('\x7f')))))

    def isidentifier(self):
        first = charset(lambda c: chr(c).isidentifier())
        rest = charset(lambda c: ('a' + chr(c)).isidentifier())
        return SBool(z3.InRe(self.e, z3.Concat(first, z3.Star(rest))))

    def __add__(self, o):
        return SYMNAME + str(o)

    def __radd__(self, o):
        return str(o) + SYMNAME

    def __str__(self):
        return SYMNAME

    def __format__(self, spec):
        return SYMNAME


def strval(s):
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))


MAXCHAR = 0x2ffff
_sets = {}
_alphabet = []


def alphabet():
    """the code points that strings are made of: all up to U+017F, those that are ASCII in another case, and of the others one for each combination of
    what Python can tell about a character (the code under test treats the characters of a class alike, unless it names one)"""
    if not _alphabet:
        seen = set()
        for c in range(MAXCHAR + 1):
            s = chr(c)
            if c < 0x180 or any(x.isascii() for f in (s.lower(), s.upper(), s.casefold()) for x in f):
                _alphabet.append(c)
                continue
            k = (s.isalpha(), s.isdigit(), s.isdecimal(), s.isnumeric(), s.isidentifier(), ('a' + s).isidentifier(), s.isspace(), s.isupper(), s.islower(), s.istitle(), s.isprintable(),
                 len(s.splitlines()[0]) == 0 if s else 0, 0xd800 <= c < 0xe000, len(s.upper()) > 1)
            if k not in seen and not 0xd800 <= c < 0xe000:
                seen.add(k)
                _alphabet.append(c)
        _alphabet.sort()
    return _alphabet


def charset(pred):
    """z3 regular expression of one character, for a predicate on code points"""
    ranges = []
    start = None
    last = None
    for c in alphabet() + [None]:
        ok = c is not None and pred(c)
        if ok and start is None:
            start = c
        elif not ok and start is not None:
            ranges.append((start, last))
            start = None
        last = c
    if not ranges:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    rs = [z3.Range(strval(chr(a)), strval(chr(b))) for a, b in ranges]
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def cached_charset(key, pred):
    if key not in _sets:
        _sets[key] = charset(pred)
    return _sets[key]


def regex_z3(pattern, flags=0, full=True):
    """(z3 regular expression matching the whole string) equivalent to re.fullmatch, or re.match (full=False)"""
    import re._parser as sre
    import re._constants as K
    tree = sre.parse(pattern, flags)
    RS = z3.ReSort(z3.StringSort())
    anychar = z3.Range(strval('\0'), strval(chr(MAXCHAR)))
    eps = z3.Re('')
    ascii_only = bool(flags & re.ASCII)
    CAT = {K.CATEGORY_DIGIT: lambda c: chr(c).isdecimal() if not ascii_only else 48 <= c <= 57,
           K.CATEGORY_WORD: lambda c: (chr(c).isalnum() or c == 95) and (not ascii_only or c < 128),
           K.CATEGORY_SPACE: lambda c: chr(c).isspace()}
    NCAT = {K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT, K.CATEGORY_NOT_WORD: K.CATEGORY_WORD, K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE}

    def members(items):
        """predicate for a character class"""
        neg = False
        tests = []
        for op, av in items:
            if op is K.NEGATE:
                neg = True
            elif op is K.LITERAL:
                tests.append(lambda c, av=av: c == av)
            elif op is K.RANGE:
                tests.append(lambda c, av=av: av[0] <= c <= av[1])
            elif op is K.CATEGORY:
                if av in CAT:
                    tests.append(CAT[av])
                else:
                    tests.append(lambda c, f=CAT[NCAT[av]]: not f(c))
            else:
                raise CheckError('regular expression class %r' % (op,))

        def p(c):
            if flags & re.IGNORECASE:
                s = chr(c)
                cs = {ord(x) for x in (s, s.lower(), s.upper()) if len(x) == 1}
                r = any(t(x) for t in tests for x in cs)
            else:
                r = any(t(c) for t in tests)
            return r != neg
        return p

    def seq(items, rest):
        """regular expression of the items followed by rest (a z3 expression)"""
        out = rest
        for op, av in reversed(list(items)):
            if op is K.AT:
                if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                    continue        # only accepted at the start, see below
                if av is K.AT_END:
                    # end, or before a last newline
                    out = z3.Intersect(out, z3.Option(z3.Re(strval('\n'))))
                    continue
                if av is K.AT_END_STRING:
                    out = z3.Intersect(out, eps)
                    continue
                raise CheckError('regular expression anchor %r' % (av,))
            out = z3.Concat(one(op, av), out)
        return out

    def one(op, av):
        if op is K.LITERAL:
            return cached_charset(('l', av, flags), members([(op, av)]))
        if op is K.NOT_LITERAL:
            return cached_charset(('n', av, flags), members([(K.NEGATE, None), (K.LITERAL, av)]))
        if op is K.ANY:
            return anychar if flags & re.DOTALL else cached_charset('any', lambda c: c != 10)
        if op is K.IN:
            return cached_charset(('in', str(av), flags), members(av))
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            e = seq(sub, eps)
            if hi is K.MAXREPEAT:
                return z3.Star(e) if lo == 0 else z3.Plus(e) if lo == 1 else z3.Concat(z3.Loop(e, lo, lo), z3.Star(e))
            return z3.Loop(e, lo, hi)
        if op is K.SUBPATTERN:
            return seq(av[3], eps)
        if op is K.BRANCH:
            alts = [seq(a, eps) for a in av[1]]
            return z3.Union(*alts)
        raise CheckError('regular expression %r' % (op,))
    for k, (op, av) in enumerate(tree):
        if op is K.AT and av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING) and k != 0:
            raise CheckError('regular expression anchor inside')
    return seq(tree, eps if full else z3.Star(anychar))


class ReShim:
    def __getattr__(self, n):
        return getattr(re, n)

    def _m(self, pattern, s, flags, full, search=False):
        if not isinstance(s, SStr):
            f = re.search if search else re.fullmatch if full else re.match
            return f(pattern, s, flags)
        if isinstance(pattern, re.Pattern):
            flags, pattern = pattern.flags & ~re.UNICODE, pattern.pattern
        e = regex_z3(pattern, flags, full)
        if search and not pattern.startswith(('^', '\\A')):
            e = z3.Concat(z3.Star(z3.Range(strval('\0'), strval(chr(MAXCHAR)))), e)
        return True if CUR.branch(z3.InRe(s.e, e)) else None

    def fullmatch(self, pattern, s, flags=0):
        return self._m(pattern, s, flags, True)

    def match(self, pattern, s, flags=0):
        return self._m(pattern, s, flags, False)

    def search(self, pattern, s, flags=0):
        return self._m(pattern, s, flags, False, True)

    def compile(self, pattern, flags=0):
        return RePattern(self, pattern, flags)


class RePattern:
    def __init__(self, shim, pattern, flags=0):
        self.shim, self.p, self.f = shim, pattern, flags

    def fullmatch(self, s):
        return self.shim.fullmatch(self.p, s, self.f)

    def match(self, s):
        return self.shim.match(self.p, s, self.f)

    def search(self, s):
        return self.shim.search(self.p, s, self.f)

    def __getattr__(self, n):
        return getattr(re.compile(self.p, self.f), n)


class Words:
    """a set or list of strings that a symbolic string can be looked up in"""

    def __init__(self, words):
        self.words = words

    def __contains__(self, s):
        if isinstance(s, SStr):
            return CUR.branch(z3.Or([s.e == strval(w) for w in self.words]))
        if isinstance(s, Cased):
            pre = [s.preimage(w) for w in self.words]
            return CUR.branch(z3.Or([z3.InRe(s.s.e, r) for r in pre if r is not None]))
        return s in self.words

    def __iter__(self):
        return iter(self.words)

    def __len__(self):
        return len(self.words)


def _as_double(x):
    """the double nearest to an integer (of up to 64 bits), ties to even"""
    r = x
    for k in range(1, 12):
        u = 2**k
        q = (x + u // 2) // u
        q = Ite(And((x + u // 2) % u == 0, q % 2 == 1), q - 1, q)
        r = Ite(abs(x) > 2**(52 + k), q * u, r)
    return r


def denoted(v, text):
    """the number a C literal (made by the code under test) stands for, or a range (lo, hi) of it"""
    t = text.strip()
    if t.endswith('f') and not t.lower().startswith('0x'):
        t = t[:-1]
    m = TOKEN.fullmatch(t.strip())
    if not m:
        neg = t.startswith('-') and TOKEN.fullmatch(t[1:].strip())
        if neg:
            lo, hi = denoted(v, t[1:])
            return -hi, -lo
        f = Fraction(t)
        at = f - 736000
        if getattr(v, 'sentinels', None) and at.denominator == 1 and 0 <= at < len(v.sentinels):
            # see __float__
            x = v.sentinels[int(at)]
            digits = t.partition('.')[2]
            if 'e' in t.lower():
                raise CheckError('number with an exponent')
            half = Fraction(1, 2 * 10**len(digits)) if digits else abs(x) * Fraction(1, 2 * 10**5)
            return x - half, x + half
        f = f.numerator if f.denominator == 1 else f
        return f, f
    x, spec = v.tokens[int(m.group(1))]
    d = re.fullmatch(r'[+]?\.(\d+)f', spec)
    if d and x.is_int:
        # an integer is made a double first
        x = _as_double(x)
        return x, x
    if d:
        half = Fraction(1, 2 * 10**int(d.group(1)))
        return x - half, x + half
    d = re.fullmatch(r'[+]?\.(\d+)[ge]', spec)
    if d:
        # significant digits
        rel = abs(x) * Fraction(1, 2 * 10**(int(d.group(1)) - (spec[-1] == 'g')))
        return x - rel, x + rel
    if spec in ('', 'd'):
        if spec == 'd' and not x.is_int:
            raise ValueError("Unknown format code 'd' for object of type 'float'")
        return x, x
    raise CheckError('number format %r' % spec)


# ---- runs ----------------------------------------------------------------------------------------------------------------------

TOKEN = re.compile('⟪(\\d+)⟫')


class Base:
    def check(self, c, msg):
        raise NotImplementedError

    def equal(self, a, b, msg):
        """equal (real numbers: exactly; replayed: within float rounding)"""
        raise NotImplementedError


class Run(Base):
    symbolic = True

    def __init__(self, prefix, owner):
        self.prefix = prefix
        self.given = []
        self.taken = []
        self.owner = owner
        self.solver = z3.Solver()
        self.solver.set('timeout', owner.timeout_ms)
        self.inputs = []
        self.pc = []
        self.fresh_n = 0
        self.tokens = []
        self.sentinels = []
        self.texts = []
        self.ufs = {}

    # inputs
    def int(self, name, lo=None, hi=None):
        x = z3.Int(name)
        self._bound(x, lo, hi)
        self.inputs.append((name, 'int', x))
        return SNum(x)

    def real(self, name, lo=None, hi=None):
        x = z3.Real(name)
        self._bound(x, lo, hi)
        self.inputs.append((name, 'real', x))
        return SNum(x)

    def bool(self, name):
        x = z3.Bool(name)
        self.inputs.append((name, 'bool', x))
        return SBool(x)

    def string(self, name, maxlen=None):
        x = z3.String(name)
        if maxlen is not None:
            self.define(z3.Length(x) <= maxlen)
        gaps = []
        a = alphabet()
        start = a[0]
        for c, d in zip(a, a[1:] + [None]):
            if d != c + 1:
                gaps.append((start, c))
                start = d
        self.define(z3.InRe(x, z3.Star(z3.Union(*[z3.Range(strval(chr(a)), strval(chr(b))) for a, b in gaps]))))
        self.inputs.append((name, 'string', x))
        return SStr(x)

    def _bound(self, x, lo, hi):
        if lo is not None:
            self.define(x >= ex(lo))
        if hi is not None:
            self.define(x <= ex(hi))

    def array(self, name, shape, lo=None, hi=None, kind='real'):
        a = numpy.empty(shape, dtype=object, order="F")
        for i in numpy.ndindex(*a.shape):
            a[i] = getattr(self, kind)('%s_%s' % (name, '_'.join(map(str, i))), lo, hi)
        a = a.view(SArr)
        self.given.append((a, a.copy()))
        return a

    def unchanged(self):
        """code under test leaves the arrays that it is given alone"""
        for a, was in self.given:
            for x, y in zip(a.flat, was.flat):
                if x is not y:
                    self.check(x == y, 'an array that was given is not changed')

    # reasoning
    def define(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def axiom(self, e, what):
        if self.sat(z3.Not(e)):
            raise CheckError(what)

    def fresh_real(self, name):
        self.fresh_n += 1
        return z3.Real('%s!%d' % (name, self.fresh_n))

    def fresh_int(self, name):
        self.fresh_n += 1
        return z3.Int('%s!%d' % (name, self.fresh_n))

    def uf(self, name, x):
        f = self.ufs.get(name)
        if f is None:
            f = self.ufs[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
        return SNum(f(toreal(ex(x))))

    def sat(self, *es):
        t = time.time()
        r = self.solver.check(*es)
        self.owner.seconds += time.time() - t
        self.owner.queries += 1
        if r == z3.unknown:
            reason = self.solver.reason_unknown()
            if self.pinned(*es) is not None:
                return True
            raise CheckError('%s: solver gave up: %s' % (self.owner.name, reason))
        return r == z3.sat

    def pinned(self, *es):
        """a model of the path condition and es where most of the real inputs have values chosen here: for queries
        with products that the solver does not decide"""
        reals = [x for _, k, x in self.inputs if k == 'real']
        if not reals:
            return None
        rnd = random.Random(7)
        t = time.time()
        for n in range(60):
            self.solver.push()
            try:
                self.solver.add(*es)
                left = set(rnd.sample(range(len(reals)), min(len(reals), n % 3)))
                scale = rnd.choice((1, 1, 1, 10, 1000, 100000))
                for i, x in enumerate(reals):
                    if i not in left:
                        self.solver.add(x == z3.RealVal(rnd.choice((0, 1, -1, 2, -2, 3, -5, 7))) * scale / rnd.choice((1, 1, 2, 8)))
                self.solver.set('timeout', 2000)
                if self.solver.check() == z3.sat:
                    return self.solver.model()
            finally:
                self.solver.pop()
                self.solver.set('timeout', self.owner.timeout_ms)
            if time.time() - t > 20:
                break
        return None

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = len(self.taken)
        if k < len(self.prefix):
            way = self.prefix[k]
            if way not in (True, False):
                raise CheckError('runs are not repeatable')
        else:
            a, b = self.sat(e), self.sat(z3.Not(e))
            if not a and not b:
                raise Abort()
            way = a
            if a and b:
                self.owner.todo.append(self.taken + [False])
        self.taken.append(way)
        self.define(e if way else z3.Not(e))
        return way

    def concretize(self, e):
        """all values of an integer term, one per run"""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        k = len(self.taken)
        if k < len(self.prefix):
            way = self.prefix[k]
        else:
            if not self.sat():
                raise Abort()
            way = self.solver.model().eval(e, model_completion=True).as_long()
            if self.sat(e != way):
                self.owner.todo.append(self.taken + [('not', (way,))])
        if isinstance(way, tuple):
            ex_ = way[1]
            for x in ex_:
                self.define(e != x)
            if not self.sat():
                raise Abort()
            v = self.solver.model().eval(e, model_completion=True).as_long()
            if len(ex_) > 300:
                raise CheckError('too many values to enumerate')
            if self.sat(e != v):
                self.owner.todo.append(self.taken + [('not', ex_ + (v,))])
            way = v
            self.taken.append(('is', v))
        elif isinstance(way, str):
            raise CheckError('runs are not repeatable')
        else:
            self.taken.append(way)
        if isinstance(self.taken[-1], tuple):
            way = self.taken[-1][1]
            self.taken[-1] = way
        self.define(e == way)
        return way

    def assume(self, c):
        c = truth(c)
        self.define(c)
        if not self.sat():
            raise Abort()

    def token(self, v, spec):
        # equal terms give equal text
        for i, (w, sp) in enumerate(self.tokens):
            if sp == spec and w.e.eq(v.e):
                return '⟪%d⟫' % i
        self.tokens.append((v, spec))
        return '⟪%d⟫' % (len(self.tokens) - 1)

    def sentinel(self, v):
        for i, w in enumerate(self.sentinels):
            if w.e.eq(v.e):
                return 736000.0 + i
        self.sentinels.append(v)
        if len(self.sentinels) > 999:
            raise CheckError('too many formatted numbers')
        return 736000.0 + len(self.sentinels) - 1

    def text(self, v):
        """decimal text, from outside the code under test, of a number: ordinary digits that int() and float() know"""
        self.texts.append(v)
        return '734%07d' % (len(self.texts) - 1)

    def number(self, text):
        t = text.strip()
        if re.fullmatch(r'734\d{7}', t) and int(t[3:]) < len(self.texts):
            return self.texts[int(t[3:])]
        if TOKEN.fullmatch(t):
            v, spec = self.tokens[int(TOKEN.fullmatch(t).group(1))]
            if spec == '' or spec == 'd':
                return v
        return None

    def check(self, c, msg):
        self.owner.asserts += 1
        e = z3.simplify(truth(c))
        if z3.is_true(e):
            return
        if self.sat(z3.Not(e)):
            self.owner.counterexample(self, z3.Not(e), msg)
            # the rest of the path is for those values where it holds
            self.define(e)
            if not self.sat():
                raise Abort()

    def equal(self, a, b, msg):
        self.owner.asserts += 1
        a, b = ex(a), ex(b)
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        d = z3.simplify(a - b)
        if z3.is_rational_value(d) or z3.is_int_value(d):
            if (d.as_long() if z3.is_int_value(d) else d.as_fraction()) == 0:
                return
        for big in (1, None):
            cond = z3.Or(d >= 1, d <= -1) if big else d != 0
            if self.sat(cond):
                self.owner.counterexample(self, cond, msg)
                self.define(d == 0)
                if not self.sat():
                    raise Abort()
                return
        return

    def same(self, a, b, msg):
        self.equal(a, b, msg)

    def reach(self, label):
        if label not in self.owner.reached:
            if self.sat():
                self.owner.reached.append(label)

    def note_exception(self, e):
        pass


class Replay(Base):
    """the same body with ordinary values"""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.tokens = []
        self.given = []

    def int(self, name, lo=None, hi=None):
        return int(self.values.get(name, lo if lo is not None else 0))

    def real(self, name, lo=None, hi=None):
        return float(self.values.get(name, lo if lo is not None else 0.0))

    def bool(self, name):
        return bool(self.values.get(name, False))

    def string(self, name, maxlen=None):
        return self.values.get(name, '')

    def array(self, name, shape, lo=None, hi=None, kind='real'):
        a = numpy.empty(shape, dtype=float if kind == 'real' else "int64", order="F")
        for i in numpy.ndindex(*a.shape):
            a[i] = getattr(self, kind)('%s_%s' % (name, '_'.join(map(str, i))), lo, hi)
        self.given.append((a, a.copy()))
        return a

    def unchanged(self):
        for a, was in self.given:
            if not numpy.array_equal(a, was):
                raise Failed('an array that was given is not changed')

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg):
        if not c:
            raise Failed(msg)

    def equal(self, a, b, msg):
        if not abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b)):
            raise Failed('%s: %r is not %r' % (msg, a, b))

    def same(self, a, b, msg):
        # without a tolerance: the value is copied
        if not a == b:
            raise Failed('%s: %r is not %r' % (msg, a, b))

    def text(self, v):
        return str(v) if isinstance(v, int) else repr(float(v))

    def uf(self, name, x):
        return getattr(math, name)(x)

    def reach(self, label):
        pass


def twice(body):
    def f(v):
        body(v)
        for k in ('int', 'real', 'bool', 'string'):
            def named(name, *a, _was=getattr(v, k), **kw):
                return _was('again_' + name, *a, **kw)
            setattr(v, k, named)
        body(v)
    return f


class State:
    """what the modules of emlearn hold between calls: variables, containers, default values and caches"""

    def __init__(self, replaced):
        self.kept = False
        self.replaced = replaced
        self.first = self.read()

    @staticmethod
    def containers(owner):
        if isinstance(owner, (dict, list, set)):
            yield owner
        elif isinstance(owner, types.FunctionType):
            for x in list(owner.__defaults__ or ()) + list((owner.__kwdefaults__ or {}).values()) + [c.cell_contents for c in owner.__closure__ or () if c != types.CellType()]:
                if isinstance(x, (dict, list, set)):
                    yield x
            for x in owner.__dict__.values():
                if isinstance(x, (dict, list, set)):
                    yield x

    def read(self):
        names, containers, caches = [], {}, []
        for mn, m in sorted(sys.modules.items()):
            if m is None or not (getattr(m, '__file__', None) or '').startswith(core.REPO + os.sep + 'emlearn' + os.sep):
                continue
            spaces = [m] + [c for c in list(m.__dict__.values()) if isinstance(c, type) and c.__module__ == mn]
            for space in spaces:
                for n, x in list(space.__dict__.items()):
                    if n.startswith('__') or n in self.replaced or isinstance(x, types.ModuleType):
                        continue
                    if isinstance(x, (staticmethod, classmethod)):
                        x = x.__func__
                    if not callable(x):
                        names.append((space, n, x))
                    if hasattr(x, 'cache_clear') and hasattr(x, 'cache_info'):
                        caches.append((x, x.cache_info().currsize))
                        x = getattr(x, '__wrapped__', x)
                    for c in self.containers(x):
                        containers[id(c)] = (c, c.copy())
        return names, containers, caches

    def reset(self):
        names, containers, caches = self.first
        for space, n, x in names:
            if space.__dict__.get(n, self) is not x:
                self.kept = True
                setattr(space, n, x)
        for c, was in containers.values():
            if len(c) != len(was) or (c != was if isinstance(c, set) else any(a is not b for a, b in zip(c, was)) or (isinstance(c, dict) and any(c[k] is not was[k] for k in was))):
                self.kept = True
                if isinstance(c, list):
                    c[:] = was
                else:
                    c.clear()
                    c.update(was)
        for f, n in caches:
            if f.cache_info().currsize != n:
                self.kept = True
            f.cache_clear()


class Task:
    def __init__(self, name, body, modules=(), key=None, max_paths=5000, time_limit=200, timeout_ms=30000, shims=None, unchanged=False):
        self.name = name
        self.unchanged = unchanged  # the arrays given to the code must be as they were afterwards
        self.body = body
        self.modules = modules      # modules whose numpy, int, float, re are replaced while running symbolically
        self.key = key or name
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.timeout_ms = timeout_ms
        self.shims = shims or {}    # further: {module: {name: value}}
        self._strings = None
        self.twice = None
        self.todo = [[]]
        self.seconds = 0.0
        self.queries = 0
        self.asserts = 0
        self.paths = 0
        self.reached = []
        self.cex = []
        self.functions = set()

    def strings(self):
        if self._strings is None:
            self._strings = known_strings(self.modules)
        return self._strings

    def counterexample(self, run, cond, msg):
        if len(self.cex) >= 12:
            return
        self.cex.append((msg, self.values(run, cond)))
        if any(k == 'real' for _, k, x in run.inputs):
            # numbers without a short binary fraction: for results that depend on how the real code rounds
            v = self.values(run, cond, rough=True)
            if v:
                self.cex.append((msg, v))

    def values(self, run, cond, rough=False):
        """concrete inputs; floats that are exactly representable, if there are such"""
        run.solver.push()
        try:
            if cond is not None:
                run.solver.add(cond)
            reals = [x for _, k, x in run.inputs if k == 'real']
            m = None
            if rough:
                for i, x in enumerate(reals):
                    k = z3.Int('rough!%d' % i)
                    run.solver.add(x * 210 == z3.ToReal(k), k <= 2**40, k >= -2**40, k % 2 == 1, k % 3 == 1)
            for den in (1, 16, 4096):
                if not reals or rough:
                    break
                run.solver.push()
                for i, x in enumerate(reals):
                    k = z3.Int('dyadic!%d' % i)
                    run.solver.add(x * den == z3.ToReal(k), k <= 2**40, k >= -2**40)
                run.solver.set('timeout', 5000)
                if run.solver.check() == z3.sat:
                    m = run.solver.model()
                run.solver.set('timeout', self.timeout_ms)
                run.solver.pop()
                if m is not None:
                    break
            if m is None:
                if rough:
                    run.solver.set('timeout', 2000)
                sat = run.solver.check()
                run.solver.set('timeout', self.timeout_ms)
                if sat == z3.sat:
                    m = run.solver.model()
                else:
                    m = run.pinned() if sat == z3.unknown and not rough else None
                    if m is None:
                        return {}
            out = {}
            for n, k, x in run.inputs:
                v = m.eval(x, model_completion=True)
                if k == 'int':
                    out[n] = v.as_long()
                elif k == 'real':
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    out[n] = float(v.as_fraction())
                elif k == 'bool':
                    out[n] = z3.is_true(v)
                else:
                    s = v.as_string()
                    out[n] = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda g: chr(int(g.group(1), 16)), s)
            return out
        finally:
            run.solver.pop()

    def patched(self):
        saved = []
        for m in self.modules:
            for n, v in (('numpy', SHIM), ('np', SHIM), ('int', IntShim), ('float', FloatShim), ('re', ReShim())):
                if n in ('numpy', 'np', 're') and n not in m.__dict__:
                    continue
                saved.append((m, n, m.__dict__.get(n, self)))
                setattr(m, n, v)
        for m, d in self.shims.items():
            for n, v in d.items():
                saved.append((m, n, m.__dict__.get(n, self)))
                setattr(m, n, v)
        return saved

    def restore(self, saved):
        for m, n, v in reversed(saved):
            if v is self:
                delattr(m, n)
            else:
                setattr(m, n, v)

    def trace(self, frame, event, arg):
        if event == 'call':
            f = frame.f_code
            if '/emlearn/' in f.co_filename and core.REPO in f.co_filename:
                self.functions.add(f.co_name)
        return None

    def run(self):
        state = State({'numpy', 'np', 'int', 'float', 're'} | {n for d in self.shims.values() for n in d})
        v = self.explore(state)
        state.reset()
        if v is None and state.kept:
            # something is kept from one call to the next: the body again, twice, with any inputs each time; left open if that is too much
            t = Task(self.name, twice(self.body), self.modules, self.key, self.max_paths, 90, self.timeout_ms, self.shims)
            t._strings = self._strings
            try:
                v = t.explore(state)
                self.twice = 'held' if v is None else 'violated'
            except CheckError as e:
                self.twice = 'open: ' + str(e)[:200]
            for k in ('seconds', 'queries', 'asserts', 'paths'):
                setattr(self, k, getattr(self, k) + getattr(t, k))
            if v:
                v['text'] += ' (in two calls after each other)'
        return v

    def explore(self, state):
        global CUR
        t0 = time.time()
        saved = self.patched()
        errors = []
        undecided = None
        try:
            while self.todo:
                state.reset()
                if self.paths >= self.max_paths or time.time() - t0 > self.time_limit:
                    undecided = CheckError('%s: not all paths explored (%d paths, %d s)' % (self.name, self.paths, time.time() - t0))
                    break
                prefix = self.todo.pop()
                r = CUR = Run(prefix, self)
                try:
                    sys.setprofile(self.trace)
                    self.body(r)
                    if self.unchanged:
                        r.unchanged()
                except Abort:
                    continue
                except CheckError as e:
                    # what was found until here is replayed all the same
                    if undecided is None:
                        undecided = e
                    if not self.cex:
                        raise
                    if time.time() - t0 > self.time_limit / 2:
                        break
                    continue
                except Exception as e:
                    sys.setprofile(None)
                    if r.sat():
                        if len(errors) < 3:
                            errors.append(traceback.format_exc())
                        self.counterexample(r, None, 'unexpected %s: %s' % (type(e).__name__, str(e)[:200]))
                finally:
                    sys.setprofile(None)
                self.paths += 1
        finally:
            sys.setprofile(None)
            CUR = None
            self.restore(saved)
        # replay
        tried = []
        for msg, values in self.cex:
            try:
                state.reset()
                v = Replay(values)
                self.body(v)
                if self.unchanged:
                    v.unchanged()
                tried.append((msg, values, 'holds'))
            except Skip:
                tried.append((msg, values, 'assumption not satisfied'))
            except Failed as e:
                return dict(text='%s: %s' % (msg, e), values=values)
            except Exception as e:
                frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
                if not any(f.startswith(core.REPO + '/') for f in frames):
                    raise CheckError('%s: error in the check: %s' % (self.name, traceback.format_exc()))
                return dict(text='%s: %s: %s' % (msg, type(e).__name__, e), values=values, trace=traceback.format_exc())
        if self.cex:
            raise CheckError('%s: counterexamples do not reproduce on the real code: %r\n%s' % (self.name, tried, '\n'.join(errors)))
        if undecided is not None:
            raise undecided
        return None


_TASKS = []


def _run_index(i):
    t = _TASKS[i]
    t0 = time.time()
    error = v = None
    try:
        v = t.run()
    except CheckError as e:
        error = '%s: %s' % (t.name, e)
    except Exception:
        error = '%s: %s' % (t.name, traceback.format_exc())
    return dict(violation=v, error=error, queries=t.queries, seconds=t.seconds, asserts=t.asserts, functions=t.functions, reached=t.reached, paths=t.paths, twice=t.twice, wall=time.time() - t0)


def run_tasks(r, tasks):
    import concurrent.futures
    import multiprocessing
    problems = []
    _TASKS[:] = tasks
    with concurrent.futures.ProcessPoolExecutor(min(core.CORES, max(1, len(tasks))), mp_context=multiprocessing.get_context('fork')) as pool:
        futs = {pool.submit(_run_index, i): t for i, t in enumerate(tasks)}
        for f in core.completed(r, pool, futs, problems):
            t = futs[f]
            try:
                o = f.result()
            except Exception as e:
                problems.append('%s: %r' % (t.name, e))
                continue
            v = o['violation']
            r.queries += o['queries']
            r.solver_s += o['seconds']
            r.obligations += o['asserts']
            if not v and not o['error']:
                r.discharged += o['asserts']
            r.functions.update(o['functions'])
            r.vacuity += ['%s: %s' % (t.name, x) for x in o['reached']]
            if os.environ.get("VH_TIMES"): print(t.name, round(o["wall"], 1))
            r.sample({'task': t.name, 'paths': o['paths'], 'assertions': o['asserts'], 'queries': o['queries'], 'seconds': round(o['wall'], 1)})
            if o['twice']:
                r.coverage.setdefault('run_twice', {})[t.name] = o['twice']
            r.coverage['python_paths'] = r.coverage.get('python_paths', 0) + o['paths']
            if v:
                r.violation(t.key, '%s: %s with %r' % (t.name, v['text'], v['values']), {'inputs': '\n'.join('%s = %r' % kv for kv in v['values'].items()), 'traceback': v.get('trace', '')})
            elif o['error']:
                problems.append(o['error'])
            elif not o['reached']:
                problems.append('%s: vacuous, nothing reached' % t.name)
    if problems:
        raise CheckError('\n'.join(problems))
