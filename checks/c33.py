"""C literals and declarations: the real Python generators on symbolic values."""
import re

from vlib import pysym
from vlib.pysym import And

LEVEL = 'other'
INTS = ['int', 'int8_t', 'int16_t', 'int32_t', 'uint8_t', 'uint16_t', 'uint32_t', 'int64_t']


def match(v, text, val, dtype, what):
    """text is a literal of the type for the value"""
    if dtype == 'float':
        v.check(text.strip().endswith('f'), what + ': single precision literal')
        v.check('.' in text or '⟪' in text, what + ': decimal point')
        lo, hi = pysym.denoted(v, text)
        v.check(And(lo >= val - pysym.Fraction(5, 10**7) - tiny(v, val), hi <= val + pysym.Fraction(5, 10**7) + tiny(v, val)), what + ': within half of the sixth decimal')
    else:
        lo, hi = pysym.denoted(v, text)
        v.check(not text.strip().endswith('f') and '.' not in text, what + ': integer literal')
        v.check(And(lo == trunc(v, val), hi == trunc(v, val)), what + ': the value, truncated toward zero')


def tiny(v, val):
    return (abs(val) * pysym.Fraction(1, 2**52) if getattr(val, 'is_int', False) else 0) if v.symbolic else pysym.Fraction(abs(val)) / 2**50


def trunc(v, val):
    return pysym._trunc(val) if v.symbolic else int(val)


def constant(kind, dtype):
    def f(v):
        from emlearn import cgen
        val = getattr(v, kind)('value', -2**63, 2**63)
        if not v.symbolic and kind == 'int':
            val = int(val)
        match(v, cgen.constant(val, dtype=dtype), val, dtype, 'constant')
        t = cgen.constant_declare('thename', val, dtype=dtype)
        m = re.fullmatch(r'static const (\w+) (\w+) = (.*);\s*', t)
        v.check(m is not None and m.group(1) == dtype and m.group(2) == 'thename', 'constant_declare: type and name')
        match(v, m.group(3), val, dtype, 'constant_declare')
        if dtype == 'float':
            match(v, cgen.constant(val), val, 'float', 'default type')
        if dtype == 'int':
            m = re.fullmatch(r'static const int thename = (.*);\s*', cgen.constant_declare('thename', val))
            v.check(m is not None, 'constant_declare: int by default')
            match(v, m.group(1), val, 'int', 'default type')
        v.reach(kind)
    return f


def array(n, kind, dtype, size, modifiers, fixed=None):
    def f(v):
        from emlearn import cgen
        from emlearn.fixedpoint import FixedPointFormat
        free = range(n) if n < 100 else (0, 1, n // 2, n - 2, n - 1)      # in long arrays only some are not fixed
        vals = [getattr(v, kind)('v%d' % i, -2**31, 2**31) if i in free else i % 100 for i in range(n)] if kind != 'array' else None
        if kind == 'array':
            vals = v.array('v', (n,), -100, 100)
        kw = dict(size=size)
        if modifiers is not None:
            kw['modifiers'] = modifiers
        if kind != 'array' and fixed is None and n % 2:
            vals = tuple(vals)
        if fixed is not None:
            fmt = FixedPointFormat(integer_bits=fixed[0], fraction_bits=fixed[1])
            ctype = 'eml_q16_t' if fixed == (15, 16) else 'eml_fixed32_t'
            run = lambda: cgen.array_declare_fixedpoint('thename', fixedpoint=fmt, values=fvals, **kw)
            vals, fvals = [x * 2**fixed[1] for x in vals], vals
        else:
            ctype = dtype
            run = lambda: cgen.array_declare('thename', dtype=dtype, values=vals, **kw)
        if size is not None and size != n:
            try:
                run()
            except (AssertionError, ValueError):
                v.reach('refused')
                return
            v.check(False, 'a size that contradicts the values is refused')
        keep = list(vals)
        t = run()
        v.check(len(keep) == len(vals) and all(x is y for x, y in zip(keep, vals) if kind != 'array' and fixed is None), 'the values passed in are left alone')
        m = re.fullmatch(r'\s*(.*?)\s*(\w+) (\w+)\[\s*(\d+)\s*\]\s*=\s*\{(.*)\}\s*;\s*', t, re.S)
        v.check(m is not None, 'a declaration')
        v.check(m.group(1) == (modifiers if modifiers is not None else 'static const'), 'modifiers')
        v.check(m.group(2) == ctype and m.group(3) == 'thename', 'type and name')
        v.check(int(m.group(4)) == n, 'declared size')
        items = [x for x in m.group(5).split(',')] if m.group(5).strip() else []
        v.check(len(items) == n, 'number of values')
        for i, (text, val) in enumerate(zip(items, vals)):
            match(v, text, val, 'float' if ctype == 'float' else 'int', 'element %d' % i)
        v.reach('array')
    return f


def declare_only(v):
    from emlearn import cgen
    n = v.int('n', 1, 2**31 - 1)
    t = cgen.array_declare('thename', n, dtype='int16_t', modifiers='static')
    m = re.fullmatch(r'\s*static int16_t thename\[(.*)\];\s*', t)
    v.check(m is not None, 'a declaration without values')
    lo, hi = pysym.denoted(v, m.group(1))
    v.check(And(lo == n, hi == n), 'declared size')
    v.reach('declare')


def struct(v):
    from emlearn import cgen
    a, b = v.int('a'), v.int('b')
    t = cgen.struct_init(a, 'name', b)
    m = re.fullmatch(r'\s*\{(.*),\s*name\s*,(.*)\}\s*', t)
    v.check(m is not None, 'members in order')
    for x, text in ((a, m.group(1)), (b, m.group(2))):
        lo, hi = pysym.denoted(v, text)
        v.check(And(lo == x, hi == x), 'member')
    v.reach('struct')


def run(r, tier):
    from emlearn import cgen, fixedpoint
    mods = [cgen, fixedpoint]
    tasks = [pysym.Task('declare', declare_only, modules=mods), pysym.Task('struct', struct, modules=mods)]
    for dtype in INTS + ['float']:
        for kind in ('int', 'real'):
            tasks.append(pysym.Task('constant-%s-%s' % (kind, dtype), constant(kind, dtype), modules=mods))
    top = 6 if tier == 'quick' else 12
    for n in list(range(0, top + 1)) + [1100]:
        for kind, dtype in (('int', 'int16_t'), ('real', 'float'), ('real', 'int32_t'), ('int', 'uint8_t'), ('array', 'float'), ('array', 'int16_t')):
            if n > 100 and kind == 'array':
                continue
            for size in (None, n, n + 1, max(n - 1, 0)):
                tasks.append(pysym.Task('array%d-%s-%s-%s' % (n, kind, dtype, size), array(n, kind, dtype, size, 'const' if size is None and n == 2 else None), modules=mods, unchanged=True))
        for fixed in ((15, 16), (8, 23), (31, 0), (0, 31)):
            if 0 < n < 100:
                tasks.append(pysym.Task('fixed%d-%d' % (n, fixed[1]), array(n, 'array', None, None, None, fixed), modules=mods, unchanged=True))
    r.bound('values within +-2^63 (arrays: +-2^31, fixed point +-100), arrays of 0..%d values (and of 1100, five of which are arbitrary), integer types %s and float' % (top, ', '.join(INTS)))
    r.assume("Python's own number formatting (str, format 'd' and '.Nf') is right")
    pysym.run_tasks(r, tasks)
