"""Fixed-point conversion and arithmetic: C macros and functions, and the Python conversion."""
import os

from vlib import cbmc, core, ll, pysym
from vlib.pysym import And, Implies

LEVEL = 'other'
NOSHIFT = ['--bounds-check', '--pointer-check', '--div-by-zero-check', '--conversion-check', '--undefined-shift-check']


def conversion(bits):
    one = 2**bits

    def f(v):
        from emlearn import fixedpoint
        fmt = fixedpoint.FixedPointFormat(integer_bits=31 - bits, fraction_bits=bits)
        x = v.array('x', (2,), -2**(31 - bits), 2**(31 - bits))
        out = fixedpoint.from_float(x, fmt)
        v.check(len(out) == 2, 'one number each')
        for i, o in zip(x, out):
            o = o if v.symbolic else int(o)
            s = i * one
            v.check(Implies(s >= 0, And(o <= s, o > s - 1)), 'truncated toward zero')
            v.check(Implies(s < 0, And(o >= s, o < s + 1)), 'truncated toward zero')
            v.check(Implies(s == 0, o == 0), 'zero')
        v.reach('from float')
    return f


def inverse(bits):
    one = 2**bits

    def f(v):
        from emlearn import fixedpoint
        fmt = fixedpoint.FixedPointFormat(integer_bits=31 - bits, fraction_bits=bits)
        raw = v.array('raw', (2,), -2**31, 2**31 - 1, kind='int')
        x = fixedpoint.to_float(raw, fmt)
        back = fixedpoint.from_float(x, fmt)
        for a, b, c in zip(raw, x, back):
            a, c = (a, c) if v.symbolic else (int(a), int(c))
            v.check(b * one == a, 'to float is exact')
            v.check(a == c, 'inverted by the reverse conversion')
        v.reach('inverse')
    return f


def formats(v):
    from emlearn import fixedpoint
    i, fb = v.int('integer_bits', 0, 40), v.int('fraction_bits', 0, 40)
    fmt = fixedpoint.FixedPointFormat(integer_bits=i, fraction_bits=fb)
    v.check(fmt.total_bits == i + fb + 1, 'total bits include the sign')
    if i + fb == 31:
        for k in range(32):
            if i == k:
                fmt = fixedpoint.FixedPointFormat(integer_bits=k, fraction_bits=31 - k)
                i, fb = k, 31 - k
    try:
        name = fmt.ctype
    except AssertionError:
        v.check(i + fb != 31, 'formats of 32 bits are supported')
        v.reach('refused')
        return
    v.check(i + fb == 31, 'only 32 bit formats')
    v.check(name == ('eml_q16_t' if fb == 16 else 'eml_fixed32_t'), 'C type of the format')
    v.reach('named')


def declared(v):
    """values written to C"""
    from emlearn import cgen, fixedpoint
    x = v.array('x', (2,), -32768, 32767)
    fmt = fixedpoint.FixedPointFormat(integer_bits=15, fraction_bits=16)
    text = cgen.array_declare_fixedpoint('name', fixedpoint=fmt, values=x)
    head, body = text.split('{')
    v.check('eml_q16_t name[2]' in head, 'declaration')
    items = body.split('}')[0].split(',')
    v.check(len(items) == 2, 'as many values')
    for i, t in zip(x, items):
        o = pysym.denoted(v, t.strip())[0]
        s = i * 65536
        v.check(Implies(s >= 0, And(o <= s, o > s - 1)), 'as EML_Q16_FROMFLOAT')
        v.check(Implies(s < 0, And(o >= s, o < s + 1)), 'as EML_Q16_FROMFLOAT')
    v.reach('declared')


def run(r, tier):
    from emlearn import cgen, fixedpoint
    src = open(os.path.join(core.VERIF, 'harness', 'c13.c')).read()
    lls = [ll.LLJob('division', src, key='division', defines=['MODE=2']), ll.LLJob('multiplication', src, key='multiplication', defines=['MODE=3'])]
    bits = list(range(0, 32))
    tasks = [pysym.Task('from-%d' % b, conversion(b), modules=[fixedpoint], key='from') for b in bits]
    tasks += [pysym.Task('inverse-%d' % b, inverse(b), modules=[fixedpoint], key='inverse') for b in bits]
    tasks += [pysym.Task('format', formats, modules=[fixedpoint]), pysym.Task('declared', declared, modules=[cgen, fixedpoint])]
    r.bound('C: every integer -32768..32767, every raw value, every float within +-32768; every pair of 32-bit operands whose quotient or product fits')
    r.bound('Python: fraction bits 0..31, any value that fits 32 bits')
    r.assume('negative left shifts and floor right shifts of negative numbers behave as two\'s complement (gcc, clang)')
    r.assume('Python: exact reals; a product with a power of two is exact in double precision')
    core.all_of(r, lambda: cbmc.run_jobs(r, [cbmc.Job('c13.c', defines=dict(MODE=1), unwind=2, key='macros', checks=NOSHIFT[:-1])]),
                lambda: ll.run_jobs(r, lls), lambda: pysym.run_tasks(r, tasks))
