"""Fixed-point binary logarithm."""
import os
from decimal import Decimal, getcontext

from vlib import cbmc, core

LEVEL = 'other'


def full_table(p):
    """2^(32 + k/2^p), rounded up and down, exact"""
    getcontext().prec = 50
    n = 1 << p
    up, down = [], []
    for k in range(n + 8):
        if k % n == 0:
            up.append(2 ** (32 + k // n))
            down.append(up[-1])
            continue
        v = Decimal(2) ** (32 + Decimal(k) / n)
        f = int(v)
        if not Decimal('1e-25') < v - f < 1 - Decimal('1e-25'):
            raise core.CheckError('table not precise enough')
        down.append(f)
        up.append(f + 1)
    return dict(UP=up, DOWN=down)


def bits_table(p):
    """floor(2^p log2(mantissa)) for mantissas 1 + 2^-m and 2 - 2^-m"""
    getcontext().prec = 60
    ln2 = Decimal(2).ln()
    t = dict(TAB_TWO=[0], TAB_ONES=[0])
    for m in range(1, 32):
        for name, mant in (('TAB_TWO', 1 + Decimal(2) ** -m), ('TAB_ONES', 2 - Decimal(2) ** -m)):
            t[name].append(int(mant.ln() / ln2 * 2 ** p))
    return t


def header(tables, ctype):
    d = core.scratch('log2')
    with open(os.path.join(d, 'c11_table.h'), 'w') as f:
        for k, v in tables.items():
            f.write('static const %s %s[] = {%s};\n' % (ctype, k, ','.join('%dULL' % x for x in v)))
    return ['-I', d]


def run(r, tier):
    jobs = [cbmc.Job('c11.c', defines=dict(MODE=3), unwind=34, key='precision')]
    for p in range(1, 27):
        jobs.append(cbmc.Job('c11.c', defines=dict(MODE=2, P=p), unwind=34, key='total'))
        jobs.append(cbmc.Job('c11.c', defines=dict(MODE=4, P=p), unwind=34, key='power'))
        if tier == 'thorough' or p in (1, 2, 3, 5, 8, 11, 16, 20, 23, 26):
            jobs.append(cbmc.Job('c11.c', defines=dict(MODE=5, P=p), unwind=34, key='accuracy', cflags=header(bits_table(p), 'int32_t'), timeout=900))
    for p in ([1, 2, 3, 4, 6] if tier == 'quick' else range(1, 13)):
        jobs.append(cbmc.Job('c11.c', defines=dict(MODE=1, P=p), unwind=34, key='accuracy', cflags=header(full_table(p), 'uint64_t'), timeout=3000))
    r.bound('every 32-bit x: termination, range, exactness at powers of two for each precision 1 to 26, and every other precision; accuracy for each precision 1..4 and 6 (1 to 12 thorough), '
            'and for all x with the binary form 1..10..0 or 10..010..0 for larger precisions')
    r.assume('tables of true logarithms are computed with 50 digits in Python')
    cbmc.run_jobs(r, jobs)
