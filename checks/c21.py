"""FFT against the discrete Fourier transform."""
import os
import re

from vlib import cbmc, core, ll

LEVEL = 'other'


def run(r, tier):
    src = open(os.path.join(core.VERIF, 'harness', 'c21.c')).read()
    sizes = [1, 2, 4, 8, 16, 32, 64] + ([128, 256] if tier == 'thorough' else [])
    bits = 32 if tier == 'thorough' else 16
    jobs = [ll.LLJob('fft-%d' % n, src, key='fft', defines=['MODE=1', 'N=%d' % n], max_steps=30000000, time_limit=3000) for n in sizes]
    long = [(128, '1,67,127'), (256, '1,129,200,255'), (512, '1,130,300,511'), (512, '255,256,257'), (1024, '1,2,600,1023'), (2048, '3,700,1025')] + ([(4096, '1,2048,4095'), (8192, '5,4097')] if tier == 'thorough' else [])
    jobs += [ll.LLJob('long-%d-%s' % (n, p.split(',')[0]), src, key='fft', defines=['MODE=1', 'N=%d' % n, 'POINTS=' + p], max_steps=60000000, time_limit=3000) for n, p in long]
    r.bound('long transforms: lengths and points with any value %s, zero at other points' % long)
    jobs.append(ll.LLJob('refused', src, key='refused', defines=['MODE=2', 'BITS=%d' % bits]))
    r.bound('transform: lengths %s, any real and imaginary parts within +-1, tolerance 1e-6 times the length' % sizes)
    r.bound('refusals: every length below 2^%d and table length that do not go together' % bits)
    r.assume('the table holds the values the C library functions give; sums are exact reals (single precision rounding of the data is outside the encoding)')
    orders = []
    if re.search(r'size_t reverse_bits\(size_t \w+, int \w+\)', re.sub(r'\s+', ' ', open(os.path.join(core.INCLUDE, 'eml_fft.h')).read())):
        orders.append(cbmc.Job('c21.c', defines=dict(MODE=3), unwind=33, key='order'))
        r.bound('order of the values: any index of up to 31 bits')
    core.all_of(r, lambda: ll.run_jobs(r, jobs), lambda: cbmc.run_jobs(r, orders))
