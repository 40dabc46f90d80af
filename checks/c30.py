"""C quantizer."""
import os

from vlib import cbmc, core, ll

LEVEL = 'other'


def run(r, tier):
    src = open(os.path.join(core.VERIF, 'harness', 'c30.c')).read()
    z3 = ['--z3', '--fpa']
    n = 3 if tier == 'quick' else 5
    a = [cbmc.Job('c30.c', defines=dict(MODE=1, N=k), unwind=7, key='forward-bits', solver=z3) for k in range(1, n + 1)]
    a += [cbmc.Job('c30.c', defines=dict(MODE=1, N=2, REFUSE=1), unwind=7, key='refused')]
    b = [ll.LLJob('forward-%d' % k, src, key='forward', defines=['MODE=2', 'N=%d' % k]) for k in ((0, 1, 2) if tier == 'quick' else (0, 1, 2, 3))]
    scales = ['100.0f', '0.01f', '32767.0f', '1.0f', '327.67f'] + (['1000000.0f', '0.0003f', '3.3333f', '16383.5f'] if tier == 'thorough' else [])
    b += [ll.LLJob('inverse-' + s, src, key='inverse', defines=['MODE=3', 'SCALE=' + s, 'N=2']) for s in scales]
    b += [ll.LLJob('many-%d-%d' % k, src, key='many', defines=['MODE=4', 'N=%d' % k[0], 'ANY=%d' % k[1]]) for k in ((140, 139), (300, 270), (700, 3))]
    r.bound('140 to 700 values, given but for one')
    r.bound('bit precise: up to %d values, every finite scale and value; reals: every positive scale, up to 2 (3 thorough) values; round trip for the scales %s' % (n, ', '.join(scales)))
    r.assume('the bit precise jobs use the float product as the scaled value; the round trip uses real arithmetic (1% of a step allowed)')
    core.all_of(r, lambda: ll.run_jobs(r, b), lambda: cbmc.run_jobs(r, a))
