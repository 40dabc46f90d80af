"""Array setup and element access."""
import os

from vlib import cbmc, core, ll

LEVEL = 'other'


def run(r, tier):
    src = open(os.path.join(core.VERIF, 'harness', 'c28.c')).read()
    deep = tier == 'thorough'
    def J(key, timeout=400, **d):
        return cbmc.Job('c28.c', defines=d, unwind=26, key=key, timeout=timeout)
    jobs = [J('init', MODE=1)]
    for a, b, c, nd, vs in [('free0', '1', '1', 1, 4), ('free0', '65536', '1', 2, 1), ('free0', '3', 'free1', 2, 4), ('65536', '65536', 'free0', 3, 4), ('65536', 'free0', '4096', 3, 2),
                            ('free0', '5', '1073741824', 3, 3)] + ([('free0', '46341', '1', 2, 2), ('46341', 'free0', '46341', 3, 2)] if deep else []):
        jobs.append(J('init', MODE=1, DIM0=a, DIM1=b, DIM2=c, ND=nd, VS=vs, timeout=400 if not deep else 3000))
    jobs.append(J('access', MODE=2, MAXD=4))
    for c, w, vs, extra, nd in [(2, 2, 2, 1, 2), (3, 3, 2, 1, 2), (1, 3, 1, 0, 2), (1, 3, 2, 0, 3), (3, 1, 2, 1, 1), (2, 0, 2, 1, 2), (2, 3, 2, 0, 2)]:
        jobs.append(J('fill', MODE=3, COLS=c, ROWS=w, VS=vs, EXTRA=extra, ND=nd))
        if c * w < 5:
            jobs.append(J('sum', MODE=3, COLS=c, ROWS=w, VS=vs, EXTRA=extra, ND=nd, SUM=1))
    lls = [ll.LLJob('sum-%d-%d' % s, src, key='sum', defines=['MODE=5', 'COLS=%d' % s[0], 'ROWS=%d' % s[1]]) for s in ((2, 3), (3, 2), (1, 4), (4, 1), (2, 0))]
    lls += [ll.LLJob('access-%d-%d-%d' % s, src, key='access-huge', defines=['MODE=4', 'COLS=%d' % s[0], 'ROWS=%d' % s[1], 'VS=%d' % s[2]])
            for s in ((50000, 60000, 4), (3, 1500000000, 2), (2000000000, 3, 8), (46341, 46341, 1))]
    r.bound('initialisation: dimensions -2..5 with any count of dimensions, value size and buffer length; and any single dimension next to large powers of two')
    r.bound('element access: shapes up to 4x4, value sizes 1..8, every index pair; 50000x60000, 3x1500000000, 2000000000x3 and 46341x46341 with every index')
    r.bound('fill and sum: shapes up to 3x3, every value in the int16 range')
    r.assume('value sizes of at least 1; no buffer is larger than PTRDIFF_MAX; the first dimension is at least 1 (as initialisation requires)')
    core.all_of(r, lambda: ll.run_jobs(r, lls), lambda: cbmc.run_jobs(r, jobs))
