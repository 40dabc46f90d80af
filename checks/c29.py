"""Array row shift and row copy."""
import os

from vlib import cbmc, core, ll

LEVEL = 'other'


def run(r, tier):
    deep = tier == 'thorough'
    jobs = []
    for c, n, vs in [(2, 3, 2), (3, 3, 1), (1, 4, 4), (2, 0, 2), (1, 1, 2), (3, 2, 2)] + ([(3, 4, 4), (4, 4, 2), (2, 6, 1)] if deep else []):
        jobs.append(cbmc.Job('c29.c', defines=dict(OP=1, COLS=c, ROWS=n, VS=vs), unwind=80 if deep else 40, key='shift', timeout=400 if not deep else 3000))
    for c, n, vs, c2, n2, v2 in [(2, 3, 2, 2, 2, 2), (2, 3, 2, 2, 3, 2), (2, 3, 2, 2, 2, 1), (2, 3, 2, 4, 2, 1), (2, 3, 1, 1, 1, 2), (2, 2, 2, 2, 4, 2), (2, 2, 1, 2, 0, 1), (3, 3, 4, 3, 1, 4), (2, 0, 1, 2, 0, 1), (2, 2, 2, 3, 1, 2), (3, 3, 2, 2, 1, 2)] \
            + ([(3, 4, 4, 3, 4, 4), (3, 4, 4, 3, 2, 4), (4, 5, 1, 4, 2, 1)] if deep else []):
        jobs.append(cbmc.Job('c29.c', defines=dict(OP=2, COLS=c, ROWS=n, VS=vs, COLS2=c2, ROWS2=n2, VS2=v2), unwind=80 if deep else 40, key='copy', timeout=400 if not deep else 3000))
    r.bound('shapes up to 3x3 (4x6 thorough) with value sizes 1, 2, 4; every shift and start position; all contents; matching and mismatching other arrays; 1..3 dimensions')
    r.assume('the arrays do not overlap; memcpy is a byte loop in the solver run')
    src = open(os.path.join(core.VERIF, 'harness', 'c29.c')).read()
    lls = []
    for c, n, vs, at, any_ in ((200, 3, 2, -1, 700), (3, 140, 1, -130, 400), (2, 300, 2, -2, 1100), (2, 300, 1, -270, 560), (140, 260, 1, -1, 36000), (300, 3, 1, -3, 600), (1, 2, 100, -1, 150)):
        lls.append(ll.LLJob('large-shift-%d-%d-%d' % (c, n, vs), src, key='shift', defines=['OP=1', 'COLS=%d' % c, 'ROWS=%d' % n, 'VS=%d' % vs, 'AT=%d' % at, 'ANY=%d' % any_], max_steps=60000000))
    for c, n, vs, n2, at, any_ in ((200, 3, 2, 2, 1, 700), (3, 300, 1, 140, 159, 400), (2, 140, 2, 3, 136, 11), (2, 300, 1, 3, 260, 5), (300, 120, 1, 2, 117, 599), (1, 3, 100, 1, 2, 250)):
        lls.append(ll.LLJob('large-copy-%d-%d-%d' % (c, n, vs), src, key='copy', max_steps=60000000, defines=['OP=2', 'COLS=%d' % c, 'ROWS=%d' % n, 'VS=%d' % vs, 'COLS2=%d' % c, 'ROWS2=%d' % n2, 'VS2=%d' % vs, 'AT=%d' % at, 'ANY=%d' % any_]))
    r.bound('large arrays: up to 300 rows and columns and 36400 bytes, values of up to 100 bytes; contents given but for one byte, three positions each')
    core.all_of(r, lambda: ll.run_jobs(r, lls), lambda: cbmc.run_jobs(r, jobs))
