"""Integer Euclidean distance: sum of squares by the symbolic executor with the root as a contract, the root itself by CBMC."""
import os

from vlib import cbmc, core, ll

LEVEL = 'other'


def run(r, tier):
    src = open(os.path.join(core.VERIF, 'harness', 'c18.c')).read()
    header = open(os.path.join(core.INCLUDE, 'eml_neighbors.h')).read()
    quick = tier == 'quick'
    isq = [dict(MODE=1, BITS=22 if quick else 30)]
    isq += [dict(MODE=2, BITS=9 if quick else 12, SHIFT=s) for s in ((20, 34, 47, 55) if quick else (12, 20, 28, 32, 36, 40, 44, 48, 52))]
    isq += [dict(MODE=3, BITS=5 if quick else 7, SHIFT=s) for s in ((10, 16, 21, 27) if quick else (6, 8, 12, 15, 18, 21, 23, 25))]
    jobs = [cbmc.Job('c18i.c', defines=d, unwind=34, key='root', timeout=400 if quick else 6000) for d in isq]
    r.bound('integer root: every x below 2^%d; every x whose leading %d bits (at several positions up to bit 63) are any and whose others are all 0 or all 1; '
            'every square of a number with %d leading bits, and one more and one less' % (isq[0]['BITS'], isq[1]['BITS'], isq[-1]['BITS']))
    parts = [lambda: cbmc.run_jobs(r, jobs)]
    if 'eml_isqrt' in header:
        lls = [ll.LLJob('distance-%d' % n, src, key='distance', defines=['N=%d' % n], replace={'eml_isqrt': 'vh_isqrt'}) for n in ((1, 2, 3, 16, 140, 300) if quick else (1, 2, 3, 5, 16, 64, 140, 300, 1000))]
        r.bound('distance: every pair of int16 vectors of up to 300 (1000 thorough) elements')
        r.assume('in the distance jobs the integer root is replaced by an arbitrary function; the root is decided on its own')
        parts.append(lambda: ll.run_jobs(r, lls))
    else:
        small = [cbmc.Job('c18.c', defines=dict(N=2, SMALL=1), unwind=34, key='distance')]
        parts.append(lambda: cbmc.run_jobs(r, small))
        r.bound('distance: vectors of 2 elements from -7 to 8')
    core.all_of(r, *parts)
