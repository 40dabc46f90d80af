"""Sorting of neighbours by distance."""
import os

from vlib import cbmc, core, ll
LEVEL = 'other'


def run(r, tier):
    def J(unwind, timeout=400, **d):
        return cbmc.Job('c19.c', defines=d, unwind=unwind, key='sort', timeout=timeout)
    jobs = [J(6, N=n) for n in (0, 1, 2, 3, 4)] + [J(9, N=5), J(12, N=5, THRESH=5), J(12, N=6, THRESH=5)]
    r.bound('arrays of 0..5 items as built, and 5 and 6 items with the partition threshold lowered to 5, all uint32 distances')
    if tier == 'thorough':
        jobs += [J(12, N=6, timeout=3000), J(12, N=7, THRESH=5, timeout=3000)]
        r.bound('thorough: 6 items as built, 7 items partitioned')
    r.assume('the threshold between quicksort partitioning and insertion sort is a tuning constant')
    src = open(os.path.join(core.VERIF, 'harness', 'c19.c')).read()
    patterns = {'mixed': ('(i * 101u) % 307u * 3u', 700, 3), 'rising': ('i * 3u', 30, 200), 'falling': ('3000000000u - i * 3u', 2999999990 - 20, 6), 'pipe': ('i < N / 2 ? i : N - i', 3, 40), 'few': ('i % 3', 0, 1),
                'large': ('i * 2654435761u', 4294967291, 1)}
    lls = []
    for n in (15, 16, 17, 40, 127, 130, 256, 300) + ((513, 1000, 3000) if tier == 'thorough' else ()):
        for name, (pattern, base, step) in patterns.items():
            for at in {0, n // 3, n - 1}:
                lls.append(ll.LLJob('long-%s-%d-%d' % (name, n, at), src, key='long', max_steps=30000000, defines=['N=%d' % n, 'PATTERN=(%s)' % pattern, 'ANY=%d' % at, 'FROM=%du' % base, 'STEP=%du' % step]))
    r.bound('arrays of 15 to 300 (3000 thorough) items, %s: given distances, one of which has any of five values' % sorted(patterns))
    core.all_of(r, lambda: ll.run_jobs(r, lls), lambda: cbmc.run_jobs(r, jobs))
