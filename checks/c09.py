"""Network outputs: class, probabilities, softmax."""
import os

from vlib import cbmc, core, ll

LEVEL = 'other'


def run(r, tier):
    thorough = tier == 'thorough'
    src = open(os.path.join(core.VERIF, 'harness', 'c09.c')).read()
    jobs, lls = [], []
    for n in (1, 2) + ((3, 4) if thorough else ()):
        jobs.append(cbmc.Job('c09.c', name='class%d' % n, defines=dict(MODE=1, N=n, EXTRA=n % 2), unwind=n + 3, timeout=3000 if thorough else 300, key='class'))
    for n in (3, 4, 5) + ((8,) if thorough else ()):
        lls.append(ll.LLJob('class%d' % n, src, key='class', defines=['MODE=1', 'N=%d' % n, 'EXTRA=%d' % (n % 2)], time_limit=2000 if thorough else 300))
    for n in (1, 2, 3, 5) + ((8,) if thorough else ()):
        jobs.append(cbmc.Job('c09.c', name='fixed%d' % n, defines=dict(MODE=4, N=n), unwind=n + 2, timeout=3000 if thorough else 300, key='fixed'))
    for n in (1, 2, 3) + ((5,) if thorough else ()):
        jobs.append(cbmc.Job('c09.c', name='numbers%d' % n, defines=dict(MODE=5, N=n), unwind=n + 3, timeout=3000 if thorough else 300, key='probabilities'))
    for n in (1, 2) + ((3, 4) if thorough else ()):
        jobs.append(cbmc.Job('c09.c', name='large%d' % n, defines=dict(MODE=6, N=n), unwind=n + 3, timeout=3000 if thorough else 300, key='softmax'))
    r.bound('class: 1 and 2 outputs (4 thorough), any single precision values except not-a-number, the first above minus infinity; 3 to 5 outputs (8 thorough), any real values; any 32-bit values for the fixed-point maximum')
    r.bound('probabilities that are no numbers: any of 1..3 outputs; softmax in floating point: 1..2 outputs (4 thorough) equal or at least 110 apart, the largest beyond 1.7e7 in magnitude')
    for n in (1, 2, 3, 4) + ((6,) if thorough else ()):
        lls.append(ll.LLJob('probabilities%d' % n, src, key='probabilities', defines=['MODE=2', 'N=%d' % n, 'EXTRA=%d' % (n % 2)], time_limit=2000 if thorough else 300))
    for n in (1, 2, 3) + ((4,) if thorough else ()):
        lls.append(ll.LLJob('softmax%d' % n, src, key='softmax', defines=['MODE=3', 'N=%d' % n],
                            fallback=['FACTS'], time_limit=2000 if thorough else 300))
    r.bound('probabilities: 1..4 outputs (6 thorough), any real values within +-1000; softmax: 1..3 outputs (4 thorough), any real values within +-1e30')
    for mode, n, wide in ((1, 300, 130), (1, 300, 299), (1, 700, 256), (2, 300, 200), (3, 130, 129), (3, 300, 299)):
        lls.append(ll.LLJob('wide-%d-%d-%d' % (mode, n, wide), src, key=('', 'class', 'probabilities', 'softmax')[mode], defines=['MODE=%d' % mode, 'N=%d' % n, 'WIDE=%d' % wide],
                            fallback=['FACTS'] if mode == 3 else [], max_steps=30000000, time_limit=2000 if thorough else 300))
    r.bound('130 to 700 outputs of three real values: the first, one other and the rest')
    r.assume('softmax over the reals: the exponential function is positive, strictly increasing and 1 at 0, its arguments must stay below overflow; sums are judged with a margin of 1e-5 around the limit of 0.001')
    core.all_of(r, lambda: ll.run_jobs(r, lls), lambda: cbmc.run_jobs(r, jobs))
