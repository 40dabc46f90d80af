"""Nearest neighbours prediction."""
import os

from vlib import cbmc, core, ll
LEVEL = 'other'
STUB = [('eml_distance_euclidean_int16', 'vh_distance')]


def run(r, tier):
    def J(key, unwind=17, timeout=400, **d):
        return cbmc.Job('c17.c', defines=d, unwind=unwind, key=key, replace=STUB, timeout=timeout)
    jobs = [J('predict', N=4), J('predict', N=3, NI=2), J('predict', N=3, NF=3), J('label', N=3, ANYLABEL=1), J('reject', N=3, REJECT=1)]
    after = J('label', N=2, ANYLABEL=1)
    after.history = True
    jobs.append(after)
    r.bound('two predictions after each other, also after an unsupported label, with 2 items each')
    r.bound('training items 1..4 (model capacity up to 4), 2 or 3 features, every int16 value and label, every k from 1 to the number of items; every argument length')
    if tier == 'thorough':
        jobs += [J('predict', N=5, unwind=33, timeout=1500), J('predict', N=6, unwind=65, timeout=3000), J('label', N=4, ANYLABEL=1, timeout=1500)]
        r.bound('thorough: up to 6 items')
    r.assume('items differ from the query in one (any) coordinate, so that the distance is an absolute difference; the Euclidean distance function itself is decided by C18 and replaced by that difference in the solver run (not in the replay)')
    r.assume('EML_NEIGHBORS_MAX_CLASSES at its default of 10; k >= 1')
    src = open(os.path.join(core.VERIF, 'harness', 'c17w.c')).read()
    wide = [(300, 1, 5, 280, 3, 'i % 9'), (300, 2, 290, 299, 280, 'i % 3 ? 2 : 7'), (270, 140, 7, 269, 4, 'i % 10'), (300, 1, 259, 20, 257, 'i % 40 / 9'), (4, 300, 3, 2, 1, 'i % 2'), (17, 3, 4, 16, 2, 'i % 3'), (300, 2, 1, 290, -1, 'i % 9'), (40, 2, 2, 30, 1, 'i % 9'), (1, 2, 1, 0, 0, '3')]
    lls = [ll.LLJob('wide-%d-%d-%d' % w[:3], src, key='wide', max_steps=30000000, replace={'eml_distance_euclidean_int16': 'vh_distance'},
                    defines=['NI=%d' % w[0], 'NF=%d' % w[1], 'K=%d' % w[2], 'SYM=%d' % w[3], 'NEAR=%d' % w[4], 'LABEL(i)=(%s)' % w[5], 'SPARE=2', 'STRIDE=101']) for w in wide]
    r.bound('large models (items, features, k) %s with given data, but for one item that has any of four distances between those of others' % [w[:3] for w in wide])
    core.all_of(r, lambda: ll.run_jobs(r, lls), lambda: cbmc.run_jobs(r, jobs))
