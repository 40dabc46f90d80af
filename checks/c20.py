"""Adding items to a nearest neighbours model."""
import os

from vlib import cbmc, core, ll

LEVEL = 'other'


def run(r, tier):
    src = open(os.path.join(core.VERIF, 'harness', 'c20.c')).read()
    shapes = [(2, 3), (3, 2), (1, 4), (2, 0)] + ([(3, 4), (2, 4), (1, 3)] if tier == 'thorough' else [])
    jobs = [cbmc.Job('c20.c', defines=dict(NF=f, MAX=m), unwind=16, key='add-item') for f, m in shapes]
    r.bound('models of 1..3 features and capacity 0..4, any number of items in it, any contents, any length and label: one step, from any consistent state')
    wide = [(140, 270, i) for i in (5, 127, 200, 255, 269, 270)] + [(2, 20000, 19999), (300, 3, 2)]
    lls = [ll.LLJob('wide-%d-%d-%d' % w, src, key='add-item', defines=['NF=%d' % w[0], 'MAX=%d' % w[1], 'ITEMS=%d' % w[2], 'CAP=%d' % w[1], 'MAXNF=%d' % w[0]], max_steps=30000000) for w in wide]
    r.bound('large models (features, capacity, items in it) %s of given contents: any label and length, and any last value' % wide)
    lls.append(ll.LLJob('check', src, key='check', defines=['CHECK']))
    r.bound('capacity check: every capacity, number of features and every label and distance length of 16 bits and data length of 32 bits that is not negative')
    core.all_of(r, lambda: ll.run_jobs(r, lls), lambda: cbmc.run_jobs(r, jobs))
