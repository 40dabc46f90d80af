"""Network inference: every description and every argument length."""
import os
import re

from vlib import cbmc, core

LEVEL = 'other'


def run(r, tier):
    thorough = tier == 'thorough'
    jobs = []
    for mode in (1, 2, 3, 4):
        for layers, width in [(3, 2)] + ([(2, 3), (4, 2)] if thorough else []):
            jobs.append(cbmc.Job('c08.c', defines=dict(MODE=mode, MAXL=layers, MAXN=width), unwind=width + 1, timeout=3000 if thorough else 300, key='mode%d' % mode,
                                 unwindset=['harness.0:%d' % (layers + 2), 'eml_net_find_largest_layer.0:%d' % (layers + 2)]))
        if mode < 4:
            jobs.append(cbmc.Job('c08.c', defines=dict(MODE=mode, MAXL=2, MAXN=2, WARM=1), unwind=3, timeout=300, key='mode%d' % mode, unwindset=['harness.0:4', 'eml_net_find_largest_layer.0:4']))
    r.bound('the same, for 2 layers, after another network was used')
    header = re.sub(r'\s+', ' ', open(os.path.join(core.INCLUDE, 'eml_net.h')).read())
    if re.search(r'eml_net_layer_forward\(const EmlNetLayer \*\w+, const float \*\w+, int32_t \w+, float \*\w+, int32_t \w+\)', header):
        jobs.append(cbmc.Job('c08.c', defines=dict(MODE=6, MAXN=2), unwind=4, key='layer'))
        r.bound('a layer on its own: any lengths up to 2, down to the smallest integers')
    else:
        r.bound('no eml_net_layer_forward of the known form: layers are checked as parts of networks only')
    r.bound('up to 3 layers of -1..2 inputs and outputs each, in any combination, buffers, features and outputs of -1..2 (3) values, any activation, and any of model, layers, weights, biases, buffers, features and output missing')
    if thorough:
        r.bound('thorough: also 2 layers of up to 3, and 4 layers of up to 2')
    r.assume('weights are fixed numbers, expf, logf and tanhf return any value: which memory is used does not depend on them')
    cbmc.run_jobs(r, jobs)
