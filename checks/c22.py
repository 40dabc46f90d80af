"""IIR filter against a cascade of second order sections."""
import os

from vlib import cbmc, core, ll

LEVEL = 'other'


def run(r, tier):
    src = open(os.path.join(core.VERIF, 'harness', 'c22.c')).read()
    sizes = [(1, 5), (2, 4), (3, 3), (5, 1)] + ([(1, 7), (2, 5), (4, 3), (8, 1)] if tier == 'thorough' else [])
    jobs = [ll.LLJob('filter-%d-%d' % s, src, key='filter', defines=['STAGES=%d' % s[0], 'STEPS=%d' % s[1]]) for s in sizes]
    jobs += [ll.LLJob('many-%d-%d' % s[:2], src, key='filter', defines=['MODE=3', 'STAGES=%d' % s[0], 'ANY=%d' % s[1], 'STEPS=%d' % s[2]]) for s in ((140, 139, 3), (300, 299, 2), (300, 7, 2))]
    r.bound('many stages: 140 and 300, given coefficients but for two of one stage; any samples within 1')
    r.bound('stages x samples: %s; all coefficients (denominators normalised), states and samples are symbolic reals; two filters used in turn' % sizes)
    r.bound('check function: every stage count and lengths, arrays present or not')
    r.assume('exact real arithmetic: single precision rounding is outside the encoding')
    r.assume('both copies of a state value are equal at the start, as after every call and initialisation to zero')
    core.all_of(r, lambda: ll.run_jobs(r, jobs), lambda: cbmc.run_jobs(r, [cbmc.Job('c22.c', defines=dict(MODE=2), unwind=4, key='check')]))
