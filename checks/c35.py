"""Lehmer generator."""
import os

from vlib import core, ll

LEVEL = 'other'


def run(r, tier):
    src = open(os.path.join(core.VERIF, 'harness', 'c35.c')).read()
    r.bound('every valid state 1..2^31-2; fills of 0..6 elements')
    r.assume('2^31-1 is a prime number (so that state*48271 mod 2^31-1 is never 0)')
    r.assume('values are compared as reals: rounding of large states to single precision is outside the encoding')
    ll.run_jobs(r, [ll.LLJob('next', src, key='next', defines=['MODE=1']), ll.LLJob('fill', src, key='fill', defines=['MODE=2'])]
                + [ll.LLJob('long-%d' % n, src, key='long', defines=['MODE=3', 'N=%d' % n], max_steps=30000000) for n in (300, 33000) + ((70000,) if tier == 'thorough' else ())])
    r.bound('fills of 300 and 33000 (70000 thorough) elements')
