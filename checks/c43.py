"""Structured logging, and the debugging hook."""
import os

from vlib import core, ll

LEVEL = 'other'


def run(r, tier):
    thorough = tier == 'thorough'
    src = open(os.path.join(core.VERIF, 'harness', 'c43.c')).read()
    src = src.replace('#include "vhprint.h"', open(os.path.join(core.VERIF, 'harness', 'vhprint.h')).read())
    jobs = []

    def job(name, key, *defines):
        jobs.append(ll.LLJob(name, src, key=key, defines=list(defines)))
    for n in (1, 2, 3) + ((4,) if thorough else ()):
        job('entry-%d' % n, 'entry', 'MODE=1', 'TEXTLEN=%d' % n)
    job('entry-40', 'entry', 'MODE=1', 'TEXTLEN=40')
    job('entry-default', 'entry', 'MODE=1', 'TEXTLEN=2', 'DEFAULT')
    for n in (0, 1, 2, 3, 40, 140, 300) + ((700,) if thorough else ()):
        job('array-%d' % n, 'array', 'MODE=2', 'N=%d' % n, 'CAPACITY=%d' % (6 * n + 100))
    for n in (1, 2, 3) + ((4, 7) if thorough else ()):
        job('trees-regress-%d' % n, 'trees', 'MODE=3', 'NT=%d' % n, 'BITS=32')
        job('trees-predict-%d' % n, 'trees', 'MODE=3', 'NT=%d' % n, 'BITS=0')
    for n in (1, 3) + ((5,) if thorough else ()):
        job('neighbors-%d' % n, 'neighbors', 'MODE=4', 'ITEMS=%d' % n)
    job('errors', 'errors', 'MODE=5')
    job('errors-debug', 'errors', 'MODE=5', 'HOOK')
    r.bound('entries with texts of 1..3 characters of any printable kind (and of 40), any integers, booleans and real numbers; arrays of 0..300 values; '
            'forests of 1..3 trees with any thresholds, leaf values and features; 1..3 stored neighbours; any error code')
    r.assume('the printing function is replaced by one that records the format and its arguments: digits of numbers are those of the C library')
    ll.run_jobs(r, jobs)
