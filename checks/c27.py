"""Writing CSV and reading it back."""
import os

from vlib import cbmc, core, ll
LEVEL = 'other'


def run(r, tier):
    def J(key, unwind=26, timeout=800, **d):
        return cbmc.Job('c27.c', defines=d, unwind=unwind, key=key, timeout=timeout)
    M = 'EML_CSV_FLOAT_MAXSIZE'
    jobs = [J('refuse', unwind=30, REFUSE=1), J('roundtrip', COLS=1, ROWS=1), J('roundtrip', COLS=2, ROWS=1, **{M: 4}), J('roundtrip', COLS=1, ROWS=2, **{M: 4})]
    r.bound('1 column x 1 row with the default value width of 20; 2x1 and 1x2 columns x rows with value width 4; names up to 2 characters and texts up to 3 of any character but separators, plus text lengths around the width limit')
    if tier == 'thorough':
        jobs += [J('roundtrip', COLS=1, ROWS=3, **{M: 4}), J('roundtrip', COLS=2, ROWS=2, **{M: 4}), J('roundtrip', COLS=3, ROWS=1, unwind=28, **{M: 4})]
        r.bound('thorough: 2x2, 3x1, 1x3')
    r.assume('snprintf is replaced by a function that produces any text of any length (and honours its size argument): number formatting belongs to the C library')
    r.assume('values do not contain the separator; a stream that stores what is written and reads it back')
    src = open(os.path.join(core.VERIF, 'harness', 'c27.c')).read()
    wide = [(1, 1, 200), (3, 1, 300), (150, 1, 4), (300, 1, 4), (2, 140, 5), (1, 300, 5)]
    lls = [ll.LLJob('wide-%d-%d-%d' % w, src, key='wide', max_steps=30000000, defines=['COLS=%d' % w[0], 'ROWS=%d' % w[1], 'NAMELEN=%d' % w[2], 'TEXTS=%d' % (w[0] * w[1] + 2)]) for w in wide]
    r.bound('large files (columns, rows, length of names) %s: given texts, but for any character of the last name and any first value' % wide)
    core.all_of(r, lambda: ll.run_jobs(r, lls), lambda: cbmc.run_jobs(r, jobs))
