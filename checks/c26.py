import os

from vlib import cbmc, core, ll
LEVEL = 'other'


def run(r, tier):
    def J(key, unwind=10, timeout=400, **d):
        return cbmc.Job('c26.c', defines=d, unwind=unwind, key=key, timeout=timeout)
    jobs = []
    for sn, bn, cn in ((7, 6, 4), (5, 4, 1), (4, 6, 2), (3, 1, 1), (6, 6, 6)):
        for kind in ('HEADER', 'ROW'):
            jobs.append(J(kind.lower(), SN=sn, BN=bn, CN=cn, **{kind: 1}))
            jobs.append(J(kind.lower(), SN=sn, BN=bn, CN=cn, SHORT=1, **{kind: 1}))
    r.bound('streams of 3..7 arbitrary bytes, buffers of 1..6 bytes, 1..6 columns capacity, any start position, any column count of the header; every read may fail or be short, every seek may fail')
    if tier == 'thorough':
        for kind in ('HEADER', 'ROW'):
            jobs.append(J(kind.lower(), unwind=22, timeout=3000, SN=20, BN=16, CN=6, SHORT=1, **{kind: 1}))
        r.bound('thorough: streams of 20 bytes, buffer of 16 bytes')
    for j in jobs:
        j.reach = False if j.defines['BN'] < 2 or j.defines['CN'] < 2 else j.reach
    r.assume('a read function returns the number of bytes delivered (at most the size asked for) or a negative error')
    src = open(os.path.join(core.VERIF, 'harness', 'c26.c')).read()
    lls = []
    for name, sn, bn, cn, first, text, at, start, expected in (
            ('line', 700, 400, 6, 310, 'i % 310 == 130 || i % 310 == 140 || i % 310 == 290', 300, 0, 4), ('second', 900, 500, 6, 310, 'i % 310 == 130 || i % 310 == 290', 500, 310, 3),
            ('columns', 900, 700, 320, 600, 'i % 2', 5, 0, 300), ('short', 700, 280, 6, 600, 'i % 270 == 260', 265, 0, 2), ('late', 1000, 330, 5, 300, 'i % 300 == 270', 950, 900, 2)):
        for kind in ('HEADER', 'ROW'):
            lls.append(ll.LLJob('long-%s-%s' % (name, kind.lower()), src, key='long', defines=['LONG=(%s)' % text, 'FIRST=%d' % first, 'SN=%d' % sn, 'BN=%d' % bn, 'CN=%d' % cn, 'ANY=%d' % at, 'START=%d' % (0 if kind == 'HEADER' else start), 'EXPECTED=%d' % expected, kind]))
    r.bound('long lines: streams of 700 to 1000 bytes, lines of 300 to 600 bytes and up to 300 columns, given but for one byte')
    core.all_of(r, lambda: ll.run_jobs(r, lls), lambda: cbmc.run_jobs(r, jobs))
