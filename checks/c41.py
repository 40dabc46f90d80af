"""Stream functions on FILE objects."""
import os

from vlib import core, ll

LEVEL = 'other'
PRE = '#include <eml_common.h>\n#include <eml_io.h>\n'


def run(r, tier):
    thorough = tier == 'thorough'
    src = open(os.path.join(core.VERIF, 'harness', 'c41.c')).read().replace('#include <eml_fileio.h>', PRE + '#include <eml_fileio.h>')
    jobs = []
    for op, name in ((1, 'read'), (2, 'write')):
        for full in ((), ('FULL',)):
            for n in (0, 1, 4) + ((8,) if thorough else ()):
                jobs.append(ll.LLJob('%s-%d%s' % (name, n, ''.join('-' + x.lower() for x in full)), src, key=name, defines=['OP=%d' % op, 'COUNT=%d' % n, 'SN=%d' % min(n + 1, 5), 'CAP=%d' % (2 * n + 4), *full]))
        for n in (300, 33000, 70000) if thorough else (300, 33000):
            jobs.append(ll.LLJob('%s-long-%d' % (name, n), src, key=name, defines=['OP=%d' % op, 'COUNT=%d' % n, 'SN=%d' % (n + 9), 'CAP=%d' % (n + 10), 'LONG', 'FULL']))
    jobs.append(ll.LLJob('seek', src, key='seek', defines=['OP=3']))
    for n in (1, 3):
        jobs.append(ll.LLJob('back-%d' % n, src, key='back', defines=['OP=4', 'COUNT=%d' % n, 'FULL']))
    r.bound('transfers of up to 4 bytes (8 thorough) at any position of a file of up to 5 bytes, any part of them done; transfers of 300 and 33000 given bytes; any seek position up to LONG_MAX, any status')
    r.assume('the functions of the C library are replaced by ones over a file in memory; sizes beyond INT_MAX are outside (the return value is an int)')
    ll.run_jobs(r, jobs)
