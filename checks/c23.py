"""Sparse filterbank: Python reduction, C reduction and generated tables against the dense matrix product."""
import os
import sys
import types

import numpy

from vlib import core, ll, pysym

LEVEL = 'other'


def matrices(thorough):
    """zeros inside filters, empty filters, filters at the edges, single coefficients"""
    out = [numpy.array(m, dtype=float) / 64 for m in (
        [[64, 32, 0, 0], [0, 32, 64, 0], [0, 0, 0, 16]],
        [[0, 0, 0], [1, 0, 3], [0, 0, 0]],
        [[0, 0, 0, 5]], [[7, 0, 0, 0]], [[0, 0, 0, 0]], [[9]],
        [[1, 0, 0, 0, 2], [0, -3, 0, -4, 0], [0, 0, 0, 0, 0], [0, 0, 0, 0, 6], [11, 0, 0, 0, 0]],
    )]
    rng = numpy.random.RandomState(5)
    for k in range(20 if thorough else 4):
        nf, ni = rng.randint(1, 6), rng.randint(1, 8)
        out.append(rng.randint(-200, 200, (nf, ni)) * (rng.rand(nf, ni) < 0.5) / 64.0)
    return out


def finish(code, m):
    return code + '\n#define GEN(x) GEN_(x)\n#define GEN_(x) bank_ ## x\n#define NF %d\n#define NI %d\nstatic const double REF[NF][NI] = {%s};\n' % (
        m.shape[0], m.shape[1], ','.join('{%s}' % ','.join(repr(float(x)) for x in row) for row in m))


def generated(m):
    from emlearn import signal
    return finish(signal.sparse_filterbank_serialize(signal.sparse_filterbank(m), name='bank'), m)


def tool(m):
    """the command line generator, with the filters taken from m"""
    from emlearn.tools import mel_filterbank
    fake = types.ModuleType('librosa')
    fake.filters = types.SimpleNamespace(mel=lambda **k: m, mel_frequencies=lambda **k: numpy.arange(m.shape[0]) + 0.5)
    keep = sys.modules.get('librosa')
    sys.modules['librosa'] = fake
    try:
        args = mel_filterbank.parse(['--bands', str(m.shape[0]), '--fft', '8', '--fmax', '4000'])
        return finish(mel_filterbank.mel_filterbank(args, 'bank'), m)
    finally:
        if keep is None:
            del sys.modules['librosa']
        else:
            sys.modules['librosa'] = keep


def python(nf, ni, extra=0):
    def f(v):
        from emlearn import signal
        m = v.array('m', (nf, ni))
        x = v.array('x', (ni + extra,))
        before = m.copy()
        sparse = signal.sparse_filterbank(m)
        starts, ends, coeffs = sparse
        v.check(len(starts) == nf and len(ends) == nf, 'one range per filter')
        got = signal.sparse_filterbank_reduce(sparse, x)
        v.check(len(got) == nf, 'one output per filter')
        for i in range(nf):
            want = 0
            for j in range(ni):
                want = want + m[i, j] * x[j]
            v.equal(got[i], want, 'dense matrix product')
        for i in numpy.ndindex(nf, ni):
            v.equal(m[i], before[i], 'matrix not modified')
        # what the C code reads: one coefficient per input of each range
        v.check(len(coeffs) == sum(int(e) - int(s) + 1 for s, e in zip(starts, ends)), 'coefficients fill the ranges')
        o = 0
        for i in range(nf):
            v.check(0 <= starts[i] and ends[i] < ni, 'range inside the input')
            for j in range(int(starts[i]), int(ends[i]) + 1):
                v.equal(coeffs[o], m[i, j], 'coefficient order')
                o += 1
            for j in range(ni):
                if j < starts[i] or j > ends[i]:
                    v.check(m[i, j] == 0, 'nothing left out')
        v.reach('reduced')
    return f


def run(r, tier):
    from emlearn import signal
    thorough = tier == 'thorough'
    src = open(os.path.join(core.VERIF, 'harness', 'c23.c')).read()
    sizes = [(1, 1), (1, 4), (2, 3), (3, 2)] + ([(3, 3), (2, 5), (1, 8)] if thorough else [])
    jobs = [ll.LLJob('C-%d-%d' % s, src, key='C', defines=['MODE=1', 'NF=%d' % s[0], 'NI=%d' % s[1]]) for s in sizes]
    ms = matrices(thorough)
    for k, m in enumerate(ms):
        jobs.append(ll.LLJob('generated-%d' % k, src, key='generated', defines=['MODE=2'], files={'gen.h': generated(m)}))
    for k, m in enumerate(ms[:3]):
        jobs.append(ll.LLJob('tool-%d' % k, src, key='tool', defines=['MODE=2'], files={'gen.h': tool(m)}))
    psizes = [(1, 1, 0), (1, 4, 0), (2, 2, 1), (2, 3, 0), (3, 2, 0)] + ([(1, 7, 1), (3, 3, 0)] if thorough else [])
    tasks = [pysym.Task('python-%d-%d-%d' % s, python(*s), modules=[signal]) for s in psizes]
    r.bound('Python: filters x inputs %s (third: surplus inputs), any real coefficients (every pattern of zeros) and inputs' % psizes)
    r.bound('C: filters x inputs %s, any ranges, coefficients, inputs; %d generated tables with any input' % (sizes, len(ms) + 3))
    r.assume('exact real arithmetic: single precision rounding is outside the encoding')
    core.all_of(r, lambda: ll.run_jobs(r, jobs), lambda: pysym.run_tasks(r, tasks))
