"""The Python extension functions: bindings/*.cpp compiled unmodified against stand-ins for pybind11, and executed symbolically."""
import os

from vlib import core, ll

LEVEL = 'other'


def run(r, tier):
    thorough = tier == 'thorough'
    src = open(os.path.join(core.VERIF, 'harness', 'c38.cpp')).read()
    jobs = []

    def add(name, key, what, **d):
        jobs.append(ll.LLJob(name, src, key=key, cxx=True, replace={'getenv': 'vh_getenv', '_Znwm': 'malloc', '_Znam': 'malloc', '_ZdlPv': 'free', '_ZdaPv': 'free'}, time_limit=1500 if thorough else 150,
                             defines=([] if key == 'iirfilter' else ['EML_AUDIO']) + [what] + ['%s=%s' % kv for kv in d.items()]))
    # iirfilter
    for stages, n in [(1, 4), (2, 3), (3, 2), (0, 2), (1, 0), (1, 1)] + ([(4, 4), (2, 8)] if thorough else []):
        add('iirfilter-%d-%d' % (stages, n), 'iirfilter', 'IIR', ND=2, STAGES=stages, COLUMNS=6, DATA_ND=1, LEN=n)
    for nd, stages, cols, dnd in [(2, 1, 5, 1), (2, 1, 7, 1), (2, 2, 4, 1), (2, 3, 2, 1), (2, 6, 1, 1), (2, 2, 12, 1), (2, 1, 0, 1), (1, 6, 1, 1), (3, 1, 6, 1), (2, 1, 6, 2), (2, 1, 6, 0), (0, 1, 6, 1), (2, 6, 6, 2)]:
        add('iirfilter-shape-%d.%d.%d.%d' % (nd, stages, cols, dnd), 'iirfilter', 'IIR', ND=nd, STAGES=stages, COLUMNS=cols, DATA_ND=dnd, LEN=2)
    # rfft
    for n in [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16] + ([32, 31, 33, 64] if thorough else []):
        add('rfft-%d' % n, 'rfft', 'RFFT', ND=1, LEN=n)
    for nd in (0, 2, 3):
        add('rfft-shape-%d' % nd, 'rfft', 'RFFT', ND=nd, LEN=4)
    # melfilter and melspectrogram
    mel = [(4, 2, 0, 4000, 8000), (8, 3, 0, 4000, 8000), (8, 2, 300, 3500, 8000), ] + ([(16, 4, 0, 8000, 16000), (32, 5, 0, 8000, 16000), (16, 3, 1000, 7000, 16000)] if thorough else [])
    for fft, n, lo, hi, rate in mel:
        d = dict(NMELS=n, FMIN='%d.0f' % lo, FMAX='%d.0f' % hi, NFFT=fft, RATE=rate)
        add('melfilter-%d-%d-%d' % (fft, n, lo), 'melfilter', 'MELFILTER', ND=1, LEN=1 + fft // 2, **d)
        add('melspectrogram-%d-%d-%d' % (fft, n, lo), 'melspectrogram', 'MELSPEC', ND=1, LEN=fft, **d)
    for nd, n, fft, mels in [(1, 4, 8, 2), (1, 6, 8, 2), (2, 5, 8, 2), (0, 5, 8, 2), (1, 8, 8, 2), (1, 5, 8, 0), (1, 5, 8, -1), (1, 1, 0, 1), (1, 1, 1, 1), (1, 5, 9, 2)]:
        add('melfilter-shape-%d.%d.%d.%d' % (nd, n, fft, mels), 'melfilter', 'MELFILTER', ND=nd, LEN=n, NMELS=mels, FMIN='0.0f', FMAX='4000.0f', NFFT=fft, RATE=8000)
    for nd, n, fft, mels in [(1, 4, 8, 2), (1, 9, 8, 2), (2, 8, 8, 2), (0, 8, 8, 2), (1, 5, 8, 2), (1, 8, 8, 0), (1, 8, 8, -1), (1, 6, 6, 2), (1, 7, 7, 2), (1, 8, 8, 9), (1, 8, 8, 8), (1, 0, 0, 1), (1, 1, 1, 1), (1, 2, 2, 1)]:
        add('melspectrogram-shape-%d.%d.%d.%d' % (nd, n, fft, mels), 'melspectrogram', 'MELSPEC', ND=nd, LEN=n, NMELS=mels, FMIN='0.0f', FMAX='4000.0f', NFFT=fft, RATE=8000)
    # sparse_filterbank
    for filters, n, lut in [(1, 3, 3), (2, 3, 4), (2, 4, 2), (3, 2, 3), (0, 2, 1), (1, 0, 1)] + ([(3, 4, 6), (4, 3, 5)] if thorough else []):
        add('sparse_filterbank-%d-%d-%d' % (filters, n, lut), 'sparse_filterbank', 'SPARSE', ND=1, LEN=n, LUT_ND=1, NLUT=lut, NSTARTS=filters, NSTOPS=filters, STARTS_ND=1, STOPS_ND=1, LO=-2, HI=n + 1)
    add('sparse_filterbank-extreme', 'sparse_filterbank', 'SPARSE', ND=1, LEN=2, LUT_ND=1, NLUT=2, NSTARTS=1, NSTOPS=1, STARTS_ND=1, STOPS_ND=1, LO='(-2147483647-1)', HI=2147483647)
    for nd, lnd, a, b, and_, bnd in [(2, 1, 2, 2, 1, 1), (1, 2, 2, 2, 1, 1), (1, 1, 2, 2, 2, 1), (1, 1, 2, 2, 1, 2), (1, 1, 2, 1, 1, 1), (1, 1, 1, 2, 1, 1), (0, 1, 2, 2, 1, 1)]:
        add('sparse_filterbank-shape-%d.%d.%d.%d.%d.%d' % (nd, lnd, a, b, and_, bnd), 'sparse_filterbank', 'SPARSE', ND=nd, LEN=3, LUT_ND=lnd, NLUT=6, NSTARTS=a, NSTOPS=b, STARTS_ND=and_, STOPS_ND=bnd, LO=0, HI=2)
    # after an earlier call, with other data
    for stages, n, prev in [(1, 2, 2), (2, 2, 1), (1, 2, 4)]:
        add('iirfilter-again-%d-%d-%d' % (stages, n, prev), 'iirfilter', 'IIR', ND=2, STAGES=stages, COLUMNS=6, DATA_ND=1, LEN=n, PREV=prev)
    for n, prev in [(4, 4), (4, 8), (8, 4)]:
        add('rfft-again-%d-%d' % (n, prev), 'rfft', 'RFFT', ND=1, LEN=n, PREV=prev)
    d = dict(NMELS=2, FMIN='0.0f', FMAX='4000.0f', NFFT=8, RATE=8000, PREV=1)
    add('melfilter-again', 'melfilter', 'MELFILTER', ND=1, LEN=5, **d)
    add('melspectrogram-again', 'melspectrogram', 'MELSPEC', ND=1, LEN=8, **d)
    add('sparse_filterbank-again', 'sparse_filterbank', 'SPARSE', ND=1, LEN=2, LUT_ND=1, NLUT=3, NSTARTS=2, NSTOPS=2, STARTS_ND=1, STOPS_ND=1, LO=-2, HI=3, PREV=1)
    add('iirfilter-long', 'iirfilter', 'IIR', ND=2, STAGES=1, COLUMNS=6, DATA_ND=1, LEN=33000, LONG=1)
    r.bound('iirfilter of 33000 samples: a given filter without feedback, given samples but for three')
    r.bound('each function also after an earlier call with other data')
    r.bound('the shapes and parameters of the %d jobs (%s), any contents within +-1000; starts and stops any integers from -2 to one beyond the input, and any 32-bit integers for one filter' % (len(jobs), ', '.join(j.name for j in jobs)))
    r.assume('pybind11, NumPy and the C++ library are replaced by stand-ins with the same meaning: arguments arrive as contiguous arrays of the declared type; exact real arithmetic')
    ll.run_jobs(r, jobs)
