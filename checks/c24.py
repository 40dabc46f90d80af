"""Mel filter: weights for concrete parameters and any spectrum; buffers for any frequencies."""
import os

from vlib import core, ll

LEVEL = 'other'

# n_mels, fmin, fmax, n_fft, rate
PARAMS = [(3, 0, 4000, 32, 8000), (5, 100, 4000, 64, 8000), (1, 0, 500, 16, 8000), (1, 300, 301, 64, 8000), (8, 0, 2000, 16, 8000), (2, 0, 11025, 8, 22050), (4, 1000, 1500, 128, 16000),
          (16, 100, 7500, 256, 16000), (3, 0, 4500, 64, 8000), (3, -300, 3000, 64, 8000), (2, 3000, 4100, 64, 8000), (6, 0, 22050, 64, 44100), (2, 0, 4000, 2, 8000), (0, 0, 4000, 16, 8000), (130, 0, 4000, 256, 8000), (260, 0, 8000, 256, 16000), (1, 0, 16000, 1024, 32000)]
MORE = [(16, 0, 11025, 512, 22050), (32, 0, 8000, 512, 16000), (16, 500, 5000, 1024, 44100), (40, 20, 3900, 256, 8000), (13, 0.5, 3999.5, 128, 8000), (7, 60, 700, 2048, 48000), (5, 0, 24000, 64, 48000)]


def run(r, tier):
    thorough = tier == 'thorough'
    src = open(os.path.join(core.VERIF, 'harness', 'c24.c')).read()
    params = PARAMS + (MORE if thorough else [])
    jobs = [ll.LLJob('filter-%d-%g-%g-%d-%d' % p, src, key='filter', defines=['MODE=1', 'TOL=5e-4', 'NMELS=%d' % p[0], 'FMIN=(%g)' % p[1], 'FMAX=(%g)' % p[2], 'NFFT=%d' % p[3], 'RATE=%d' % p[4]])
            for p in params]
    lib = {'log10': 'vh_log10', 'powf': 'vh_powf'}
    sizes = [(1, 2, 2), (1, 4, 3), (2, 4, 4), (1, 5, 3), (1, 4, 2), (0, 4, 3)] + ([(2, 6, 4), (3, 4, 3), (1, 8, 5)] if thorough else [])
    for n, fft, length in sizes:
        for down in ((), ("DOWN",)) if n < 2 or thorough else ((),):
            jobs.append(ll.LLJob('any-%d-%d-%d%s' % (n, fft, length, ''.join(down)), src, key='any', replace=lib,
                                 defines=['MODE=2', 'NMELS=%d' % n, 'NFFT=%d' % fft, 'LEN=%d' % length, 'RATE=8000', *down]))
    jobs.append(ll.LLJob('other', src, key='any', replace=lib, defines=['MODE=2', 'OTHER', 'NMELS=2', 'NFFT=4', 'LEN=3', 'RATE=8000']))
    r.bound('weights: %d parameter sets (FFT lengths 2 to %d), any spectrum within +-1, tolerance 5e-4 per output' % (len(params), max(p[3] for p in params)))
    r.bound('buffers: (outputs, FFT length, spectrum length) %s, any fmin, fmax above -700 Hz, with log10 and 10^x any increasing functions, centre frequencies below 1 GHz' % sizes)
    r.assume('the concrete centre frequencies are computed in single and double precision as the C code does; sums over the spectrum in exact reals')
    ll.run_jobs(r, jobs)
