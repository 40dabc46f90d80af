"""Vector, window and spectrum helpers."""
import os

from vlib import cbmc, core, ll

LEVEL = 'other'


def run(r, tier):
    src = open(os.path.join(core.VERIF, 'harness', 'c25.c')).read()
    deep = tier == 'thorough'
    sets = [(4, 2), (3, 3), (2, 4), (3, 0), (0, 0)] + ([(8, 3), (6, 6)] if deep else [])
    a = [cbmc.Job('c25.c', defines=dict(MODE=1, ND=d, NS=s), unwind=12, key='vector-set') for d, s in sets]
    b = [ll.LLJob('helpers-%d' % n, src, key='helpers', defines=['MODE=2', 'N=%d' % n]) for n in ((0, 1, 2, 3, 4) if not deep else range(7))]
    b += [ll.LLJob('hann-%d' % n, src, key='hann', defines=['MODE=3', 'N=%d' % n]) for n in ((0, 1, 2, 3, 8, 33, 64) if not deep else list(range(70)) + [128, 255, 256, 1024])]
    spec = [(8, 6, 5), (8, 8, 5), (8, 4, 5), (8, 8, 6), (8, 8, 4), (5, 8, 3), (1, 3, 1), (2, 3, 2)] + ([(64, 64, 33), (64, 64, 32), (16, 9, 8)] if deep else [])
    b += [ll.LLJob('power-%d-%d-%d' % s, src, key='power', defines=['MODE=4', 'NFFT=%d' % s[0], 'LIN=%d' % s[1], 'LOUT=%d' % s[2]], max_paths=3000 if s[0] < 20 else 200000) for s in spec if s[0] < 20]
    b += [ll.LLJob('wide-helpers-%d-%d' % (n, a), src, key='wide', defines=['MODE=2', 'N=%d' % n, 'ANY=%d' % a]) for n, a in ((140, 139), (260, 100), (300, 280))]
    b += [ll.LLJob('wide-hann-%d-%d' % (n, a), src, key='wide', defines=['MODE=3', 'N=%d' % n, 'ANY=%d' % a]) for n, a in ((140, 133), (300, 280), (1024, 700))]
    b += [ll.LLJob('wide-power-%d-%d' % (s[0], a), src, key='wide', defines=['MODE=4', 'NFFT=%d' % s[0], 'LIN=%d' % s[1], 'LOUT=%d' % s[2], 'ANY=%d' % a])
          for s, a in (((512, 300, 257), 256), ((512, 300, 257), 100), ((64, 64, 33), 20), ((600, 301, 300), 3), ((2048, 1026, 1025), 1024))]
    b += [ll.LLJob('wide-set-%d-%d-%d' % s[:3], src, key='wide', max_steps=40000000, defines=['MODE=1', 'ND=%d' % s[0], 'NS=%d' % s[1], 'LOCATION=%d' % s[2], 'ANY=%d' % s[3]]) for s in ((300, 280, 20, 270), (600, 10, 300, 5), (600, 200, 127, 199), (33000, 10, 32764, 5), (33000, 32990, 5, 32800))]
    r.bound('long vectors, windows and spectra (up to 1024 elements, 33000 for vector_set): given values but for any value at one position, and positions around a few')
    r.bound('vector_set: vectors of up to 4 (8 thorough) elements with any bit patterns except NaN and every location; helpers: up to 4 (6) reals; '
            'window lengths 0, 1, 2, 3, 8, 33, 64 (0..69, 128, 255, 256, 1024); power spectrum for n_fft 1, 2, 5, 8 (16) and lengths around it')
    r.assume('exact real arithmetic for sums and products; the cosine of the window is evaluated by libm on its concrete argument')
    core.all_of(r, lambda: ll.run_jobs(r, b), lambda: cbmc.run_jobs(r, a))
