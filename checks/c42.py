"""Command line generators: the table and parameters that were asked for, for any window and filter values."""
import contextlib
import os
import re
import sys
import tempfile
import types

import numpy

from vlib import pysym
from vlib.pysym import And

LEVEL = 'other'


def declarations(v, text):
    """{name: (type, [values] or value)} of a generated header; an independent reader of C declarations"""
    text = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', text, flags=re.S)
    out = {}
    rest = text
    for m in re.finditer(r'static\s+const\s+(\w+)\s+(\w+)\s*(?:\[\s*(\d+)\s*\])?\s*=\s*([^;]*);', text):
        t, name, n, value = m.groups()
        rest = rest.replace(m.group(0), '')
        if n is not None:
            b = re.fullmatch(r'\s*\{(.*)\}\s*', value, re.S)
            v.check(b is not None, 'an array initialiser')
            items = [x.strip() for x in b.group(1).split(',')] if b.group(1).strip() else []
            v.check(len(items) == int(n), 'declared size of ' + name)
            value = items
        v.check(name not in out, 'declared once')
        out[name] = (t, value.strip() if isinstance(value, str) else value)
    v.check(rest.strip() == '', 'nothing but declarations')
    return out


def tiny(v, x):
    # digits of a float
    return 0 if v.symbolic else pysym.Fraction(abs(float(x))) / 2**50


def literal(v, text, val, ctype, what):
    v.check(not re.search(r'\s', text), what + ': one literal')
    lo, hi = pysym.denoted(v, text)
    if ctype == 'float':
        v.check(text.endswith('f'), what + ': single precision literal')
        h = pysym.Fraction(5, 10**7) + tiny(v, val)
        v.check(And(lo >= val - h, hi <= val + h), what + ': within half of the sixth decimal')
    else:
        v.check(And(lo == val, hi == val), what)


def values(v, decls, name, ctype, vals):
    v.check(name in decls, 'declares ' + name)
    t, items = decls[name]
    v.check(t == ctype and isinstance(items, list), 'type of ' + name)
    v.check(len(items) == len(vals), 'number of values of ' + name)
    for i, (a, b) in enumerate(zip(items, vals)):
        literal(v, a, b, ctype, 'value %d of %s' % (i, name))


def number(v, decls, name, val):
    v.check(name in decls, 'declares ' + name)
    t, text = decls[name]
    v.check(t == 'int' and isinstance(text, str), 'type of ' + name)
    literal(v, text, val, 'int', name)


@contextlib.contextmanager
def instead(obj, **kw):
    had = {k: getattr(obj, k) for k in kw if hasattr(obj, k)}
    for k, x in kw.items():
        setattr(obj, k, x)
    try:
        yield
    finally:
        for k in kw:
            if k in had:
                setattr(obj, k, had[k])
            else:
                delattr(obj, k)


def command(module, argv):
    """{file: text} that the tool writes in an empty directory"""
    with tempfile.TemporaryDirectory() as d:
        was = os.getcwd()
        os.chdir(d)
        try:
            with instead(sys, argv=['tool'] + argv), instead(module, print=lambda *a, **k: None):
                module.main()
        finally:
            os.chdir(was)
        return {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))}


def window(argv, kind, n, symmetric, name, out):
    def f(v):
        import scipy.signal
        from emlearn.tools import window_function as tool
        w = v.array('w', (n,), -2, 2)
        asked = []

        def get_window(window, Nx, fftbins=True):
            asked.append((window, Nx, fftbins))
            return w
        with instead(scipy.signal, get_window=get_window):
            files = command(tool, argv)
        v.check(list(files) == [out], 'writes the file asked for')
        v.check(asked == [(kind, n, not symmetric)], 'the window asked for')
        d = declarations(v, files[out])
        values(v, d, name, 'float', list(w))
        number(v, d, name + '_length', n)
        v.reach('window')
    return f


def window_call(n, linewrap):
    """the function under the tool, with any line width that a literal fits in"""
    def f(v):
        import scipy.signal
        from emlearn.tools import window_function as tool
        w = v.array('w', (n,), -1000000, 1000000)
        with instead(scipy.signal, get_window=lambda *a, **k: w):
            text = tool.window_function('table', 'hann', n, True, linewrap)
        d = declarations(v, text)
        values(v, d, 'table', 'float', list(w))
        number(v, d, 'table_length', n)
        v.reach('window')
    return f


class Librosa:
    """what the tool asks librosa for"""

    def __init__(self, m, freqs):
        self.m, self.freqs, self.calls = m, freqs, []
        mod = types.ModuleType('librosa')
        mod.filters = types.SimpleNamespace(mel=self.mel, mel_frequencies=self.mel_frequencies)
        self.mod = mod

    def mel(self, *, sr, n_fft, n_mels=128, fmin=0.0, fmax=None, htk=False, norm='slaney', dtype=None):
        self.calls.append(('mel', dict(sr=sr, n_fft=n_fft, n_mels=n_mels, fmin=fmin, fmax=fmax, htk=htk, norm=norm)))
        return self.m

    def mel_frequencies(self, n_mels=128, *, fmin=0.0, fmax=11025.0, htk=False):
        self.calls.append(('mel_frequencies', dict(n_mels=n_mels, fmin=fmin, fmax=fmax, htk=htk)))
        return self.freqs

    @contextlib.contextmanager
    def installed(self):
        keep = sys.modules.get('librosa')
        sys.modules['librosa'] = self.mod
        try:
            yield
        finally:
            if keep is None:
                del sys.modules['librosa']
            else:
                sys.modules['librosa'] = keep


def bank(v, shape, pattern):
    """a filter matrix whose zeros are where the pattern says, and what its sparse form must be"""
    m = v.array('m', shape, -2, 2)
    starts, ends, lut = [], [], []
    for i in range(shape[0]):
        where = pattern[i]
        for j in range(shape[1]):
            if j in where:
                v.assume(m[i, j] != 0)
            else:
                m[i, j] = 0
        first, last = (min(where), max(where)) if where else (0, 0)
        starts.append(first)
        ends.append(last)
        lut += [m[i, j] for j in range(first, last + 1)]
    return m, starts, ends, lut


def check_bank(v, d, name, starts, ends, lut, freqs, fft, rate, fmin, fmax):
    number(v, d, name + '_bands', len(starts))
    values(v, d, name + '_starts', 'int', starts)
    values(v, d, name + '_ends', 'int', ends)
    number(v, d, name + '_length', len(lut))
    values(v, d, name + '_lut', 'float', lut)
    values(v, d, name + '_frequencies', 'float', list(freqs))
    number(v, d, name + '_nfft', fft)
    number(v, d, name + '_samplerate', rate)
    number(v, d, name + '_fmin', fmin)
    number(v, d, name + '_fmax', fmax)


PATTERNS = [((2, 3), [[0, 1], [1, 2]]), ((1, 4), [[0, 3]]), ((3, 3), [[], [1], [0, 1, 2]]), ((1, 1), [[]])]


def mel(argv, shape, pattern, name, out, want):
    def f(v):
        from emlearn.tools import mel_filterbank as tool
        m, starts, ends, lut = bank(v, shape, pattern)
        freqs = v.array('f', (shape[0],), 0, 100000)
        lib = Librosa(m, freqs)
        with lib.installed():
            files = command(tool, argv)
        v.check(list(files) == [out], 'writes the file asked for')
        got = dict(lib.calls)
        full = dict(sr=16000, n_fft=1024, n_mels=32, fmin=0, fmax=None, htk=False, norm='slaney')
        full.update(want)
        top = full['fmax'] if full['fmax'] is not None else full['sr'] // 2
        v.check('mel' in got and {k: x for k, x in got['mel'].items() if k != 'fmax'} == {k: x for k, x in full.items() if k != 'fmax'}, 'the filters asked for')
        v.check(got['mel']['fmax'] == full['fmax'] or got['mel']['fmax'] == top, 'highest frequency')
        v.check(got.get('mel_frequencies') == dict(n_mels=full['n_mels'], fmin=full['fmin'], fmax=top, htk=full['htk']), 'the frequencies asked for')
        check_bank(v, declarations(v, files[out]), name, starts, ends, lut, freqs, full['n_fft'], full['sr'], full['fmin'], top)
        v.reach('mel')
    return f


def mel_call(shape, pattern, fmax_given, linewrap=70):
    """the function under the tool, with any parameters"""
    def f(v):
        from emlearn.tools import mel_filterbank as tool
        m, starts, ends, lut = bank(v, shape, pattern)
        freqs = v.array('f', (shape[0],), 0, 100000)
        lib = Librosa(m, freqs)
        rate, fft, lo, hi = v.int('rate', 1, 10**6), v.int('fft', 1, 10**6), v.int('fmin', 0, 10**6), v.int('fmax', 0, 10**6)
        bands, htk, norm = v.int('bands', 1, 1000), v.bool('htk'), v.bool('normalize')
        args = tool.parse([])
        args.samplerate, args.fft, args.fmin, args.fmax, args.bands, args.htk, args.normalize, args.linewrap = 2 * rate, fft, lo, hi if fmax_given else None, bands, htk, norm, linewrap
        with lib.installed():
            text = tool.mel_filterbank(args, 'bank')
        got = dict(lib.calls)
        top = hi if fmax_given else rate
        g = got['mel']
        v.check(And(g['sr'] == 2 * rate, g['n_fft'] == fft, g['n_mels'] == bands, g['fmin'] == lo), 'the filters asked for')
        v.check(g['fmax'] is None or g['fmax'] == top, 'highest frequency')
        v.check(g['fmax'] is not None or not fmax_given, 'highest frequency')
        v.check(g['norm'] == 'slaney' if norm else g['norm'] is None, 'normalisation')
        v.check(bool(g['htk']) == bool(htk), 'scale')
        g = got['mel_frequencies']
        v.check(And(g['n_mels'] == bands, g['fmin'] == lo, g['fmax'] == top), 'the frequencies asked for')
        v.check(bool(g['htk']) == bool(htk), 'scale of the frequencies')
        check_bank(v, declarations(v, text), 'bank', starts, ends, lut, freqs, fft, 2 * rate, lo, top)
        v.reach('mel')
    return f


LONG = 'a_name_that_is_longer_than_the_seventy_characters_of_a_line_' + 'x' * 40


def run(r, tier):
    thorough = tier == 'thorough'
    from emlearn import cgen, signal
    from emlearn.tools import mel_filterbank, window_function
    mods = [cgen, signal, window_function, mel_filterbank]
    tasks = []
    windows = [(['--length', '5'], 'hann', 5, False, 'hann_5_lut', 'hann_5_lut.h'), (['--length=3', '--symmetric'], 'hann', 3, True, 'hann_3_lut', 'hann_3_lut.h'),
               (['--window', 'blackman', '--length', '4', '--name', 'tab'], 'blackman', 4, False, 'tab', 'tab.h'),
               (['--window=hamming', '--symmetric', '--length=2', '--name=a', '--out=other.h'], 'hamming', 2, True, 'a', 'other.h'),
               (['--length', '2', '--name', LONG, '--out', 'o.h'], 'hann', 2, False, LONG, 'o.h'), (['--length', '6', '--linewrap', '30', '--name', 'w'], 'hann', 6, False, 'w', 'w.h'),
               (['--length', '1', '--out', 'deep.inc'], 'hann', 1, False, 'hann_1_lut', 'deep.inc'), ([], 'hann', 1024, False, 'hann_1024_lut', 'hann_1024_lut.h')]
    for i, w in enumerate(windows):
        tasks.append(pysym.Task('window-%d' % i, window(*w), modules=mods, key='window'))
    for n, wrap in [(1, 70), (4, 20), (7, 30), (40, 70), (300, 100)]:
        tasks.append(pysym.Task('window-call-%d-%d' % (n, wrap), window_call(n, wrap), modules=mods, key='window'))
    mels = [([], {}, 'mel_1024_32', 'mel_1024_32.h'), (['--bands', '20', '--fft=512'], dict(n_mels=20, n_fft=512), 'mel_512_20', 'mel_512_20.h'),
            (['--samplerate', '8000', '--fmin', '100', '--fmax', '3000', '--name', 'n'], dict(sr=8000, fmin=100, fmax=3000), 'n', 'n.h'),
            (['--out', 'o.h'], {}, 'mel_1024_32', 'o.h'), (['--htk', 'True', '--normalize', 'True'], dict(htk=True), 'mel_1024_32', 'mel_1024_32.h'),
            (['--normalize', 'False'], dict(norm=None), 'mel_1024_32', 'mel_1024_32.h'), (['--htk=False', '--normalize='], dict(norm=None), 'mel_1024_32', 'mel_1024_32.h'),
            (['--name', LONG, '--out', 'o.h'], {}, LONG, 'o.h')]
    for i, (argv, want, name, out) in enumerate(mels):
        tasks.append(pysym.Task('mel-%d' % i, mel(argv, *PATTERNS[i % 3], name, out, want), modules=mods, key='mel'))
    for i, (shape, pattern) in enumerate(PATTERNS):
        tasks.append(pysym.Task('mel-call-%d' % i, mel_call(shape, pattern, i % 2 == 0, [70, 30, 100, 25][i]), modules=mods, key='mel'))
    r.bound('windows of 1..300 and 1024 values, any values; filterbanks of up to 3 bands and 4 bins, any values, with any integer parameters; %d command lines, lines of 20 to 100 characters' % (len(windows) + len(mels)))
    r.assume('scipy.signal.get_window and librosa.filters are replaced by stand-ins that record what is asked of them and return any values; values have six decimals')
    pysym.run_tasks(r, tasks)
