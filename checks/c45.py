"""Mixture models used from Python: the samples reach the compiled program and its numbers come back."""
import contextlib
import io
import os
import types
import warnings

import numpy

from vlib import core, ll, pysym
from checks.c14 import fitted
from checks.c42 import instead

LEVEL = 'other'

OUTPUTS = {'score': 1, 'predict_log_proba': 2, 'predict_proba': 3}


def program(est, output):
    """source of the program that the wrapper builds for this output"""
    import tempfile
    from emlearn import common, convert
    seen = []

    def compiled(src, out_dir, **kw):
        seen.append(open(src).read())
        return 'program'
    with warnings.catch_warnings(), tempfile.TemporaryDirectory() as d, instead(common, compile_executable=compiled):
        warnings.simplefilter('ignore')
        from emlearn import mixture
        mixture.build_executable(convert(est), d, output)
    return seen[0]


@contextlib.contextmanager
def running(output):
    """subprocess starts no program: output(args) is what it prints"""
    import subprocess

    def encoded(args, kw):
        v = output(args)
        return v if kw.get('text') or kw.get('universal_newlines') or kw.get('encoding') else v.encode('utf-8')

    def check_output(args, **kw):
        return encoded(args, kw)

    def run(args, **kw):
        return types.SimpleNamespace(args=args, returncode=0, stdout=encoded(args, kw), stderr=b'', check_returncode=lambda: None)

    class Popen:
        def __init__(self, args, **kw):
            self.args, self.returncode, self._out = args, 0, encoded(args, kw)
            self.stdout = io.BytesIO(self._out) if isinstance(self._out, bytes) else io.StringIO(self._out)

        def communicate(self, *a, **kw):
            return self._out, None

        def wait(self, *a, **kw):
            return 0

        def poll(self):
            return 0

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None
    with instead(subprocess, check_output=check_output, run=run, Popen=Popen):
        yield


def reads_newline():
    """whether an end of line after the numbers is read as well"""
    from emlearn import mixture
    try:
        with running(lambda args: '0.5,0.25\n'):
            return mixture.predict('a program', numpy.zeros((1, 1)), verbose=0).tolist() == [[0.5, 0.25]]
    except ValueError:
        return False


def samples(n, nf, outs):
    """the arguments of the program are the numbers of the sample, and the lines it prints are the result"""
    def body(v):
        from emlearn import mixture
        x = v.array('x', (n, nf), -1000, 1000)
        y = v.array('y', (n, outs), -1000, 1000)
        runs = []

        def output(args):
            runs.append(list(args))
            return ','.join(v.text(t) for t in y[len(runs) - 1])
        with running(output):
            got = mixture.predict('a program', x, verbose=0)
        v.check(len(runs) == n, 'one run per sample')
        for r, row in zip(runs, x):
            v.check(r[0] == 'a program', 'the program of the model')
            v.check(len(r) == nf + 1, 'one argument per feature')
            for a, t in zip(r[1:], row):
                lo, hi = pysym.denoted(v, a)
                v.check(pysym.And(lo == t, hi == t), 'an argument is exactly the feature')
        v.check(got.shape == (n, outs), 'one row per sample')
        for i in range(n):
            for j in range(outs):
                v.equal(got[i, j], y[i, j], 'the numbers of the program')
        v.reach('run')
    return body


def methods(n, nc):
    """what each method asks for and makes of it"""
    def body(v):
        from emlearn import mixture
        w = mixture.Wrapper.__new__(mixture.Wrapper)
        w.verbose = 0
        y = v.array('y', (n, nc), -1000, 1000)
        s = v.array('s', (n, 1), -1000, 1000)
        asked = []

        def build(wrapper, out_dir, output_type, name='gmm'):
            v.check(wrapper is w, 'the program of this model')
            v.check(os.path.isdir(out_dir), 'in a directory that exists')
            asked.append(output_type)
            return (out_dir, output_type)

        def run(path, x, verbose=1):
            v.check(path[1] == asked[-1] and os.path.isdir(path[0]) and x is X, 'the program that was built, with the samples given')
            return s if path[1] == 'score' else y
        X = object()
        with instead(mixture, build_executable=build, predict=run):
            log_proba, proba, score, classes = w.predict_log_proba(X), w.predict_proba(X), w.score_samples(X), w.predict(X)
        v.check(asked == ['predict_log_proba', 'predict_proba', 'score', 'predict_proba'], 'the output of each method')
        v.check(numpy.shape(score) == (n,), 'one score per sample')
        v.check(len(classes) == n, 'one class per sample')
        for i in range(n):
            v.equal(score[i], s[i, 0], 'score')
            for j in range(nc):
                v.equal(log_proba[i][j], y[i, j], 'log probability')
                v.equal(proba[i][j], y[i, j], 'probability')
                v.check(pysym.Or(pysym.Not(classes[i] == j), pysym.And(*[y[i, k] < y[i, j] if k < j else y[i, k] <= y[i, j] for k in range(nc)])), 'the component with most responsibility, the first of equals')
        v.reach('methods')
    return body


def run(r, tier):
    thorough = tier == 'thorough'
    src = open(os.path.join(core.VERIF, 'harness', 'c45.c')).read()
    src = src.replace('#include "vhprint.h"', open(os.path.join(core.VERIF, 'harness', 'vhprint.h')).read())
    tail = ['TAIL'] if reads_newline() else []
    jobs = []
    models = [('gmm', 'full', 2, 2), ('gmm', 'diag', 1, 1), ('bayes', 'tied', 3, 1), ('gmm', 'diag', 12, 1), ('gmm', 'diag', 1, 12)] + ([('gmm', 'spherical', 3, 2), ('gmm', 'full', 4, 2), ('bayes', 'full', 2, 3)] if thorough else [])
    with warnings.catch_warnings(), numpy.errstate(all="ignore"):
        warnings.simplefilter('ignore')
        for m in models:
            est = fitted(*m, 3)
            for output, n in OUTPUTS.items():
                jobs.append(ll.LLJob('program-%s-%s' % (output, '-'.join(map(str, m))), src, key='program', defines=tail + ['OUTPUT=%d' % n, 'NC=%d' % m[2], 'NF=%d' % m[3]] + (['LO=0.5f', 'HI=0.5001f'] if m[2] > 4 else []), files={'gen.h': program(est, output)}))
    from emlearn import mixture
    tasks = [pysym.Task('samples-%d-%d-%d' % s, samples(*s), modules=[mixture], key='samples') for s in [(1, 1, 1), (2, 2, 3), (3, 1, 2), (0, 2, 1)][:3] + [(5, 20, 9)]]
    tasks += [pysym.Task('methods-%d-%d' % s, methods(*s), modules=[mixture], key='methods') for s in [(1, 1), (2, 2), (1, 3)] + ([(2, 3), (1, 4)] if thorough else [])]
    r.bound('programs for %s fitted models and each output: any sample within +-50 (within 1e-4 for 12 components) and any number of arguments up to one too many; up to 5 samples of 20 features with 9 outputs; up to 2 samples of 3 components' % len(models))
    r.assume('strtod and printf are replaced by stand-ins that hand over and record exact numbers; the digits of %f are those of the C library')
    core.all_of(r, lambda: ll.run_jobs(r, jobs), lambda: pysym.run_tasks(r, tasks))
