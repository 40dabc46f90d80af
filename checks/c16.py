"""Mahalanobis distance and elliptic envelope: the C code, generated C code and the Python code."""
import os
from fractions import Fraction

import numpy

from vlib import core, ll, pysym
from vlib.pysym import And, Implies

LEVEL = 'other'


class Estimator:
    """what the converter uses of a fitted EllipticEnvelope"""

    def __init__(self, means, precision, offset):
        self.location_, self._p, self.offset_ = means, precision, offset

    def get_precision(self):
        return self._p


def converted(means, precision, offset, compiled=None):
    """the real converter, with a stand-in for the compiled program"""
    from emlearn import common, distance
    keep = common.CompiledClassifier
    common.CompiledClassifier = lambda *a, **k: compiled
    try:
        return distance.Wrapper(Estimator(means, precision, offset))
    finally:
        common.CompiledClassifier = keep


def generated(n, seed):
    """code of a converted estimator with numbers that six decimals show exactly"""
    rng = numpy.random.RandomState(seed)
    m = rng.randint(-640, 640, n) / 64.0
    a = rng.randint(-32, 32, (n, n)) / 32.0
    p = (a + a.T) / 2 + numpy.diag(rng.randint(64, 256, n) / 64.0)
    off = -float(rng.randint(1, 4000)) / 64
    code = converted(m, p, off).save(name='env')
    gen = code + '\n#define GEN(x) env_ ## x\nstatic const double REF_MEANS[] = {%s};\nstatic const double REF_PRECISION[%d][%d] = {%s};\n#define REF_OFFSET %r\n' % (
        ','.join(repr(float(i)) for i in m), n, n, ','.join('{%s}' % ','.join(repr(float(i)) for i in row) for row in p), off)
    return gen


def distance_body(n):
    def f(v):
        from emlearn import distance
        a, b, p = v.array('a', (n,)), v.array('b', (n,)), v.array('p', (n, n))
        v.given.pop()
        for i in range(n):
            for j in range(i):
                p[i, j] = p[j, i]
        v.given.append((p, p.copy()))
        got = distance.squared_mahalanobis_distance(a, b, p)
        want = 0
        for i in range(n):
            for j in range(n):
                want = want + (a[i] - b[i]) * p[i, j] * (a[j] - b[j])
        v.equal(got, want, 'squared Mahalanobis distance')
        v.reach('distance')
    return f


class Stub:
    """stands for the compiled C code: one distance per row, in order"""

    def __init__(self, d):
        self.d = list(d)

    def predict(self, X):
        if len(X) != len(self.d):
            raise AssertionError('all rows are passed to the C code')
        return list(self.d)


def decision_body(rows):
    def f(v):
        d = [v.real('d%d' % i) for i in range(rows)]
        off = v.real('offset')
        x = numpy.zeros((rows, 2))
        w = converted(numpy.zeros(2), numpy.eye(2), off, Stub(d))
        got = w.predict(x)
        dist = w.mahalanobis(x)
        score = w.score_samples(x)
        v.check(len(got) == rows, 'one decision per row')
        for i in range(rows):
            outlier = -d[i] < off
            v.check(Implies(outlier, got[i] == -1), 'outlier when the negated distance is below the boundary')
            v.check(Implies(pysym.Not(outlier), got[i] == 1), 'inlier otherwise')
            v.equal(dist[i], d[i], 'distance of the row')
            v.equal(score[i], -d[i], 'score is the negated distance')
        v.reach('decision')
    return f


def run(r, tier):
    from emlearn import distance
    thorough = tier == 'thorough'
    src = open(os.path.join(core.VERIF, 'harness', 'c16.c')).read()
    sizes = list(range(1, 9)) if thorough else list(range(1, 5))
    jobs = [ll.LLJob('C-%d' % n, src, key='C', defines=['MODE=1', 'N=%d' % n]) for n in sizes]
    for n in sizes:
        for seed in range(3 if thorough else 1):
            jobs.append(ll.LLJob('generated-%d-%d' % (n, seed), src, key='generated', defines=['MODE=2', 'N=%d' % n], files={'gen.h': generated(n, 10 * n + seed)}))
    tasks = [pysym.Task('distance-%d' % n, distance_body(n), modules=[distance], unchanged=True) for n in sizes[:4]]
    tasks += [pysym.Task('decision-%d' % k, decision_body(k), modules=[distance], unchanged=True) for k in (1, 2)]
    r.bound('C: feature counts %s, any real features, means, symmetric precision, boundary; generated code: one model per size and seed, any features within 100' % sizes)
    r.bound('Python: %s features; decisions for any distances and offset, 1 and 2 rows' % sizes[:4])
    r.assume('exact real arithmetic: single precision rounding is outside the encoding')
    r.assume('the compiled code behind the Python object is replaced by symbolic distances (see C39)')
    core.all_of(r, lambda: ll.run_jobs(r, jobs), lambda: pysym.run_tasks(r, tasks))
