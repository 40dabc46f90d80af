"""Naive Bayes: generated models on any sample, any model (safety), and the generated parameters."""
import math
import os
import re

import numpy

from vlib import core, ll, pysym

LEVEL = 'other'


class Estimator:
    """what the converter uses of a fitted GaussianNB"""

    def __init__(self, theta, var, old=False):
        self.theta_ = theta
        setattr(self, 'sigma_' if old else 'var_', var)


def converted(theta, var, old=False):
    from emlearn import bayes, common
    keep = common.CompiledClassifier
    common.CompiledClassifier = lambda *a, **k: None
    try:
        return bayes.Wrapper(Estimator(theta, var, old), None)
    finally:
        common.CompiledClassifier = keep


def generated(mean, std, lo, hi, sample=None, free=0):
    mean, std = numpy.array(mean, dtype=float), numpy.array(std, dtype=float)
    code = converted(numpy.asfortranarray(mean), numpy.asfortranarray(std**2)).save(name='nb')
    ref = ','.join('{%s}' % ','.join('{%r,%r,%r,%r}' % (float(m), 1.0 / float(s), math.log2(float(s)), float(s)) for m, s in zip(a, b)) for a, b in zip(mean, std))
    nc, nf = mean.shape
    if sample is not None:
        code += '\n#define FREE %d\nstatic const float SAMPLE[] = {%s};\n' % (free, ','.join(repr(float(x)) for x in sample))
    return code + '\n#define NC %d\n#define NF %d\n#define LO (%r)\n#define HI (%r)\nstatic const double REF[NC][NF][4] = {%s};\n' % (nc, nf, float(lo), float(hi), ref)


MODELS = {
    'two': ([[0.0], [3.0]], [[1.0], [1.0]], -50, 50),
    'wide': ([[-2.5], [1.25]], [[0.5], [8.0]], -60, 60),
    'three': ([[0.0], [4.0], [-3.0]], [[1.0], [2.0], [0.25]], -20, 20),
    'same': ([[1.0], [1.0], [5.0]], [[2.0], [2.0], [1.0]], -20, 20),
    'twelve': ([[float(-30 + 3 * i)] for i in range(12)], [[1.0]] * 12, -1, 9),
    'pair': ([[0.0, 2.0], [3.0, -1.0]], [[1.0, 0.5], [1.0, 2.0]], -8, -1.1),
    'large': ([[-8000.0], [9000.0]], [[500.0], [1000.0]], -16000, 16000),
}

HI = 0.0001     # the sample value is any that is at most some Q16 steps above 0, so that the comparisons stay decidable


def large():
    """models with more than 255 classes, features or summaries: (mean, std, range, sample, the feature that may have any value)"""
    r = numpy.random.RandomState(3)
    out = {}
    for name, nc, nf, free in (('features', 2, 300, 299), ('summaries', 6, 60, 20)):
        mean, std = r.randint(-32, 33, (nc, nf)) / 8.0, r.randint(4, 17, (nc, nf)) / 8.0
        mean[:, free], std[:, free] = 0.5, 1.0
        out['many-' + name] = (mean, std, 0, HI, mean[-1] + 0.125, free)
    grid = [[3.0 * (i // 17), 3.0 * (i % 17), 1.0] for i in range(272)]
    out['many-classes'] = (grid, [[1.0, 1.0, 2.0]] * 272, 0, HI, [45.25, 48.25, 0.0], 2)
    return out


MORE = {
    'six': ([[float(i * i)] for i in range(6)], [[1.0 + i / 2] for i in range(6)], -10, 40),
    'twelve-all': ([[float(3 * i)] for i in range(12)], [[1.0]] * 12, -10, 50),
    'pair-all': ([[0.0, 2.0], [3.0, -1.0]], [[1.0, 0.5], [1.0, 2.0]], -8, 8),
    'pair3': ([[0.0, 2.0], [3.0, -1.0], [1.0, 1.0]], [[1.0, 0.5], [1.0, 2.0], [4.0, 0.25]], -6, 6),
    'triple': ([[0.0, 2.0, 1.0], [3.0, -1.0, 0.0]], [[1.0, 0.5, 1.0], [1.0, 2.0, 2.0]], -5, 5),
    'narrow': ([[0.0], [1.0]], [[0.03125], [0.0625]], -20, 20),
    'twenty': ([[float(3 * i)] for i in range(20)], [[1.0 + i % 3] for i in range(20)], -10, 70),
}


def generator(nc, nf, old):
    def f(v):
        from emlearn import bayes
        theta = v.array('theta', (nc, nf))
        var = v.array('var', (nc, nf), 1, 10000)
        w = converted(theta, var, old)
        code = w.save(name='nb')
        numbers = re.findall(r'EML_Q16_FROMFLOAT\(([^()]*)\)', code)
        v.check(len(numbers) == nc * nf * 3, 'three parameters for every class and feature')
        for c in range(nc):
            for i in range(nf):
                mean, std, log = (pysym.denoted(v, t)[0] for t in numbers[3 * (c * nf + i):3 * (c * nf + i) + 3])
                v.equal(mean, theta[c, i], 'mean')
                if v.symbolic:
                    v.check(std * std == var[c, i], 'standard deviation')
                    v.check(std > 0, 'standard deviation')
                    v.equal(log, pysym.CUR.uf('log2', std), 'log2 of the standard deviation')
                else:
                    v.check(abs(float(std)**2 - var[c, i]) <= 1e-9 * var[c, i], 'standard deviation')
                    v.check(abs(float(log) - math.log2(var[c, i]) / 2) <= 1e-9, 'log2 of the standard deviation')
        m = re.search(r'nb_model\s*=\s*\{\s*(\d+),\s*(\d+),', code)
        v.check(bool(m) and int(m.group(1)) == nc and int(m.group(2)) == nf, 'number of classes and features')
        v.reach('generated')
    return f


def run(r, tier):
    from emlearn import bayes
    thorough = tier == 'thorough'
    src = open(os.path.join(core.VERIF, 'harness', 'c12.c')).read()
    models = dict(MODELS, **large(), **(MORE if thorough else {}))
    jobs = [ll.LLJob('model-' + n, src, key='model', defines=['MODE=1'], files={'gen.h': generated(*m)}, time_limit=1500 if thorough else 300) for n, m in models.items()]
    sizes = [(2, 1), (16, 1)] + ([(3, 2)] if thorough else [])
    jobs += [ll.LLJob('any-%d-%d' % s, src, key='any', defines=['MODE=2', 'NC=%d' % s[0], 'NF=%d' % s[1]]) for s in sizes]
    jobs.append(ll.LLJob('refused', src, key='refused', defines=['MODE=3']))
    jobs.append(ll.LLJob('nearest', src, key='nearest', defines=['MODE=4']))
    tasks = [pysym.Task('parameters-%d-%d%s' % (c, f, '-old' if o else ''), generator(c, f, o), modules=[bayes]) for c, f, o in ((2, 1, False), (2, 2, False), (3, 2, False), (2, 2, True))]
    r.bound('generated models: %s (classes, features: %s), any sample in the range of the model (many-*: a given sample, but for one feature from 0 to 1e-4); a class loses only by less than 2.5 percent of the squared scores' % (
        sorted(models), sorted({numpy.array(m[0]).shape for m in models.values()})))
    r.bound('safety: any model of %s classes x features (classes alike), samples within 16384, standard scores below 32766' % sizes)
    r.bound('nearest mean: two classes, any mean 1 to 100 apart, any sample within 100')
    r.bound('generated parameters: up to 3 classes x 2 features, any means and variances')
    r.assume('log2 of the deviation is an uninterpreted function in the generator tasks; sample values are exact reals')
    core.all_of(r, lambda: ll.run_jobs(r, jobs), lambda: pysym.run_tasks(r, tasks))
