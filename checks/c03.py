"""Tree regression: generated C against the mean of the leaf values, for every feature vector."""
import random

import numpy

from vlib import ll, trees
from vlib.trees import Model, leaf, node

LEVEL = 'other'


def models(seed, tier):
    rng = random.Random(seed + 200)

    def value(scale):
        def f():
            c = rng.random()
            if c < 0.2:
                return leaf(float(rng.choice([0.0, -0.0, 1.0, -1.0, scale, -scale])))
            if c < 0.6:
                return leaf(rng.uniform(-scale, scale))
            return leaf(float(rng.randint(-9, 9)) * 0.5)
        return f
    out = []

    def rand(name, nt, depth, nf, dt, scale, order='dfs', kind=None):
        thr = trees.thr_maker(rng, dt)
        out.append((Model(name, [trees.rand_tree(rng, depth, list(range(nf)), thr, value(scale), 0.1) for _ in range(nt)], nf, order=order, kind=kind), dt))
    rand('single', 1, 3, 2, 'int16_t', 10.0)
    rand('forest', 3, 2, 2, 'int16_t', 100.0, 'bfs')
    rand('extra', 2, 2, 3, 'int16_t', 1.0, kind='extra')
    rand('tiny', 2, 2, 2, 'int16_t', 1e-3)
    rand('huge', 2, 2, 2, 'int16_t', 1e6)
    rand('float', 2, 2, 2, 'float', 30.0)
    rand('double', 2, 2, 2, 'double', 30.0)
    rand('u8', 2, 2, 2, 'uint8_t', 30.0)
    rand('i32', 2, 2, 2, 'int32_t', 30.0)
    rand('many', 50, 3, 3, 'int16_t', 1000.0)
    # many distinct leaves
    out.append((Model('chain', [trees.chain(300, 0, lambda i: i * 7 - 1100 + 0.5, value(500.0)), trees.chain(60, 0, lambda i: i * 30 - 1100 + 0.5, value(500.0), right=False)], 1), 'int16_t'))
    out.append((Model('leafonly', [leaf(3.25), leaf(-1.5), node(0, 3.5, leaf(2.0), leaf(3.25))], 1), 'int16_t'))
    out.append((Model('onlyleaf', [leaf(-7.125)], 1), 'int16_t'))
    # leaf values close together, at several magnitudes
    for k, vals in enumerate([[1000.0 + i for i in range(30)], [5000.0 + i * 0.01 for i in range(30)], [-0.5 - i * 1e-5 for i in range(30)], [i * 2e-6 for i in range(-15, 15)],
                              [float(numpy.float32(250.0) + i * numpy.float32(2.0**-16)) for i in range(30)]]):
        rng.shuffle(vals)
        vs = iter(vals + vals)
        out.append((Model('near%d' % k, [trees.chain(29, 0, lambda i: i * 7 - 100.5, lambda: leaf(next(vs)))], 1), 'int16_t'))
    # jumps and leaf numbers beyond a byte, to the right and to the left
    far = [trees.chain(280, 0, lambda i: 1100 - i * 7 + 0.5, value(500.0), right=False), trees.chain(150, 0, lambda i: 900 - i * 11 + 0.5, value(500.0), right=False)]
    for order in ('dfs', 'bfs'):
        out.append((Model('far-' + order, [node(1, 0.5, far[0], node(1, 5.0, far[1], node(0, 5.0, leaf(2.0), leaf(-3.5))))], 2, order=order), 'int16_t'))
    # more trees than fit in a byte
    out.append((Model('trees260', [node(i % 2, float(i % 7) - 3.5, leaf(float(i)), leaf(float(-i % 11))) if i % 5 else leaf(2.5) for i in range(260)], 2), 'int16_t'))
    if tier == 'thorough':
        for k in range(40):
            rand('rand%d' % k, rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3), rng.choice(['int16_t', 'int16_t', 'int8_t', 'uint16_t', 'int32_t', 'uint32_t', 'float']),
                 10.0 ** rng.randint(-3, 6), rng.choice(['dfs', 'bfs']))
    return rng, out


BODY = '''
    const double got = model_predict(x, REF_FEATURES);
    double expect = 0.0;
    for (int t = 0; t < REF_TREES; t++) { expect += ref_value[ref_leaf(t, x)]; }
    VCLOSE(got, expect / REF_TREES, TOL, "mean of the leaf values");
'''


def run(r, tier):
    rng, ms = models(r.seed, tier)
    jobs = []
    for m, dt in ms:
        est = m.estimator()
        th = m.thresholds()
        nt = len(m.trees)
        top = max(abs(v[0]) for a in m.trees for v in a[4])
        for method in ('inline', 'loadable'):
            if method == 'loadable' and dt != 'int16_t':
                continue
            code = trees.convert(est, method, dt).save(name='model')
            tol = (nt + 3) * top * 2.0**-23 + (6e-7 if method == 'inline' else 0)
            small = sum(len(a[0]) for a in m.trees) < 60
            for s in ([set(range(m.n_features))] if small or m.n_features == 1 else [{f} for f in range(m.n_features)]):
                base = [int(rng.choice(sorted(th.get(f, {0.0})))) + rng.randint(0, 1) for f in range(m.n_features)]
                jobs.append(ll.LLJob('%s-%s-%s' % (m.name, method, 'all' if len(s) == m.n_features else 'f%d' % min(s)),
                                     trees.source(m, code, dt, s, base, BODY, '#define TOL %r\n' % tol), key='%s-%s' % (m.name, method), time_limit=300 if tier == 'quick' else 1500))
    r.bound('%d ensembles of 1..260 trees, up to 300 distinct leaves in a tree, leaf values up to 1e6 in magnitude, inline and loadable, int8..uint32, float and double features' % len(ms))
    r.bound('feature vectors: every value of every feature for ensembles below 60 nodes, every value of one feature at a time for the larger')
    r.assume('single precision tolerance (trees+3) * 2^-23 * largest leaf; ensembles are examples, converted by the real emlearn.convert')
    r.bound('tables with node numbers up to 39999, jumps up to 30000 and leaf numbers up to 32767')
    ll.run_jobs(r, jobs + trees.wide_jobs([1]))
