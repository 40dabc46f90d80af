"""Tree classifiers: generated C against the definition of the ensemble, for every feature vector."""
import random

from vlib import ll, trees
from vlib.trees import Model, leaf, node

LEVEL = 'other'


def hard_leaf(rng, nc):
    def f():
        c = rng.randrange(nc)
        if rng.random() < 0.3:      # a mixed leaf, possibly with a tie for the most probable class
            d = rng.randrange(nc)
            v = [0.0] * nc
            v[c] += 0.5
            v[d] += 0.5
            return leaf(*v)
        v = [0.0] * nc
        v[c] = 1.0
        return leaf(*v)
    return f


def models(seed, tier):
    """(model, dtype, methods, symbolic feature sets)"""
    rng = random.Random(seed)
    out = []
    # small ensembles, every feature symbolic
    for k, (nt, depth, nf, nc, dt) in enumerate([
            (1, 3, 2, 2, 'int16_t'), (2, 2, 2, 3, 'int16_t'), (3, 2, 3, 3, 'int16_t'), (4, 2, 2, 4, 'int16_t'),
            (3, 2, 2, 2, 'int8_t'), (3, 2, 2, 3, 'uint8_t'), (3, 2, 2, 3, 'uint16_t'), (3, 2, 2, 3, 'int32_t'), (3, 2, 2, 3, 'uint32_t'), (3, 2, 3, 3, 'float'), (3, 2, 2, 3, 'double')]):
        thr = trees.thr_maker(rng, dt)
        specs = [trees.rand_tree(rng, depth, list(range(nf)), thr, hard_leaf(rng, nc), 0.1) for _ in range(nt)]
        m = Model('small%d-%s' % (k, dt), specs, nf, nc, order='dfs' if k % 2 else 'bfs', kind='extra' if k == 3 else None)
        out.append((m, dt, [set(range(nf))]))
    # thresholds close together and equal between trees: ties
    thr = trees.thr_maker(rng, 'int16_t', dense=True)
    out.append((Model('dense', [trees.rand_tree(rng, 3, [0, 1], thr, hard_leaf(rng, 3), 0.05) for _ in range(4)], 2, 3), 'int16_t', [{0, 1}]))
    # single leaf trees, alone and inside a forest
    out.append((Model('leafonly', [leaf(0.0, 0.25, 0.75)], 2, 3), 'int16_t', [{0, 1}]))
    out.append((Model('leafmixed', [leaf(0.0, 1.0, 0.0), node(1, 3.5, leaf(1.0, 0, 0), leaf(0, 0, 1.0)), leaf(0.0, 0.0, 1.0)], 2, 3), 'int16_t', [{0, 1}]))
    # more classes than fit in a byte of bits, feature number at the limit
    nc = 30
    thr = trees.thr_maker(rng, 'int16_t')
    out.append((Model('classes30', [trees.rand_tree(rng, 4, [0, 126], thr, hard_leaf(rng, nc), 0.05) for _ in range(3)], 127, nc), 'int16_t', [{126}, {0}]))
    # many trees
    nt = 60 if tier == 'quick' else 300
    out.append((Model('many', [trees.rand_tree(rng, 4, list(range(4)), thr, hard_leaf(rng, 5), 0.1) for _ in range(nt)], 4, 5), 'int16_t', [{0}, {3}]))
    # deep and far apart nodes: jumps beyond 127, 255 and leaves beyond 127
    i16 = lambda i: i * 7 - 1100 + 0.5
    out.append((Model('chain-right', [trees.chain(300, 0, i16, hard_leaf(rng, 4))], 1, 4), 'int16_t', [{0}]))
    left = trees.chain(280, 0, lambda i: 1100 - i * 7 + 0.5, hard_leaf(rng, 4), right=False)
    out.append((Model('far-right', [node(1, 0.5, left, node(0, 5.0, leaf(1, 0, 0, 0), leaf(0, 0, 0, 1)))], 2, 4), 'int16_t', [{0, 1}]))
    # votes above 255 and 127 for a class
    out.append((Model('votes300', [leaf(0, 1.0)] * 260 + [node(0, float(i % 5), leaf(1.0, 0), leaf(0, 1.0)) for i in range(300)], 1, 2), 'int16_t', [{0}]))
    out.append((Model('trees260', [node(i % 2, float(i % 7) - 3.5, leaf(1.0, 0, 0), leaf(0, 1.0, 0)) if i % 5 else leaf(0, 0, 1.0) for i in range(260)], 2, 3), 'int16_t', [{0}, {1}]))
    # neighbouring large class numbers (the loadable format is for few classes)
    one = lambda c, nc: leaf(*[float(i == c) for i in range(nc)])
    out.append((Model('classes130', [trees.chain(24, 0, lambda i: i * 7 - 80.5, lambda c=iter(list(range(104, 130)) + [1, 2, 3]): one(next(c), 130))], 1, 130), 'int16_t', [{0}], ('inline',)))
    out.append((Model('classes300', [trees.chain(24, 0, lambda i: i * 7 - 80.5, lambda c=iter(list(range(275, 300))): one(next(c), 300)),
                                     node(0, 3.5, one(255, 300), one(256, 300)), node(0, 40.5, one(256, 300), one(257, 300))], 1, 300), 'float', [{0}], ('inline',)))
    if tier == 'thorough':
        for k in range(40):
            dt = rng.choice(['int16_t', 'int16_t', 'int8_t', 'uint8_t', 'uint16_t', 'int32_t', 'uint32_t', 'float'])
            nf, nc, nt = rng.randint(1, 4), rng.randint(2, 6), rng.randint(1, 4)
            thr = trees.thr_maker(rng, dt, dense=rng.random() < 0.3)
            m = Model('rand%d-%s' % (k, dt), [trees.rand_tree(rng, rng.randint(1, 3), list(range(nf)), thr, hard_leaf(rng, nc)) for _ in range(nt)], nf, nc,
                      order=rng.choice(['dfs', 'bfs']))
            out.append((m, dt, [set(range(nf))]))
        for k in range(8):
            nf, nc = rng.randint(2, 12), rng.randint(2, 30)
            thr = trees.thr_maker(rng, 'int16_t')
            m = Model('big%d' % k, [trees.rand_tree(rng, 8, list(range(nf)), thr, hard_leaf(rng, nc), 0.05) for _ in range(20)], nf, nc)
            out.append((m, 'int16_t', [{f} for f in range(nf)]))
    return rng, out


def jobs_for(rng, m, dt, syms, time_limit=300, methods=('inline', 'loadable')):
    est = m.estimator()
    th = m.thresholds()
    jobs = []
    for method in methods:
        if method == 'loadable' and dt != 'int16_t':
            continue
        code = trees.convert(est, method, dt).save(name='model', include_proba=False)
        for s in syms:
            base = []
            for f in range(m.n_features):
                t = sorted(th.get(f, {0.0}))
                base.append(int(rng.choice(t)) + rng.randint(0, 1))
            body = trees.VOTE % dict(nc=m.n_classes) + '''
    VASSERT(model_predict(x, REF_FEATURES) == best, "class with the most votes, lowest on ties");
'''
            jobs.append(ll.LLJob('%s-%s-%s' % (m.name, method, 'all' if len(s) == m.n_features else 'f%d' % min(s)),
                                 trees.source(m, code, dt, s, base, body), key='%s-%s' % (m.name, method), time_limit=time_limit))
    return jobs


def run(r, tier):
    rng, ms = models(r.seed, tier)
    jobs = []
    for m, dt, syms, *methods in ms:
        jobs += jobs_for(rng, m, dt, syms, 300 if tier == 'quick' else 1500, *methods)
    r.bound('%d ensembles (1..560 trees, up to 300 nodes in a chain, 2..300 classes, 1..127 features, int8..uint32, float and double features), inline and loadable' % len(ms))
    r.bound('feature vectors: every value of every feature for the small ensembles, every value of one feature at a time for the large ones')
    r.assume('float features are not NaN; the ensembles are examples of what scikit-learn can produce, installed in scikit-learn estimators and converted by the real emlearn.convert')
    r.bound('tables with node numbers up to 39999, jumps up to 30000 and leaf numbers up to 32767')
    ll.run_jobs(r, jobs + trees.wide_jobs([0]))
