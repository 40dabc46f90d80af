"""Size and cost metrics of tree ensembles, for any thresholds, leaf values and data."""
import numpy

from vlib import pysym, stubtrees
from vlib.pysym import And, Ite

LEVEL = 'other'
N = None
ONE, TWO, THREE, LEFT, RIGHT = (N, N), ((N, N), N), ((N, N), (N, N)), (((N, N), N), N), (N, (N, (N, N)))


def inner(shape):
    return 0 if shape is None else 1 + inner(shape[0]) + inner(shape[1])


def sizes(shapes, classes, bits, sizes_given, wrapper):
    def f(v):
        import emlearn
        from emlearn.evaluate import trees as ev
        width = classes or 1
        ts = []
        values = []
        for k, s in enumerate(shapes):
            kw = dict(vlo=0, vhi=1) if classes else {}
            t = stubtrees.tree(v, 't%d' % k, s, [0, 1], width, lo=-30000, hi=30000, **kw)
            for i in range(t.node_count):
                if t.children_left[i] < 0:
                    row = [t.value[i, 0, c] for c in range(width)]
                    if classes:
                        best = 0
                        for c in range(1, classes):
                            best = Ite(And(*[row[c] > row[o] for o in range(c)]), c, best)
                        values.append(best)
                    else:
                        values.append(row[0])
            ts.append(t)
        est = stubtrees.estimator(ts, 2, classes or None, forest=len(ts) > 1)
        kw = {} if bits is None else dict(leaf_bits=bits)
        model = emlearn.convert(est, method='inline', **kw) if wrapper else est
        n_nodes, n_leaves = ev.model_size_nodes(model), ev.model_size_leaves(model)
        expect = sum(max(inner(s), 1) for s in shapes)      # a tree that is a single leaf still takes one node
        v.check(n_nodes == expect, 'decision nodes of the ensemble')
        distinct = 0
        for i, x in enumerate(values):
            distinct = distinct + Ite(And(*[x != y for y in values[:i]]), 1, 0)
        v.check(n_leaves == distinct, 'distinct leaf values')
        if sizes_given:
            b = ev.model_size_bytes(model, node_size=sizes_given[0], leaf_size=sizes_given[1])
            v.check(b == expect * sizes_given[0] + n_leaves * sizes_given[1], 'bytes of nodes and leaves')
            a = v.int('node size', 0, 64)
            c = v.int('leaf size', 0, 64)
            v.check(ev.model_size_bytes(model, None, None, a, c) == expect * a + n_leaves * c, 'bytes of nodes and leaves of any size')
        else:
            leaf = {None: 0 if classes else 4, 0: 0, 8: 1, 32: 4}[bits]
            v.check(ev.model_size_bytes(model) == expect * 8 + n_leaves * leaf, 'bytes of nodes and leaves')
        v.check(ev.count_trees(est) == len(shapes), 'number of trees')
        v.reach('sizes')
    return f


def leaf_bytes(classes):
    """leaves take whole bytes, whatever the number of bits"""
    def f(v):
        import emlearn
        from emlearn.evaluate import trees as ev
        kw = dict(vlo=0, vhi=1) if classes else {}
        ts = [stubtrees.tree(v, 't%d' % k, s, [0, 1], classes or 1, lo=-30000, hi=30000, **kw) for k, s in enumerate([ONE, N])]
        model = emlearn.convert(stubtrees.estimator(ts, 2, classes or None, forest=True), method='inline')
        bits = v.int('bits', 0, 32)
        model.leaf_bits = bits
        need = 0
        for k in range(5):
            need = need + Ite(bits > 8 * k, 1, 0) if k < 4 else need
        n = ev.model_size_nodes(model) * 8
        v.check(ev.model_size_bytes(model) == n + ev.model_size_leaves(model) * need, 'bytes of a leaf of any number of bits')
        v.reach('bits')
    return f


def large(forest):
    """a large ensemble that was fitted, and any number of leaf bits"""
    def f(v):
        import emlearn
        from emlearn.evaluate import trees as ev
        est = fitted(forest)
        trees = est.estimators_ if forest else [est]
        model = emlearn.convert(est, method='inline')
        nodes = sum(t.tree_.node_count - t.tree_.n_leaves for t in trees)
        leaves = len(set(float(x) for t in trees for x in t.tree_.value[t.tree_.children_left < 0].flatten()))
        v.check(nodes > 1000 and leaves > 1000, 'large')
        v.check(ev.model_size_nodes(model) == nodes, 'decision nodes of the ensemble')
        v.check(ev.model_size_leaves(model) == leaves, 'distinct leaf values')
        bits = v.int('bits', 0, 32)
        model.leaf_bits = bits
        need = 0
        for k in range(4):
            need = need + Ite(bits > 8 * k, 1, 0)
        v.check(ev.model_size_bytes(model) == nodes * 8 + leaves * need, 'bytes of a leaf of any number of bits')
        a = v.int('node size', 0, 64)
        v.check(ev.model_size_bytes(model, node_size=a, leaf_size=5) == nodes * a + leaves * 5, 'bytes of nodes of any size')
        v.reach('large')
    return f


def fitted(forest):
    from sklearn.ensemble import RandomForestRegressor
    from sklearn.tree import DecisionTreeRegressor
    rng = numpy.random.RandomState(3)
    X = numpy.arange(1300).reshape(-1, 1)
    y = rng.permutation(1300)
    est = RandomForestRegressor(n_estimators=2, random_state=1) if forest else DecisionTreeRegressor(random_state=1)
    return est.fit(X, y)


def depths(n):
    def f(v):
        from emlearn.evaluate import trees as ev
        d = [v.int('depth%d' % i, 0, 1000) for i in range(n)]
        ts = [stubtrees.make('Tree', max_depth=x) for x in d]
        est = stubtrees.estimator(ts, 2, None, forest=n > 1)
        v.equal(ev.tree_depth_average(est) * n, sum(d[1:], d[0]), 'average depth')
        low, high = d[0], d[0]
        for x in d[1:]:
            low, high = Ite(x < low, x, low), Ite(x > high, x, high)
        v.check(ev.tree_depth_difference(est) == high - low, 'difference in depth')
        v.check(ev.count_trees(est) == n, 'number of trees')
        v.reach('depths')
    return f


class Path(numpy.ndarray):
    """the matrix that decision_path gives: samples by nodes"""

    def toarray(self):
        return self

    def todense(self):
        return self

    def getnnz(self, axis=None):
        return numpy.asarray(self).sum(axis=axis)


def cost(shapes, samples):
    def f(v):
        from emlearn.evaluate import trees as ev
        nf = 2
        X = [[v.real('x%d.%d' % (i, j), -40000, 40000) for j in range(nf)] for i in range(samples)]
        ts = [stubtrees.tree(v, 't%d' % k, s, [0, 1], 1, lo=-30000, hi=30000) for k, s in enumerate(shapes)]
        est = stubtrees.estimator(ts, nf, None, forest=len(ts) > 1)
        es = est.estimators_ if len(ts) > 1 else [est]

        def path_of(t):
            def decision_path(data):
                m = numpy.zeros((samples, t.node_count), dtype=object)
                for s in range(samples):
                    def go(i, cond):
                        m[s, i] = cond
                        if t.children_left[i] >= 0:
                            c = Ite(data[s][t.feature[i]] <= t.threshold[i], 1, 0)
                            go(t.children_left[i], Ite(And(cond == 1, c == 1), 1, 0))
                            go(t.children_right[i], Ite(And(cond == 1, c == 0), 1, 0))
                    go(0, 1)
                return (m.view(pysym.SArr) if v.symbolic else m.astype(int)).view(Path)
            return decision_path
        for e in es:
            e.decision_path = path_of(e.tree_)
        got = ev.compute_cost_estimate(est, X)

        def depth(t, x):
            def go(i):
                if t.children_left[i] < 0:
                    return 1
                return 1 + Ite(x[t.feature[i]] <= t.threshold[i], go(t.children_left[i]), go(t.children_right[i]))
            return go(0)
        total = 0
        for t in ts:
            for x in X:
                total = total + depth(t, x)
        v.equal(got * samples, total, 'mean number of nodes evaluated, summed over the trees')
        v.reach('cost')
    return f


def run(r, tier):
    thorough = tier == 'thorough'
    from emlearn import cgen, trees
    from emlearn.evaluate import trees as ev
    mods = [trees, cgen, ev]
    tasks = []
    cases = [('regressor', [ONE, ONE], 0, None, None, True), ('regressor-leaf', [N, TWO], 0, None, (8, 4), False), ('regressor-32', [THREE], 0, 32, None, False),
             ('hard', [ONE, ONE], 2, None, None, True), ('hard-0', [TWO], 3, 0, (6, 1), False), ('one', [N], 0, None, None, True), ('forest', [ONE, N, ONE], 0, None, (7, 3), True)]
    if thorough:
        cases += [('hard-three', [TWO, TWO], 2, None, None, True), ('regressor-five', [THREE, N], 0, None, (8, 2), True)]
    for name, *a in cases:
        tasks.append(pysym.Task('size-' + name, sizes(*a), modules=mods, key='size', time_limit=3000 if thorough else 200))
    for name, shapes, samples in [('one', [ONE], 1), ('two', [TWO, ONE], 2), ('three', [THREE, N, RIGHT], 2), ('single', [LEFT], 3)] + ([('deep', [(LEFT, RIGHT), THREE], 3)] if thorough else []):
        tasks.append(pysym.Task('cost-' + name, cost(shapes, samples), modules=mods, key='cost', time_limit=3000 if thorough else 200))
    tasks += [pysym.Task('leaf-bits-%d' % c, leaf_bytes(c), modules=mods, key='size') for c in (0, 2)]
    tasks += [pysym.Task('large-%d' % c, large(c), modules=mods, key='size') for c in (0, 1)]
    tasks += [pysym.Task('depth-%d' % n, depths(n), modules=mods, key='depth') for n in (1, 2, 3)]
    r.bound('sizes: %d ensembles of up to 3 trees and 4 leaves each with any thresholds and leaf values; node and leaf sizes up to 64; two fitted ensembles of more than 1000 nodes with any number of leaf bits' % len(cases))
    r.bound('cost: up to 3 trees, 4 nodes and 3 samples, any thresholds and data within +-40000')
    r.assume('decision_path of scikit-learn is replaced by its definition')
    pysym.run_tasks(r, tasks)
