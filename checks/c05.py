"""Limits of the C representation of trees: the real generators on symbolic numbers."""
import re

from vlib import pysym, stubtrees
from vlib.pysym import And, Implies, Not, Or
from vlib.trees import DTYPES

LEVEL = 'other'
LIMIT = 2**40
REFUSALS = (ValueError, AssertionError, OverflowError)
NODE = re.compile(r'\{\s*([^{},]+),\s*([^{},]+),\s*([^{},]+),\s*([^{},]+)\}')
STRUCT = re.compile(r'EmlTrees\s+\w+\s*=\s*\{([^}]*)\}')


def fits(x, dtype):
    lo, hi = DTYPES[dtype]
    return And(x >= lo, x <= hi)


def one(v, text):
    lo, hi = pysym.denoted(v, text)
    return lo


def floor(v, t):
    import math
    return pysym._floor(t) if v.symbolic else math.floor(t)


def child(v):
    from emlearn import trees
    index, c = v.int('index', 0, LIMIT), v.int('child', -LIMIT, LIMIT)
    v.assume(Or(c < 0, c > index))
    expect = pysym.Ite(c < 0, c, c - index) if v.symbolic else (c if c < 0 else c - index)
    try:
        e = trees.encode_child(index, c)
    except REFUSALS:
        v.check(Not(fits(expect, 'int16_t')), 'a child reference that fits is accepted')
        v.reach('refused')
        return
    v.check(fits(e, 'int16_t'), 'a child reference that does not fit is refused')
    v.check(e == expect, 'relative jump, or leaf')
    v.reach('accepted')


def threshold(dtype):
    def f(v):
        from emlearn import trees
        t = v.real('threshold', -LIMIT, LIMIT)
        value = floor(v, t) + 1
        try:
            got = trees.integer_threshold(t, dtype)
        except REFUSALS:
            v.check(Not(fits(value, dtype)), 'a threshold that fits is accepted')
            v.reach('refused')
            return
        v.check(fits(got, dtype), 'a threshold that does not fit is refused')
        x = v.int('x', *DTYPES[dtype])
        v.check((x < got) == (x <= t), 'x < value exactly when x <= threshold')
        v.reach('accepted')
    return f


def nodes_of(code, name):
    m = re.search(r'EmlTreesNode\s+%s_nodes\[(\d+)\]\s*=\s*\{(.*?)\};' % name, code, re.S)
    return int(m.group(1)), NODE.findall(m.group(2))


def generator(v):
    """the loadable format from a flattened ensemble with any child references, thresholds and numbers"""
    from emlearn import trees
    n = 2
    nodes, want = [], []
    for i in range(n):
        feature = v.int('feature%d' % i, 0, LIMIT)
        t = v.real('threshold%d' % i, -LIMIT, LIMIT)
        left, right = v.int('left%d' % i, -LIMIT, LIMIT), v.int('right%d' % i, -LIMIT, LIMIT)
        if i == 0:
            v.assume(Or(left < 0, left > i))
            v.assume(right < 0)
        else:
            v.assume(And(left < 0, Or(right < 0, right > i)))
        nodes.append([feature, t, left, right])
        want.append((feature, t, left, right))
    n_features, n_classes = v.int('n_features', 1, LIMIT), v.int('n_classes', 1, LIMIT)
    for w in want:
        v.assume(w[0] < n_features)
    rel = lambda i, c: pysym.Ite(c < 0, c, c - i) if v.symbolic else (c if c < 0 else c - i)
    ok = And(n_features <= 127, n_classes <= 127, *[And(fits(rel(i, w[2]), 'int16_t'), fits(rel(i, w[3]), 'int16_t'), fits(floor(v, w[1]) + 1, 'int16_t')) for i, w in enumerate(want)])
    try:
        code = trees.generate_c_loadable((nodes, [0], [1, 0]), 'm', n_features, dtype='int16_t', n_classes=n_classes)
    except REFUSALS:
        v.check(Not(ok), 'a model that fits is accepted')
        v.reach('refused')
        return
    count, parsed = nodes_of(code, 'm')
    v.check(count == n and len(parsed) == n, 'all the nodes')
    for i, (p, w) in enumerate(zip(parsed, want)):
        f, t, l, r = [one(v, x) for x in p]
        v.check(fits(f, 'int8_t'), 'node: feature number fits')
        v.check(f == w[0], 'node: the feature number')
        v.check(fits(t, 'int16_t'), 'node: threshold fits')
        v.check(t == floor(v, w[1]) + 1, 'node: the threshold')
        v.check(And(fits(l, 'int16_t'), fits(r, 'int16_t')), 'node: children fit')
        v.check(And(l == rel(i, w[2]), r == rel(i, w[3])), 'node: the children')
    fields = STRUCT.search(code).group(1).split(',')
    fields = [x.strip() for x in fields if x.strip()]
    v.check(And(fits(one(v, fields[7]), 'int8_t'), one(v, fields[7]) == n_features), 'number of features fits and is right')
    v.check(And(fits(one(v, fields[8]), 'int8_t'), one(v, fields[8]) == n_classes), 'number of classes fits and is right')
    v.reach('accepted')


def model(method, dtype, classes, save=None, shape=((None, None), None)):
    """conversion and code generation of a model with any thresholds, number of features and number of classes"""
    def f(v):
        import emlearn
        import warnings
        n_features = v.int('n_features', 1, 20000)
        n_classes = v.int('n_classes', 1, 100000) if classes else None
        inner = 2
        feats = [v.int('feature%d' % i, 0, 20000) for i in range(inner)]
        for x in feats:
            v.assume(x < n_features)
        ts = [v.real('threshold%d' % i, -LIMIT, LIMIT) for i in range(inner)]
        leaves = [(1.0, 0.0), (0.0, 1.0), (1.0, 0.0)] if classes else [(1.5,), (-2.0,), (0.25,)]
        L, R = stubtrees.shape_nodes(shape)
        k = iter(range(inner))
        F = [feats[next(k)] if l >= 0 else -2 for l in L]
        t = stubtrees.tree(v, 't', shape, [0], len(leaves[0]), values=leaves, thresholds=ts)
        t.feature = F
        est = stubtrees.estimator([t, t], n_features, n_classes)
        c_format = save or method
        c_dtype = dtype
        ok = And(*[fits(floor(v, x) + 1, c_dtype) for x in ts])
        if c_format == 'loadable':
            ok = And(ok, n_features <= 127)
            if classes:
                ok = And(ok, n_classes <= 127)
            if dtype != 'int16_t':
                ok = pysym.SBool(pysym.z3.BoolVal(False)) if v.symbolic else False
        else:
            ok = And(ok, n_features <= 10000)
        if classes and method == 'loadable':
            ok = And(ok, n_classes <= 127)
        if method == 'loadable':
            ok = And(ok, n_features <= 127)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                m = emlearn.convert(est, method=method, dtype=dtype)
                code = m.save(name='m', **({'inference': [save]} if save else {}))
        except REFUSALS:
            v.check(Not(ok), 'a model that fits is accepted')
            v.reach('refused')
            return
        want = [(F[i], ts[j]) for j, i in enumerate([i for i in range(len(L)) if L[i] >= 0])]
        if c_format == 'loadable':
            v.check(dtype == 'int16_t', 'features of another type than the representation')
            count, parsed = nodes_of(code, 'm')
            v.check(count == 2 * inner and len(parsed) == 2 * inner, 'all the nodes')
            got = [(one(v, p[0]), one(v, p[1])) for p in parsed]
            for g in got:
                v.check(fits(g[0], 'int8_t'), 'feature number fits')
            fields = [x.strip() for x in STRUCT.search(code).group(1).split(',') if x.strip()]
            v.check(And(fits(one(v, fields[7]), 'int8_t'), one(v, fields[7]) == n_features), 'number of features')
            if classes:
                v.check(And(fits(one(v, fields[8]), 'int8_t'), one(v, fields[8]) == n_classes), 'number of classes')
        else:
            got = [(one(v, a), one(v, b)) for a, b in re.findall(r'features\[([^\]]+)\]\s*<\s*([^)\s]+)\s*\)', code)]
            v.check(len(got) == 2 * inner, 'all the comparisons')
        for g, w in zip(got, want + want):
            v.check(g[0] == w[0], 'the feature number')
            v.check(fits(g[1], dtype), 'the threshold fits')
            v.check(g[1] == floor(v, w[1]) + 1, 'the threshold')
        v.reach('accepted')
    return f


def distance(n, dtype):
    """a chain of n nodes whose first node also refers to the last: concrete structure, symbolic thresholds at its end"""
    def f(v):
        import emlearn
        import warnings
        # nodes in depth first order: root, chain (node, leaf) ..., last leaf of the chain, right node, its leaves
        L, R = [1], [None]
        for i in range(n - 1):
            here = len(L)
            L += [here + 1, -1]
            R += [here + 2, -1]
        L.append(-1)
        R.append(-1)
        R[0] = len(L)
        here = len(L)
        L += [here + 1, -1, -1]
        R += [here + 2, -1, -1]
        count = len(L)
        a = v.real('a', -100, 100)
        b = v.real('b', -100, 100)
        T = [1.5 if l >= 0 else -2.0 for l in L]
        F = [0 if l >= 0 else -2 for l in L]
        T[0] = a
        T[here] = b
        values = pysym.numpy.zeros((count, 1, 2))
        values[:, 0, 0] = 1.0
        values[here + 1, 0] = (0.0, 1.0)
        t = stubtrees.make('Tree', node_count=count, children_left=L, children_right=R, feature=F, threshold=T, value=values, max_depth=5)
        est = stubtrees.estimator([t], 1, 2, forest=False)
        jump = n
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                code = emlearn.convert(est, method='loadable', dtype=dtype).save(name='m')
        except REFUSALS:
            v.check(jump > 32767, 'a jump that fits is accepted')
            v.reach('refused')
            return
        m, parsed = nodes_of(code, 'm')
        v.check(m == n + 1 and len(parsed) == n + 1, 'all the nodes')
        v.check(one(v, parsed[0][3]) == jump and jump <= 32767, 'the jump to the far node')
        v.check(And(one(v, parsed[0][1]) == floor(v, a) + 1, one(v, parsed[-1][1]) == floor(v, b) + 1), 'its threshold')
        v.reach('accepted')
    return f


def run(r, tier):
    thorough = tier == 'thorough'
    from emlearn import cgen, trees
    mods = [trees, cgen]
    tasks = [pysym.Task('child', child, modules=mods, key='child')]
    for d in DTYPES:
        tasks.append(pysym.Task('threshold-' + d, threshold(d), modules=mods, key='threshold'))
    tasks.append(pysym.Task('generator', generator, modules=mods, key='generator'))
    for classes in (True, False):
        n = 'classifier' if classes else 'regressor'
        tasks.append(pysym.Task('loadable-' + n, model('loadable', 'int16_t', classes), modules=mods, key='loadable'))
        for d in DTYPES if classes or thorough else ['int16_t']:
            tasks.append(pysym.Task('inline-%s-%s' % (n, d), model('inline', d, classes), modules=mods, key='inline'))
    for d in ('int16_t', 'int32_t', 'uint8_t'):
        tasks.append(pysym.Task('saved-loadable-' + d, model('inline', d, True, save='loadable'), modules=mods, key='saved-loadable'))
    tasks.append(pysym.Task('saved-inline', model('loadable', 'int16_t', True, save='inline'), modules=mods, key='saved-inline'))
    for n in (32767, 32768) + ((1000, 40000) if thorough else ()):
        tasks.append(pysym.Task('far-%d' % n, distance(n, 'int16_t'), modules=mods, key='far'))
    r.bound('any child reference and node number up to 2^40, any threshold within +-2^40, any number of features up to 20000 (2^40 in the generator) and of classes up to 100000, every integer feature type')
    r.bound('models of two trees with two nodes each; one model of 32767 and 32768 nodes for the largest jump')
    r.assume('thresholds are real numbers; float features have no limit that could wrap')
    pysym.run_tasks(r, tasks)
