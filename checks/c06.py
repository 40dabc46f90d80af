"""CSV export of trees: decoded, it is the ensemble, for any thresholds, leaf values and features."""
from vlib import pysym, stubtrees
from vlib.pysym import And, Ite, Or

LEVEL = 'other'
HALF = pysym.Fraction(5, 10**7)


def decode(v, text):
    """rows of numbers by their first letter; numbers as (lo, hi)"""
    rows = {k: [] for k in ('f', 'c', 'lb', 'l', 'r', 'n')}
    for line in text.replace('\r\n', '\n').split('\n'):
        if not line.strip():
            continue
        parts = line.split(',')
        v.check(parts[0] in rows, 'a known kind of row')
        rows[parts[0]].append([pysym.denoted(v, p) for p in parts[1:]])
    return rows


def concrete(v, x):
    """an integer that cannot depend on the symbolic numbers"""
    lo, hi = x
    return int(pysym.unwrap(lo))


def evaluate(v, rows, root, x, value):
    """the leaf reached, decoded as documented: relative jumps, negative leaf references"""
    def go(i, seen):
        v.check(0 <= i < len(rows['n']) and i not in seen, 'a child is another node')
        f, t, left, right = rows['n'][i]
        feature = concrete(v, f)
        v.check(0 <= feature < len(x), 'a feature of the model')

        def child(c):
            c = concrete(v, c)
            if c < 0:
                v.check(-c - 1 < len(rows['l']), 'a leaf of the model')
                return value(rows['l'][-c - 1])
            return go(i + c, seen | {i})
        return Ite(x[feature] <= t[0], child(left), child(right))
    return go(root, frozenset())


def export(shapes, n_features, classes, bits, forest=True, equal=0, dtype=None, method='inline', fixed=False, single=False, given=None):
    def f(v):
        import emlearn
        width = classes or 1
        feats = list(range(n_features))
        ts = []
        for k, s in enumerate(shapes):
            kw = {}
            if classes:
                kw = dict(vlo=0, vhi=1)
            if fixed:
                kw['values'] = [[1.0 if (j * 7 + k) % classes == c else 0.0 for c in range(classes)] for j in range(8)] if classes else [[float(j % 3) * 0.5 - 1] for j in range(8)]
            if given:
                kw['thresholds'] = given
            if single:
                p = [v.real('p%d.%d' % (k, c), 0, 1) for c in range(classes)]
                kw['values'] = [p, [1.0] + [0.0] * (classes - 1), [0.0] * (classes - 1) + [1.0], [0.5, 0.5] + [0.0] * (classes - 2)]
                v.assume(sum(p[1:], p[0]) == 1 if v.symbolic else abs(sum(p) - 1) < 1e-9)
            t = stubtrees.tree(v, 't%d' % k, s, feats[k % n_features:] + feats[:k % n_features], width, lo=-30000, hi=30000, **kw)
            if classes and not fixed and not single:
                for i in range(t.node_count):
                    if t.children_left[i] < 0:
                        total = sum((t.value[i, 0, c] for c in range(1, classes)), t.value[i, 0, 0])
                        v.assume(total == 1 if v.symbolic else abs(total - 1) < 1e-9)
            ts.append(t)
        ts += ts[:equal]        # equal trees
        est = stubtrees.estimator(ts, n_features, classes or None, forest=forest)
        kw = {} if bits is None else dict(leaf_bits=bits)
        m = emlearn.convert(est, method=method, **kw, **({'dtype': dtype} if dtype else {}))
        rows = decode(v, m.save(name='thetrees', format='csv'))
        v.check(len(rows['f']) == 1 and concrete(v, rows['f'][0][0]) == n_features, 'the number of features')
        v.check(len(rows['c']) == 1 and concrete(v, rows['c'][0][0]) == (classes or 0), 'the number of classes')
        v.check(len(rows['lb']) == 1, 'the leaf bits')
        v.check(len(rows['r']) == len(ts), 'one root for each tree')
        x = [v.real('x%d' % i, -40000, 40000) for i in range(n_features)]
        for t in ts:
            for i in range(t.node_count):
                if t.children_left[i] >= 0:
                    d = x[t.feature[i]] - t.threshold[i]
                    v.assume(Or(d > 2 * HALF, d < -2 * HALF))
        soft = bits not in (None, 0, 1) and classes
        for k, t in enumerate(ts):
            root = concrete(v, rows['r'][k][0])
            if soft:
                steps = 2**bits - 1
                for c in range(classes):
                    def byte(row):
                        v.check(len(row) == classes, 'a proportion for each class')
                        return row[c][0]
                    got = evaluate(v, rows, root, x, byte)
                    want = stubtrees.leaves_of(t, x, lambda i: t.value[i, 0, c])
                    d = got - want * 255
                    tol = pysym.Fraction(3 * 255, 2 * steps) + pysym.Fraction(1, 10**6)
                    v.check(And(d <= tol, d >= -tol), 'class proportions of the leaf')
            elif classes:
                def vote(i):
                    best = 0
                    for c in range(1, classes):
                        best = Ite(And(*[t.value[i, 0, c] > t.value[i, 0, o] for o in range(c)]), c, best)
                    return best

                def number(row):
                    v.check(len(row) == 1, 'one class in a leaf')
                    return row[0][0]
                v.check(evaluate(v, rows, root, x, number) == stubtrees.leaves_of(t, x, vote), 'class of the leaf')
            else:
                def only(row):
                    v.check(len(row) == 1, 'one value in a leaf')
                    return row[0][0]
                v.equal(evaluate(v, rows, root, x, only), stubtrees.leaves_of(t, x, lambda i: t.value[i, 0, 0]), 'value of the leaf')
        v.reach('decoded')
    return f


def run(r, tier):
    thorough = tier == 'thorough'
    from emlearn import cgen, trees
    mods = [trees, cgen]
    N = None
    one, two, three = (N, N), ((N, N), N), ((N, N), (N, N))
    right, left = (N, (N, (N, N))), (((N, N), N), N)
    cases = [
        ('regressor-one', ([one], 1, 0, None), dict(forest=False)),
        ('regressor-forest', ([two, one], 2, 0, None), {}),
        ('regressor-leaf', ([N, two], 1, 0, None), {}),
        ('regressor-chain', ([right], 2, 0, None), dict(forest=False)),
        ('regressor-three', ([one, one, one], 3, 0, None), dict(method='loadable')),
        ('regressor-wide', ([three, left, right], 3, 0, None), dict(fixed=True)),
        ('hard-one', ([two], 2, 2, None), dict(forest=False)),
        ('hard-forest', ([one, one], 2, 3, 0), {}),
        ('hard-wide', ([three, left, right, one], 4, 3, None), dict(fixed=True)),
        ('hard-float', ([left, right], 2, 4, None), dict(fixed=True, dtype='float')),
        ('soft-8', ([one], 1, 2, 8), dict(forest=False, single=True)),
        ('soft-4', ([one, N], 1, 2, 4), dict(single=True)),
        ('soft-3', ([two], 1, 3, 3), dict(single=True)),
        ('soft-wide', ([three, left], 3, 4, 8), dict(fixed=True)),
    ]
    deep = N
    for _ in range(140):
        deep = (deep, N)
    cases += [
        ('regressor-equal', ([one], 1, 0, None), dict(equal=1)),
        ('regressor-equal-three', ([one, two], 1, 0, None), dict(equal=2, fixed=True)),
        ('hard-equal', ([two], 2, 2, None), dict(equal=1, fixed=True)),
        ('hard-same-feature', ([one, one, two], 1, 2, None), dict(fixed=True)),
        ('soft-equal', ([one], 1, 2, 4), dict(equal=1, single=True)),
        ('soft-equal-fixed', ([right], 1, 3, 8), dict(equal=1, fixed=True)),
        ('regressor-far', ([((deep, (N, N)))], 1, 0, None), dict(forest=False, fixed=True, given=[500.0] + [400.5 - i for i in range(140)] + [600.0])),
    ]
    if thorough:
        cases += [('regressor-five', ([three, one], 2, 0, None), {}), ('hard-three', ([two, two], 3, 2, None), {}), ('soft-6', ([two], 2, 2, 6), dict(single=True)), ('soft-2', ([one], 1, 2, 2), dict(single=True)),
                  ('soft-5', ([one, one], 2, 2, 5), dict(single=True)), ('regressor-deep', ([left, left], 2, 0, None), dict(fixed=True))]
    tasks = [pysym.Task(n, export(*a, **k), modules=mods, key=n.split('-')[0], time_limit=3000 if thorough else 200, max_paths=50000) for n, a, k in cases]
    r.bound('ensembles of 1..4 trees with 1..4 nodes each (%s); any thresholds within +-30000, any leaf values and class proportions, or fixed ones in the larger ensembles; any features' % ', '.join(c[0] for c in cases))
    r.assume('features at least 1e-6 from a threshold (thresholds are written to six decimals); soft leaves within 1.5/(2^leaf_bits-1)')
    pysym.run_tasks(r, tasks)
