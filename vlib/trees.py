"""Tree ensembles of every shape, converted by the real emlearn code, and harnesses that compare the C code with the definition."""
import random
import sys
import warnings

import numpy

from . import core

if core.REPO not in sys.path:
    sys.path.insert(0, core.REPO)


def leaf(*value):
    return ('leaf', tuple(value))


def node(feature, threshold, left, right):
    return ('node', feature, threshold, left, right)


def layout(spec, order='dfs'):
    """arrays of one tree (children_left, children_right, feature, threshold, value), depth first (scikit-learn's default) or best-first like (breadth)"""
    L, R, F, T, V = [], [], [], [], []

    def new(s):
        L.append(-1)
        R.append(-1)
        F.append(-2 if s[0] == 'leaf' else s[1])
        T.append(-2.0 if s[0] == 'leaf' else s[2])
        V.append(s[1] if s[0] == 'leaf' else None)
        return len(L) - 1

    if order == 'dfs':
        def rec(s):
            i = new(s)
            if s[0] == 'node':
                L[i] = rec(s[3])
                R[i] = rec(s[4])
            return i
        sys.setrecursionlimit(200000)
        rec(spec)
    else:
        todo = [(spec, new(spec))]
        while todo:
            s, i = todo.pop(0)
            if s[0] == 'node':
                L[i] = new(s[3])
                R[i] = new(s[4])
                todo.append((s[3], L[i]))
                todo.append((s[4], R[i]))
    width = len(next(v for v in V if v is not None))
    V = [v if v is not None else tuple([0.0] * width) for v in V]
    return L, R, F, T, V


def sk_tree(arrays, n_features, n_outputs_classes):
    from sklearn.tree._tree import Tree
    L, R, F, T, V = arrays
    n = len(L)
    t = Tree(n_features, numpy.array([n_outputs_classes], dtype=numpy.intp), 1)
    proto = t.__getstate__()
    dt = proto['nodes'].dtype
    nodes = numpy.zeros(n, dtype=dt)
    nodes['left_child'] = L
    nodes['right_child'] = R
    nodes['feature'] = F
    nodes['threshold'] = T
    nodes['n_node_samples'] = 1
    nodes['weighted_n_node_samples'] = 1.0
    values = numpy.array(V, dtype=numpy.float64).reshape(n, 1, len(V[0]))
    depth = 1
    t.__setstate__({'max_depth': depth, 'node_count': n, 'nodes': nodes, 'values': values})
    return t


class Model:
    """an ensemble given by its definition"""

    def __init__(self, name, specs, n_features, n_classes=0, order='dfs', kind=None):
        self.name = name
        self.n_features = n_features
        self.n_classes = n_classes          # 0: regression
        self.trees = [layout(s, order) for s in specs]
        self.kind = kind

    def estimator(self):
        from sklearn.ensemble import RandomForestClassifier, RandomForestRegressor, ExtraTreesClassifier, ExtraTreesRegressor
        from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
        single = []
        for a in self.trees:
            e = DecisionTreeClassifier() if self.n_classes else DecisionTreeRegressor()
            e.tree_ = sk_tree(a, self.n_features, self.n_classes or 1)
            e.n_features_in_ = self.n_features
            e.n_outputs_ = 1
            if self.n_classes:
                e.n_classes_ = self.n_classes
                e.classes_ = numpy.arange(self.n_classes)
            single.append(e)
        kind = self.kind or ('single' if len(single) == 1 else 'forest')
        if kind == 'single':
            return single[0]
        if kind == 'extra':
            f = ExtraTreesClassifier() if self.n_classes else ExtraTreesRegressor()
        else:
            f = RandomForestClassifier() if self.n_classes else RandomForestRegressor()
        f.estimators_ = single
        f.n_features_in_ = self.n_features
        f.n_outputs_ = 1
        if self.n_classes:
            f.n_classes_ = self.n_classes
            f.classes_ = numpy.arange(self.n_classes)
        return f

    def thresholds(self):
        out = {}
        for L, R, F, T, V in self.trees:
            for l, f, t in zip(L, F, T):
                if l >= 0:
                    out.setdefault(f, set()).add(t)
        return out


def convert(est, method, dtype, leaf_bits=None):
    import emlearn
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kw = {}
        if leaf_bits is not None:
            kw['leaf_bits'] = leaf_bits
        return emlearn.convert(est, method=method, dtype=dtype, **kw)


def rand_tree(rng, depth, features, thr, mkleaf, p_stop=0.15):
    if depth == 0 or rng.random() < p_stop:
        return mkleaf()
    return node(rng.choice(features), thr(), rand_tree(rng, depth - 1, features, thr, mkleaf, p_stop),
                rand_tree(rng, depth - 1, features, thr, mkleaf, p_stop))


def chain(n, feature, thr, mkleaf, right=True):
    """a degenerate tree: a long chain of n nodes"""
    s = mkleaf()
    for i in reversed(range(n)):
        s = node(feature, thr(i), mkleaf(), s) if right else node(feature, thr(i), s, mkleaf())
    return s


def fl(x):
    return float(x).hex() if x == x and abs(x) != float('inf') else repr(x)


def reference_c(model):
    """the ensemble as plain tables, and its definition"""
    L, R, F, T, V, roots = [], [], [], [], [], []
    for a in model.trees:
        b = len(L)
        roots.append(b)
        L += [x + b if x >= 0 else -1 for x in a[0]]
        R += [x + b if x >= 0 else -1 for x in a[1]]
        F += [max(x, 0) for x in a[2]]
        T += a[3]
        V += a[4]
    vote = [max(range(len(v)), key=lambda i: (v[i], -i)) for v in V]
    w = len(V[0])
    out = ['static const int ref_left[%d] = {%s};' % (len(L), ','.join(map(str, L))),
           'static const int ref_right[%d] = {%s};' % (len(R), ','.join(map(str, R))),
           'static const int ref_feature[%d] = {%s};' % (len(F), ','.join(map(str, F))),
           'static const double ref_threshold[%d] = {%s};' % (len(T), ','.join(fl(t) for t in T)),
           'static const int ref_vote[%d] = {%s};' % (len(vote), ','.join(map(str, vote))),
           'static const double ref_value[%d] = {%s};' % (len(V) * w, ','.join(fl(x) for v in V for x in v)),
           'static const int ref_roots[%d] = {%s};' % (len(roots), ','.join(map(str, roots))),
           '#define REF_TREES %d' % len(roots), '#define REF_WIDTH %d' % w, '#define REF_FEATURES %d' % model.n_features]
    out.append('''static int ref_leaf(int tree, const FT *x) {
    int n = ref_roots[tree];
    while (ref_left[n] >= 0) { n = ((double)x[ref_feature[n]] <= ref_threshold[n]) ? ref_left[n] : ref_right[n]; }
    return n;
}
''')
    return '\n'.join(out)


def inputs_c(model, dtype, symbolic, base):
    """declares the features: those in symbolic as inputs, the others from base"""
    k = 'VH_IN_ORDERED' if dtype in ('float', 'double') else 'VH_IN'
    out = ['    FT x[REF_FEATURES];']
    for i in range(model.n_features):
        if i in symbolic:
            out.append('    { %s(FT, v); x[%d] = v; }' % (k, i))
            if dtype in ('float', 'double'):
                out.append('    VASSUME(x[%d] <= 3.402823e38f); VASSUME(x[%d] >= -3.402823e38f);' % (i, i))
        else:
            out.append('    x[%d] = %s;' % (i, fl(numpy.float32(base[i])) + 'f' if dtype == 'float' else fl(base[i]) if dtype == 'double' else int(base[i])))
    return '\n'.join(out)


def source(model, code, dtype, symbolic, base, body, pre=''):
    return '''#include "vh.h"
#include <math.h>
typedef %s FT;
#line 1 "generated-code.h"
%s
#line 1 "harness.c"
%s
%s
void harness(void) {
%s
%s
    VH_REACH("done");
}
''' % (dtype, code, reference_c(model), pre, inputs_c(model, dtype, symbolic, base), body)


VOTE = '''
    int votes[%(nc)d]; for (int i = 0; i < %(nc)d; i++) { votes[i] = 0; }
    for (int t = 0; t < REF_TREES; t++) { votes[ref_vote[ref_leaf(t, x)]]++; }
    int best = 0; for (int i = 1; i < %(nc)d; i++) { if (votes[i] > votes[best]) { best = i; } }
'''

DTYPES = {'int8_t': (-128, 127), 'int16_t': (-32768, 32767), 'int32_t': (-2**31, 2**31 - 1), 'uint8_t': (0, 255), 'uint16_t': (0, 65535), 'uint32_t': (0, 2**32 - 1)}


def thr_maker(rng, dtype, dense=False):
    """thresholds scikit-learn can produce for the type: midpoints, integers, extremes"""
    if dtype in ('float', 'double'):
        special = iter([1.0, 0.1, -0.5, 0.30000001192092896, 1e-8, 1e6, 0.0, 3.25, -1e-8, -1e6, 1e-30, 123456.703125, -7.0] * 1000)

        def f():
            c = rng.random()
            if c < 0.4:
                return next(special)
            if c < 0.7:
                return rng.uniform(-5, 5)
            return float(numpy.float32(rng.uniform(-100, 100)))
        return f
    lo, hi = DTYPES[dtype]

    def g():
        c = rng.random()
        if dense:
            v = rng.randint(max(lo, -6), min(hi - 1, 6))
        elif c < 0.15:
            v = lo + rng.randint(0, 2)
        elif c < 0.3:
            v = hi - 1 - rng.randint(0, 2)
        elif c < 0.6:
            v = rng.randint(max(lo, -20), min(hi - 1, 20))
        else:
            v = rng.randint(lo, hi - 1)
        # the comparison value is floor(t) + 1, at most hi
        return v + rng.choice([0.0, 0.5, 0.5, 0.25])
    return g


def wide_jobs(widths):
    """tables with node and leaf numbers up to the limits of their types (harness/c04w.c)"""
    import os
    from . import ll
    src = open(os.path.join(core.VERIF, 'harness', 'c04w.c')).read()
    return [ll.LLJob('wide-%d' % w, src, key='wide-%d' % w, defines=['WIDTH=%d' % w]) for w in widths]
