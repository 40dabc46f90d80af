"""Fitted tree ensembles whose numbers may be symbolic: what the converter uses of a scikit-learn estimator."""
import numpy

from . import pysym


def make(kind, **attributes):
    o = type(kind, (), {})()
    for k, v in attributes.items():
        setattr(o, k, v)
    return o


def shape_nodes(shape):
    """(left, right) arrays of a tree given as nested pairs, leaves None; depth first"""
    L, R = [], []

    def new(s):
        i = len(L)
        L.append(-1)
        R.append(-1)
        if s is not None:
            L[i] = new(s[0])
            R[i] = new(s[1])
        return i
    new(shape)
    return L, R


def tree(v, name, shape, features, width, values=None, thresholds=None, lo=-10**6, hi=10**6, vlo=None, vhi=None):
    """a tree_ with symbolic thresholds and leaf values (width values in each leaf)"""
    L, R = shape_nodes(shape)
    n = len(L)
    F, T = [], []
    k = 0
    for i in range(n):
        if L[i] < 0:
            F.append(-2)
            T.append(-2.0)
        else:
            F.append(features[k % len(features)])
            T.append(thresholds[k] if thresholds is not None else v.real('%s.t%d' % (name, i), lo, hi))
            k += 1
    V = numpy.zeros((n, 1, width), dtype=object)
    j = 0
    for i in range(n):
        if L[i] < 0:
            for c in range(width):
                if values is not None:
                    V[i, 0, c] = values[j % len(values)][c]
                else:
                    V[i, 0, c] = v.real('%s.v%d.%d' % (name, i, c), vlo if vlo is not None else lo, vhi if vhi is not None else hi)
            j += 1
        else:
            V[i, 0, :] = 0.0
    value = V.view(pysym.SArr) if v.symbolic else numpy.array(V, dtype=float)
    return make('Tree', node_count=n, children_left=L, children_right=R, feature=F, threshold=T, value=value, max_depth=5, n_features=max(features) + 1)


def estimator(trees, n_features, n_classes, forest=True):
    kind = 'Classifier' if n_classes is not None else 'Regressor'
    kw = dict(n_features_in_=n_features)
    if n_classes is not None:
        kw['n_classes_'] = n_classes
    es = [make('DecisionTree' + kind, tree_=t, **kw) for t in trees]
    if not forest:
        return es[0]
    return make('RandomForest' + kind, estimators_=es, **kw)


def leaves_of(t, x, value):
    """the value of the leaf that x reaches, by definition: an expression"""
    def go(i):
        if t.children_left[i] < 0:
            return value(i)
        return pysym.Ite(x[t.feature[i]] <= t.threshold[i], go(t.children_left[i]), go(t.children_right[i]))
    return go(0)
