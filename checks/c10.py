"""Generated nearest neighbours code: the training set in it."""
import itertools
import re

import numpy

from vlib import core, ll, pysym
from vlib.pysym import And, Or
from checks.c07 import converted
from checks.c33 import trunc

LEVEL = 'other'

SOURCE = r'''
#include "vh.h"
#include <eml_neighbors.h>
#include "gen.h"
void harness(void)
{
    VASSERT(nn.n_features == NF, "number of features");
    VASSERT(nn.n_items == NI && nn.max_items >= NI, "number of items");
    VASSERT(nn.k_neighbors == K, "number of neighbours");
    for (int32_t i = 0; i < NI * NF; i++) { VASSERT(nn.data[i] == REF_DATA[i], "training data by rows"); }
    for (int32_t j = 0; j < NI; j++) { VASSERT(nn.labels[j] == REF_LABELS[j], "training labels"); }
    /* and the label of an item that is asked for */
    VH_ARRAY(int16_t, query, NF); VH_IN(int16_t, which); VASSUME(which == 0 || which == NI - 1);
    for (int f = 0; f < NF; f++) { query[f] = REF_DATA[which * NF + f]; }
    EmlNeighborsModel one = nn; one.k_neighbors = 1;
    EmlNeighborsDistanceItem *d = (EmlNeighborsDistanceItem *)malloc(sizeof(EmlNeighborsDistanceItem) * NI); VASSUME(d != NULL);
    int16_t out = -1;
    VASSERT(eml_neighbors_predict(&one, query, NF, d, NI, &out) == EmlOk, "accepted");
    VASSERT(out == REF_LABELS[which], "a training item is its own nearest neighbour");
    VH_REACH("model");
}
'''


def estimator(X, y, k, **kw):
    from sklearn.neighbors import KNeighborsClassifier
    est = KNeighborsClassifier(algorithm='brute', **kw).fit(numpy.zeros((6, 2)), [0, 0, 0, 1, 1, 1])
    est._fit_X, est._y, est.n_neighbors = X, y, k
    return est


def fields(code):
    """the values of the model, by the names of the C fields"""
    m = re.search(r'EmlNeighborsModel\s+nn\s*=\s*\{([^{}]*)\}\s*;', code)
    if not m:
        raise core.CheckError('no model in the generated code: ' + code[-300:])
    names = re.search(r'typedef struct _EmlNeighborsModel \{(.*?)\}', open(core.INCLUDE + '/eml_neighbors.h').read(), re.S).group(1)
    names = re.findall(r'(\w+)\s*;', re.sub(r'//[^\n]*|/\*.*?\*/', '', names, flags=re.S))
    out = {}
    for i, t in enumerate(m.group(1).split(',')):
        d = re.fullmatch(r'\s*\.(\w+)\s*=\s*(.*)', t.strip())
        n, t = d.groups() if d else (names[i], t)
        out[n] = re.sub(r'\([^()]*\*\s*\)', '', t).strip()
    return out


def generator(items, features, kind, far=40000):
    def f(v):
        X = v.array('x', (items, features), -far, far, kind=kind)
        y = v.array('y', (items,), 0, far, kind='int')
        k = v.int('k', 1, items)
        inside = And(*[And(x > -32769, x < 32768) for x in list(X.flatten()) + list(y)])
        small = And(*[And(x >= -32768, x <= 32767) for x in list(X.flatten()) + list(y)])
        try:
            code = converted(estimator(X, y, k)).save(name='nn')
        except ValueError:
            v.check(pysym.Not(small), 'only values out of range are refused')
            v.reach('refused')
            return
        v.check(inside, 'values out of range are refused')
        m = fields(code)
        for n, want in (('n_features', features), ('n_items', items), ('k_neighbors', k)):
            v.equal(pysym.denoted(v, m[n])[0], want, n)
        for n, want in (('data', list(X.flatten())), ('labels', list(y))):
            a = re.search(r'int16_t\s+%s\s*\[\s*(\d+)\s*\]\s*=\s*\{([^{}]*)\}\s*;' % re.escape(m[n]), code)
            v.check(a is not None, n + ' declared')
            parts = a.group(2).split(',')
            v.check(int(a.group(1)) == len(want) and len(parts) == len(want), n + ': number of values')
            for t, x in zip(parts, want):
                lo, hi = pysym.denoted(v, t)
                v.check(And(lo == trunc(v, x), hi == trunc(v, x)), n + ': the training value, as an integer')
        v.reach('generated')
    return f


def refused(kw):
    def f(v):
        X = v.array('x', (3, 2), -100, 100)
        try:
            converted(estimator(X, numpy.array([0, 1, 1]), 1, **kw))
        except ValueError:
            v.reach('refused')
            return
        v.check(False, 'refused: %s' % kw)
    return f


def many(items):
    """the number of items must fit as well"""
    def f(v):
        X, y = numpy.zeros((items, 1)), numpy.zeros(items, dtype=int)
        k = v.int('k', 1, items)
        try:
            code = converted(estimator(X, y, k)).save(name='nn')
        except ValueError:
            v.check(items > 32767, 'only too many items are refused')
            v.reach('refused')
            return
        v.check(items <= 32767, 'too many items are refused')
        m = fields(code)
        for n, want in (('n_features', 1), ('n_items', items), ('k_neighbors', k)):
            v.equal(pysym.denoted(v, m[n])[0], want, n)
        v.reach('accepted')
    return f


def generated(items, features, k, seed):
    r = numpy.random.RandomState(seed)
    X, y = r.randint(-32768, 32768, (items, features)), r.randint(0, 10, items)
    code = converted(estimator((numpy.asfortranarray if seed % 2 == 0 else numpy.array)(X.astype(float)), y, k)).save(name='nn')
    return code + '\n#define NF %d\n#define NI %d\n#define K %d\nstatic const int16_t REF_DATA[] = {%s};\nstatic const int16_t REF_LABELS[] = {%s};\n' % (
        features, items, k, ','.join(map(str, X.flatten())), ','.join(map(str, y)))


def run(r, tier):
    from emlearn import cgen, neighbors
    thorough = tier == 'thorough'
    shapes = [(1, 1), (2, 1), (1, 3), (2, 2)] + ([(3, 2), (2, 3)] if thorough else [])
    tasks = [pysym.Task('training-set-%dx%d-%s' % (i, f, kind), generator(i, f, kind), modules=[neighbors, cgen], key='training-set') for (i, f), kind in itertools.product(shapes, ('int', 'real'))]
    tasks += [pysym.Task('far-%dx%d-%s' % (i, f, kind), generator(i, f, kind, 2**40), modules=[neighbors, cgen], key='training-set') for (i, f), kind in itertools.product(shapes[:2], ('int', 'real'))]
    tasks += [pysym.Task('items-%d' % n, many(n), modules=[neighbors, cgen], key='items') for n in (32767, 32768, 40000, 65537)]
    bad = [dict(metric='manhattan'), dict(metric='chebyshev'), dict(p=1), dict(p=3), dict(weights='distance'), dict(weights=lambda d: d)]
    tasks += [pysym.Task('refused-%d' % i, refused(kw), modules=[neighbors, cgen], key='refused') for i, kw in enumerate(bad)]
    big = [(3, 2, 2), (7, 5, 3), (300, 3, 290), (5, 300, 1), (600, 60, 5)]
    jobs = [ll.LLJob('model-%d-%d-%d' % b, SOURCE, key='model', max_steps=20000000, files={'gen.h': generated(*b, seed=n)}) for n, b in enumerate(big)]
    r.bound('training sets of (items, features) %s: any integers or reals within +-40000, labels 0..40000 and number of neighbours (for the first two, within +-2^40); 32767, 32768, 40000 and 65537 given items' % shapes)
    r.bound('compiled models (items, features, neighbours) %s' % big)
    core.all_of(r, lambda: ll.run_jobs(r, jobs), lambda: pysym.run_tasks(r, tasks))
