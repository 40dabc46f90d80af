"""Neural networks: the C inference, the generated code, and the generated constants."""
import itertools
import os
import re

import numpy

from vlib import core, ll, pysym
from vlib.pysym import And

LEVEL = 'other'
NAMES = ['identity', 'relu', 'logistic', 'softmax', 'tanh']
MACROS = ['ID', 'RELU', 'LOGISTIC', 'SOFTMAX', 'TANH']


class MLP:
    """what the converter uses of a fitted MLPClassifier or MLPRegressor"""

    def __init__(self, weights, biases, hidden, out):
        self.coefs_, self.intercepts_, self.activation, self.out_activation_ = weights, biases, hidden, out
        self.n_layers_ = len(weights) + 1


def stub(name, **attributes):
    o = type(name, (), {})()
    for k, v in attributes.items():
        setattr(o, k, v)
    return o


def act(name):
    f = lambda x: x
    f.__name__ = {'logistic': 'sigmoid', 'identity': 'linear'}.get(name, name)
    return f


def keras(weights, biases, acts, layers):
    """what the converter uses of a Keras model: each activation as part of its Dense layer or (layers) on its own"""
    out = []
    for i, (w, b, a) in enumerate(zip(weights, biases, acts)):
        own = layers and (i + layers) % 2 and a != 'identity'
        out.append(stub('Dense', use_bias=True, activation=act('identity' if own else a), get_weights=lambda w=w, b=b: [w, b]))
        if layers:
            out.append(stub('Dropout', rate=0.5))
        if own:
            if a == 'relu' and layers < 3:
                out.append(stub('ReLU', negative_slope=0.0, threshold=0.0, max_value=None))
            elif a == 'softmax' and layers < 3:
                out.append(stub('Softmax', axis=-1))
            else:
                out.append(stub('Activation', activation=act(a)))
        elif layers > 1:
            out.append(stub('Activation', activation=act('identity')))
    return stub('Sequential', layers=out)


def converted(estimator, **kw):
    """the real converter, with a stand-in for the compiled program"""
    from emlearn import common, convert
    keep = common.CompiledClassifier
    common.CompiledClassifier = lambda *a, **k: None
    try:
        return convert(estimator, **kw)
    finally:
        common.CompiledClassifier = keep


def generated(sizes, acts, seed, kind, method, layers=0):
    rng = numpy.random.RandomState(seed)
    w = [numpy.asfortranarray(rng.randint(-128, 129, (sizes[i], sizes[i + 1])) / 64.0) for i in range(len(acts))]
    b = [rng.randint(-128, 129, sizes[i + 1]) / 64.0 for i in range(len(acts))]
    if kind == 'sklearn':
        est, k = MLP(w, b, acts[0], acts[-1]), 'MLPClassifier'
    else:
        est, k = keras(w, b, acts, layers), 'Sequential'
    code = converted(est, kind=k, method=method).save(name='net')
    width = max(sizes)
    gen = '#include <stdint.h>\n' + code + '\n#define LAYERS %d\nstatic const int SIZES[] = {%s};\nstatic const int ACTS[] = {%s};\n#define BUFFERS %d\n' % (
        len(acts), ','.join(map(str, sizes)), ','.join(MACROS[NAMES.index(a)] for a in acts), width)
    gen += 'static const double REF_W[%d][%d][%d] = {%s};\n' % (len(acts), width, width, ','.join('{%s}' % ','.join('{%s}' % ','.join(repr(float(x)) for x in row) for row in m) for m in w))
    gen += 'static const double REF_B[%d][%d] = {%s};\n' % (len(acts), width, ','.join('{%s}' % ','.join(repr(float(x)) for x in m) for m in b))
    return gen


def constants(sizes, acts, method):
    """the numbers in the generated code, for any weights and biases"""
    def f(v):
        w = [v.array('w%d' % l, (sizes[l], sizes[l + 1]), -1000, 1000) for l in range(len(acts))]
        b = [v.array('b%d' % l, (sizes[l + 1],), -1000, 1000) for l in range(len(acts))]
        from emlearn import net
        if method == 'inline':
            code = net.c_generate_net_inline(acts, w, b, 'thenet')
        else:
            code = net.c_generate_net_loadable(acts, w, b, 'thenet')
        half = pysym.Fraction(5, 10**7)
        for l in range(len(acts)):
            for what, want in (('weights', [w[l][i, o] for i in range(sizes[l]) for o in range(sizes[l + 1])]), ('biases', list(b[l]))):
                m = re.search(r'float thenet_layer_%d_%s\[(\d+)\] = \{([^}]*)\};' % (l, what), code)
                v.check(m is not None, 'layer %d: %s declared' % (l, what))
                parts = m.group(2).split(',')
                v.check(int(m.group(1)) == len(want) and len(parts) == len(want), 'layer %d: number of %s' % (l, what))
                for text, x in zip(parts, want):
                    lo, hi = pysym.denoted(v, text)
                    tiny = 0 if v.symbolic else pysym.Fraction(abs(x)) / 2**50
                    v.check(And(lo >= x - half - tiny, hi <= x + half + tiny), 'layer %d: %s to six decimals, inputs by outputs' % (l, what))
        v.reach('constants')
    return f


REFUSED = [
    ('no bias', lambda w, b: [stub('Dense', use_bias=False, activation=act('relu'), get_weights=lambda: [w])]),
    ('other layer', lambda w, b: [stub('Dense', use_bias=True, activation=act('relu'), get_weights=lambda: [w, b]), stub('Conv2D')]),
    ('leaky', lambda w, b: [stub('Dense', use_bias=True, activation=act('linear'), get_weights=lambda: [w, b]), stub('ReLU', negative_slope=0.1, threshold=0.0, max_value=None)]),
    ('threshold', lambda w, b: [stub('Dense', use_bias=True, activation=act('linear'), get_weights=lambda: [w, b]), stub('ReLU', negative_slope=0.0, threshold=0.5, max_value=None)]),
    ('maximum', lambda w, b: [stub('Dense', use_bias=True, activation=act('linear'), get_weights=lambda: [w, b]), stub('ReLU', negative_slope=0.0, threshold=0.0, max_value=6.0)]),
    ('axis', lambda w, b: [stub('Dense', use_bias=True, activation=act('linear'), get_weights=lambda: [w, b]), stub('Softmax', axis=0)]),
    ('two activations', lambda w, b: [stub('Dense', use_bias=True, activation=act('relu'), get_weights=lambda: [w, b]), stub('Softmax', axis=-1)]),
    ('activation first', lambda w, b: [stub('Activation', activation=act('tanh')), stub('Dense', use_bias=True, activation=act('relu'), get_weights=lambda: [w, b])]),
    ('rectifier first', lambda w, b: [stub('ReLU', negative_slope=0.0, threshold=0.0, max_value=None), stub('Dense', use_bias=True, activation=act('linear'), get_weights=lambda: [w, b])]),
    ('tanh and relu', lambda w, b: [stub('Dense', use_bias=True, activation=act('linear'), get_weights=lambda: [w, b]), stub('Activation', activation=act('tanh')), stub('ReLU', negative_slope=0.0, threshold=0.0, max_value=None)]),
    ('twice softmax', lambda w, b: [stub('Dense', use_bias=True, activation=act('softmax'), get_weights=lambda: [w, b]), stub('Softmax', axis=-1)]),
] + [
    ('twice %s%s' % (a, ' apart' * k), lambda w, b, a=a, k=k: [stub('Dense', use_bias=True, activation=act(a if not k else 'linear'), get_weights=lambda: [w, b]), stub('Dropout', rate=0.5)] + [stub('Activation', activation=act(a))] * (k + 1))
    for a in ('tanh', 'logistic', 'softmax') for k in (0, 1)
] + [
    ('unknown activation', lambda w, b: [stub('Dense', use_bias=True, activation=act('elu'), get_weights=lambda: [w, b])]),
    ('unknown activation layer', lambda w, b: [stub('Dense', use_bias=True, activation=act('linear'), get_weights=lambda: [w, b]), stub('Activation', activation=act('elu'))]),
]


def refused(name, make):
    def f(v):
        w, b = v.array('w', (2, 2), -10, 10), v.array('b', (2,), -10, 10)
        try:
            converted(stub('Sequential', layers=make(w, b)), method='loadable').save(name='net')
        except (AssertionError, NotImplementedError, ValueError, IndexError, TypeError, KeyError):
            v.reach('refused')
            return
        v.check(False, 'a layer that the C code cannot represent is refused: ' + name)
    return f


def run(r, tier):
    thorough = tier == 'thorough'
    src = open(os.path.join(core.VERIF, 'harness', 'c07.c')).read()
    jobs = []
    shapes = [(2, 2, 1), (1, 2, 2), (3, 1, 2), (1, 2, 3, 2), (2, 3, 1, 1), (1, 1, 1, 1, 1)]
    k = 0
    for s in shapes:
        n = len(s) - 1
        for out in NAMES:
            hidden = [NAMES[(k + i) % 5] for i in range(n - 1)]
            if hidden.count('softmax') and max(s) > 2:
                hidden = ['tanh' if h == 'softmax' else h for h in hidden]
            k += 1
            jobs.append((s, hidden + [out], k % 3 - 1 if k % 3 > 1 else 0))
    if thorough:
        for s in [(3, 3, 3), (2, 2, 2, 2), (4, 3, 2), (1, 4, 1)]:
            for a in itertools.product(NAMES, repeat=len(s) - 1):
                jobs.append((s, list(a), 0))
    done = set()
    lls = []
    for s, a, spare in jobs:
        name = 'any-%s-%s' % ('.'.join(map(str, s)), '.'.join(a))
        if name in done:
            continue
        done.add(name)
        lls.append(ll.LLJob(name, src, key='any', time_limit=2000 if thorough else 200, fallback=['FACTS'],
                            defines=['MODE=1', 'NS=' + ','.join(map(str, s)), 'AS=' + ','.join(MACROS[NAMES.index(x)] for x in a), 'SPARE=%d' % spare]))
    wide = [((18, 15, 1), ['identity'] * 2, 0), ((300, 1, 2), ['identity'] * 2, 0), ((1, 300, 1), ['identity'] * 2, 0), ((2, 1, 300), ['identity'] * 2, 0), ((1,) * 261, ['identity'] * 260, 0),
            ((2, 300, 1), ['relu', 'identity'], 1), ((2, 300, 3), ['logistic', 'tanh'], 1), ((2, 280, 1), ['softmax', 'logistic'], 1), ((3, 20, 270), ['tanh', 'softmax'], 1)]
    for s, a, pattern in wide:
        lls.append(ll.LLJob('wide-%s-%s' % ('.'.join(map(str, s)) if len(s) < 9 else 'deep', '.'.join(a[:3])), src, key='wide', time_limit=300, fallback=['FACTS'],
                            defines=['MODE=1', 'NS=' + ','.join(map(str, s)), 'AS=' + ','.join(MACROS[NAMES.index(x)] for x in a), 'SPARE=0', 'WIDE=400'] + ['PATTERN'] * pattern))
    r.bound('wide and deep networks: up to 300 inputs, units or outputs and 260 layers; with identity activations any parameters and input, with others given ones but for the last bias of every layer')
    r.bound('any weights, biases, input and buffer contents: layer sizes and activations %s' % sorted(done))
    gens = [((2, 2, 2), ['relu', 'softmax'], 'sklearn', 0), ((2, 3, 1), ['relu', 'logistic'], 'sklearn', 0), ((3, 2, 1), ['tanh', 'identity'], 'sklearn', 0),
            ((2, 2, 3), ['logistic', 'identity'], 'sklearn', 0),
            ((2, 2, 2), ['relu', 'softmax'], 'keras', 1), ((2, 2, 2, 1), ['relu', 'tanh', 'logistic'], 'keras', 2), ((2, 2, 2), ['relu', 'softmax'], 'keras', 3),
            ((2, 300, 1), ['tanh', 'identity'], 'sklearn', 0), ((300, 1, 2), ['identity', 'identity'], 'keras', 0),
            ((1, 3, 2), ['tanh', 'identity'], 'keras', 0), ((2, 2, 3), ['relu', 'identity'], 'keras', 1)]
    if thorough:
        gens += [((2, 3, 3, 2), ['relu', 'relu', 'softmax'], 'sklearn', 0), ((3, 3, 2), ['relu', 'softmax'], 'keras', 2), ((2, 4, 2), ['relu', 'identity'], 'keras', 1),
                 ((2, 2, 2, 2), ['relu', 'relu', 'identity'], 'sklearn', 0)]
    for i, (s, a, kind, layers) in enumerate(gens):
        for method in ('loadable', 'inline'):
            lls.append(ll.LLJob('generated-%s-%s-%s-%s-%d' % (kind, method, '.'.join(map(str, s)), '.'.join(a), layers), src, key='generated-' + method, time_limit=2000 if thorough else 200,
                                fallback=['FACTS'], defines=['MODE=2', 'WIDE=400'] + (['INLINE'] if method == 'inline' else []), files={'gen.h': generated(s, a, 10 + i, kind, method, layers)}))
    r.bound('generated code: %d scikit-learn and Keras models (%s), loadable and inline, any input within +-10' % (len(gens), sorted({g[:1] for g in gens})))
    from emlearn import net
    tasks = []
    for s, a in [((2, 3, 1), ['relu', 'logistic']), ((3, 2, 2), ['tanh', 'softmax']), ((1, 1, 1, 2), ['relu', 'identity', 'softmax'])]:
        for method in ('loadable', 'inline'):
            tasks.append(pysym.Task('constants-%s-%s' % (method, '.'.join(map(str, s))), constants(s, a, method), modules=[net], key='constants-' + method))
    tasks += [pysym.Task('refused-' + n.replace(' ', '-'), refused(n, m), modules=[net], key='refused') for n, m in REFUSED]
    r.bound('constants: any weights and biases within +-1000 for three networks')
    r.assume('exact real arithmetic; exp, log and tanh are uninterpreted functions')
    core.all_of(r, lambda: ll.run_jobs(r, lls), lambda: pysym.run_tasks(r, tasks))
