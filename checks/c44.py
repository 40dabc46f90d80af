"""convert(): the converter, inference method and options for every kind of model."""
import importlib
import re
import types

import numpy

from vlib import pysym
from vlib.pysym import And, Not, Or
from checks.c42 import instead

LEVEL = 'other'

TREES = ['RandomForestClassifier', 'ExtraTreesClassifier', 'DecisionTreeClassifier', 'RandomForestRegressor', 'ExtraTreesRegressor', 'DecisionTreeRegressor']
SUPPORTED = TREES + ['EllipticEnvelope', 'GaussianMixture', 'BayesianGaussianMixture', 'MLPClassifier', 'MLPRegressor', 'Sequential', 'GaussianNB', 'KNeighborsClassifier']


def mod(name):
    return importlib.import_module('emlearn.' + name)


class Recorded(Exception):
    pass


def target(calls, name, f, *params):
    """stands for a converter with these parameters (and their defaults)"""
    def call(*args, **kw):
        given = {}
        for (p, _), a in zip(params, args):
            given[p] = a
        for k, x in kw.items():
            if k in given:
                raise TypeError('argument given twice')
            given[k] = x
        known = {p for p, _ in params}
        extra = [k for k in given if k not in known]
        if extra or len(args) > len(params):
            raise TypeError('unknown arguments %s' % extra)
        for p, default in params:
            given.setdefault(p, default)
        out = object()
        calls.append((name, given, out))
        return out
    return call


def with_targets(calls):
    e, m = ('estimator', Ellipsis), ('method', None)
    return [
        (mod('trees'), dict(Wrapper=target(calls, 'trees', None, e, m, ('dtype', None), ('leaf_bits', None)))),
        (mod('distance'), dict(Wrapper=target(calls, 'distance', None, e, ('classifier', None), ('dtype', 'float')))),
        (mod('mixture'), dict(Wrapper=target(calls, 'mixture', None, e, ('classifier', None), ('dtype', 'float'), ('verbose', 0)))),
        (mod('net'), dict(convert_sklearn_mlp=target(calls, 'mlp', None, ('model', Ellipsis), m, ('return_type', 'classifier'), ('use_fixedpoint', False)),
                          convert_keras=target(calls, 'keras', None, ('model', Ellipsis), m, ('return_type', 'classifier'), ('use_fixedpoint', False)))),
        (mod('bayes'), dict(Wrapper=target(calls, 'bayes', None, e, m))),
        (mod('neighbors'), dict(Wrapper=target(calls, 'neighbors', None, e, ('inference', None), ('return_type', 'classifier')))),
    ]


def converted(args, kw):
    """(target, arguments, result of the target, result of convert)"""
    import contextlib
    calls = []
    with contextlib.ExitStack() as stack:
        for obj, names in with_targets(calls):
            stack.enter_context(instead(obj, **names))
        out = mod('convert').convert(*args, **kw)
    if len(calls) != 1:
        return None, {}, None, out
    return calls[0] + (out,)


def expected(kind):
    if kind in TREES:
        return 'trees'
    return {'EllipticEnvelope': 'distance', 'GaussianMixture': 'mixture', 'BayesianGaussianMixture': 'mixture', 'MLPClassifier': 'mlp', 'MLPRegressor': 'mlp',
            'Sequential': 'keras', 'GaussianNB': 'bayes', 'KNeighborsClassifier': 'neighbors'}[kind]


def check_arguments(v, name, given, estimator, method, dtype, return_type, extra):
    v.check(given.get('estimator', given.get('model')) is estimator, 'the model that was given')
    used = next(given[k] for k in ('method', 'classifier', 'inference') if k in given)
    v.check(used is method, 'the method that was given')
    if name == 'trees':
        v.check(given['dtype'] is dtype, 'the data type that was given')
        v.check(given['leaf_bits'] is extra.get('leaf_bits'), 'the leaf bits that were given')
    elif name in ('distance', 'mixture'):
        if dtype is None:
            v.check(given['dtype'] == 'float', 'single precision unless asked otherwise')
        else:
            v.check(given['dtype'] is dtype, 'the data type that was given')
    elif name in ('mlp', 'keras'):
        if return_type is None:
            v.check(given['return_type'] == 'classifier', 'a classifier unless asked otherwise')
        else:
            v.check(given['return_type'] is return_type, 'the return type that was given')
        v.check(given['use_fixedpoint'] is extra.get('use_fixedpoint', False), 'the fixed point option that was given')


def dispatch(maxlen):
    """any text as kind; arguments are given or not"""
    def body(v):
        kind = v.string('kind', maxlen)
        estimator = object()
        kw = dict(method='m' + 'ethod', dtype='d' + 'type', return_type='some' + 'thing') if v.bool('with_options') else {}
        try:
            name, given, inner, out = converted((estimator, kind), dict(kw))
        except ValueError:
            for k in SUPPORTED:
                v.check(Not(kind == k), 'supported kind %s refused' % k)
            v.reach('refused')
            return
        v.check(name is not None, 'one converter is used')
        v.check(Or(*[kind == k for k in SUPPORTED if expected(k) == name]), 'the converter for that kind')
        v.check(out is inner, 'what the converter made is returned')
        check_arguments(v, name, given, estimator, kw.get('method'), kw.get('dtype'), kw.get('return_type'), {})
        v.reach(name)
    return body


def by_class(v):
    """the kind is the name of the class of the model unless it is given; options of the converter are passed on"""
    kinds = SUPPORTED + ['SVC', 'RandomForest', 'MLP', 'Pipeline', 'Model']
    i = v.int('class', 0, len(kinds) - 1)
    explicit = v.bool('explicit')
    with_extra = v.bool('with_extra')
    kind = None
    for j, k in enumerate(kinds):
        if i == j:
            kind = k
    estimator = type('Other' if explicit else kind, (), {})()
    extra = {}
    if with_extra and kind in TREES:
        extra = dict(leaf_bits=v.int('leaf_bits', 0, 32))
    if with_extra and kind in ('MLPClassifier', 'MLPRegressor', 'Sequential'):
        extra = dict(use_fixedpoint=object())
    kw = {}
    if v.bool('with_method'):
        kw['method'] = 'm' + 'ethod'
    if v.bool('with_dtype'):
        kw['dtype'] = 'd' + 'type'
    if v.bool('with_return_type'):
        kw['return_type'] = 'some' + 'thing'
    try:
        name, given, inner, out = converted((estimator,), dict(extra, kind=kind, **kw) if explicit else dict(extra, **kw))
    except ValueError:
        v.check(kind not in SUPPORTED, 'supported class refused')
        v.reach('refused')
        return
    v.check(kind in SUPPORTED, 'unsupported class converted')
    v.check(name == expected(kind), 'the converter for that class')
    v.check(out is inner, 'what the converter made is returned')
    check_arguments(v, name, given, estimator, kw.get('method'), kw.get('dtype'), kw.get('return_type'), extra)
    v.reach(name)


# inference methods and return types -----------------------------------------------------------------------------------------------------------
class Compiled:
    made = []

    def __init__(self, code, name, **kw):
        Compiled.made.append((code, name, kw))


def models(v):
    from emlearn import net
    a = lambda *shape: numpy.ones(shape)
    tree = types.SimpleNamespace(node_count=3, children_left=numpy.array([1, -1, -1]), children_right=numpy.array([2, -1, -1]), feature=numpy.array([0, -2, -2]),
                                 threshold=numpy.array([1.0, -2, -2]), value=numpy.array([[[2.0, 2.0]], [[2.0, 0.0]], [[0.0, 2.0]]]))
    e = lambda name, **kw: type(name, (), kw)()
    return {
        'trees': (e('DecisionTreeClassifier', tree_=tree, n_features_in_=1, n_classes_=2), dict()),
        'bayes': (e('GaussianNB', theta_=a(2, 2), var_=a(2, 2)), dict()),
        'distance': (e('EllipticEnvelope', get_precision=lambda self: numpy.eye(2), location_=a(2), offset_=-1.0), dict()),
        'neighbors': (e('KNeighborsClassifier', _fit_X=a(3, 2), _y=numpy.array([0, 1, 1]), n_neighbors=1, effective_metric_='euclidean', weights='uniform', algorithm='brute',
                        fit=lambda self: self), dict()),
        'mlp': (e('MLPClassifier', n_layers_=3, coefs_=[a(2, 2), a(2, 1)], intercepts_=[a(2), a(1)], activation='relu', out_activation_='logistic'), dict()),
    }


METHODS = {'trees': ['inline', 'loadable'], 'bayes': ['loadable'], 'distance': ['inline'], 'neighbors': ['loadable'], 'mlp': ['inline', 'loadable']}


def method(which):
    def body(v):
        given = v.bool('given')
        m = v.string('method', 9) if given else None
        estimator, kw = models(v)[which]
        Compiled.made = []
        import sklearn.utils.validation
        with instead(mod('common'), CompiledClassifier=Compiled), instead(sklearn.utils.validation, check_is_fitted=lambda e: None):
            try:
                out = mod('convert').convert(estimator, method=m, **kw)
            except (ValueError, NotImplementedError):
                v.check(given, 'a model can be converted without naming a method')
                for k in METHODS[which]:
                    v.check(Not(m == k), 'supported method %s refused' % k)
                v.reach('refused')
                return
        v.check(numpy.geterr() == dict(divide='warn', over='warn', under='ignore', invalid='warn'), 'error handling of NumPy is what it was before emlearn was imported')
        if given:
            v.check(Or(*[m == k for k in METHODS[which]]), 'a method that does not exist is refused')
        v.check(out is not None, 'a model is returned')
        v.check(len(Compiled.made) <= 1, 'one program')
        v.reach('converted')
    return body


def return_type(v):
    kinds = ['classifier', 'regressor']
    r = v.string('return_type', 10)
    estimator, kw = models(v)['mlp']
    Compiled.made = []
    with instead(mod('common'), CompiledClassifier=Compiled):
        try:
            out = mod('convert').convert(estimator, method='loadable', return_type=r)
        except ValueError:
            for k in kinds:
                v.check(Not(r == k), 'supported return type %s refused' % k)
            v.reach('refused')
            return
    v.check(len(Compiled.made) == 1, 'one program')
    call = Compiled.made[0][2]['call']
    v.check(Or(And(r == 'classifier', 'eml_net_predict(' in call), And(r == 'regressor', 'eml_net_regress1(' in call)), 'a return type that does not exist is refused, and the others call their function')
    v.check(Or(r == 'classifier', Compiled.made[0][2].get('out_dtype') == 'float'), 'a regressor returns a real number')
    v.reach('converted')


def subclass(v):
    """subclasses of any name, converted by naming the kind of the class they derive from"""
    i = v.int('base', 0, len(TREES) - 1)
    bits = v.int('leaf_bits', 0, 40)
    with_bits = v.bool('with_bits')
    depth = v.int('depth', 0, 2)
    base = None
    for j, k in enumerate(TREES):
        if i == j:
            base = k
    cls = type(base, (), {})
    for d in range(int(depth)):
        cls = type('Custom%d' % d, (cls,), {})
    regressor = base.endswith('Regressor')
    estimator = cls()
    single = types.SimpleNamespace(tree_=object(), n_features_in_=3)
    if not regressor:
        single.n_classes_ = 2
    if base.startswith('DecisionTree'):
        estimator.__dict__.update(single.__dict__)
    else:
        estimator.estimators_ = [single, single]
    asked = []

    def flatten(trees, leaf='argmax', leaf_bits=None):
        asked.append((list(trees), leaf, leaf_bits))
        return object()
    trees = mod('trees')
    with instead(trees, flatten_forest=flatten, remove_duplicate_leaves=lambda f: f):
        out = mod('convert').convert(estimator, kind=base, **(dict(leaf_bits=bits) if with_bits else {}))
    v.check(out.is_classifier == (not regressor), 'a subclass does what its class does')
    v.check(out.out_dtype == ('float' if regressor else 'int'), 'type of the output')
    v.check(len(asked) == 1 and asked[0][0] == [single.tree_] * (1 if base.startswith('DecisionTree') else 2), 'all trees of the model')
    leaf, used = asked[0][1:]
    if regressor:
        v.check(leaf == 'value', 'leaves of a regression are values')
        v.check(with_bits or used == 32, 'regression leaves have 32 bits')
    else:
        proba = And(bits >= 2, bits <= 8) if with_bits else False
        v.check((leaf == 'probabilities') == proba, 'leaves are class proportions with 2 to 8 bits')
        v.check(leaf == 'probabilities' or leaf == 'argmax', 'leaves of a classifier')
        v.check(used == ((0 if bits == 1 else bits) if with_bits else 0), 'bits of a leaf')
    v.check(out.method == 'inline' and out.dtype == 'int16_t', 'defaults')
    v.reach('regressor' if regressor else 'classifier')


def run(r, tier):
    thorough = tier == 'thorough'
    convert = mod('convert')
    mods = [convert] + [mod(m) for m in ('trees', 'distance', 'mixture', 'net', 'bayes', 'neighbors')]
    kind = pysym.Task('kind', dispatch(40 if thorough else 26), modules=[convert], key='dispatch')
    # names of classes, in whichever module the tables are
    kind._strings = sorted(set(SUPPORTED) | {s for s in pysym.known_strings(mods) if re.fullmatch('[A-Z][A-Za-z]+', s)})
    tasks = [kind,
             pysym.Task('class', by_class, modules=[convert], key='dispatch'),
             pysym.Task('subclass', subclass, modules=[mod('trees')], key='subclass'),
             pysym.Task('return-type', return_type, modules=[convert, mod('net')], key='return-type')]
    for which in METHODS:
        tasks.append(pysym.Task('method-' + which, method(which), modules=[mod('convert'), mod(which if which != 'mlp' else 'net')], key='method'))
    r.bound('any kind of up to 26 characters, any inference method of up to 9 and return type of up to 10 characters; options given or not; leaf bits 0..40; classes and two levels of subclasses of each')
    r.assume('the converters themselves are decided by the other properties; compiling the generated program is replaced by a recorder')
    pysym.run_tasks(r, tasks)
