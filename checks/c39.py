"""Predictions through the Python wrappers: numbers there, the generated program, and numbers back."""
import os
import shutil
import subprocess
import tempfile

import numpy

from vlib import core, ll, pysym, trees
from vlib.pysym import And
from checks import c07, c16

LEVEL = 'other'
EXACT = pysym.Fraction(1, 2**26)    # a relative error below this keeps a feature within one unit in the last place of single precision


class FakeCompiler:
    """stands for the C compiler: keeps the program"""
    last = None

    def __init__(self, *a, **k):
        pass

    def executable_filename(self, name, *a, **k):
        return name

    def compile(self, sources, **k):
        dirs = list(k.get('include_dirs') or [])
        FakeCompiler.last = (open(sources[0]).read(), dirs, {f: open(os.path.join(d, f)).read() for d in dirs[:1] for f in os.listdir(d) if f.endswith('.h')})
        return ['object']

    def link(self, *a, **k):
        pass


def programs(make):
    """every program built while make() runs: (C text, header files, arguments)"""
    from emlearn import common
    out = []
    keep, old = common.new_compiler, os.getcwd()
    real = common.build_classifier

    def build(cmodel, name, *a, **k):
        p = real(cmodel, name, *a, **k)
        code, dirs, files = FakeCompiler.last
        out.append((name, code, files))
        return p
    common.new_compiler = FakeCompiler
    common.build_classifier = build
    d = tempfile.mkdtemp(prefix='vf-c39-')
    try:
        os.chdir(d)
        make()
    finally:
        os.chdir(old)
        common.new_compiler = keep
        common.build_classifier = real
        for root, dirs, files in os.walk(d, topdown=False):
            for f in files:
                os.remove(os.path.join(root, f))
            os.rmdir(root)
    return out


# ---- the Python side

class Program:
    """stands for the compiled program: one line for each row (and class), in the order of the rows"""

    def __init__(self, v, X, outputs, proba, short=False):
        self.v, self.X, self.outputs, self.proba, self.calls, self.short = v, X, outputs, proba, 0, short

    def check_output(self, args, input=None, **k):
        v, X = self.v, self.X
        self.calls += 1
        v.check(isinstance(input, str), 'text is passed to the program')
        lines = input.split('\n')
        if lines and lines[-1] == '':
            lines = lines[:-1]
        v.check(len(lines) == len(X), 'one line for each row')
        for i, line in enumerate(lines):
            cells = line.split(',')
            v.check(len(cells) == len(X[i]), 'one value for each feature')
            v.check(len(line) < 256 * 1024 - 2, 'a line that the program can read')
            for k in range(0, len(cells), 30):
                close = []
                for c, x in zip(cells[k:k + 30], list(X[i])[k:k + 30]):
                    lo, hi = pysym.denoted(v, c)
                    tol = abs(x) * EXACT
                    close += [lo >= x - tol, hi <= x + tol]
                v.check(And(*close), 'the feature keeps its value')
        text = ''
        for i in range(len(X) - (1 if self.short else 0)):
            if self.proba:
                for c in range(len(self.outputs[i])):
                    text += '%d,%d,%s\n' % (i, c, v.text(self.outputs[i][c]))
            else:
                text += '%d,%s\n' % (i, v.text(self.outputs[i]))
        return text

    def run(self, args, input=None, stdout=None, **k):
        t = self.check_output(args, input=input)
        o = type('CompletedProcess', (), {})()
        o.stdout, o.returncode = t, 0
        return o


def installed(v, program, f):
    from emlearn import common
    keep = common.subprocess, common.build_classifier, common.check_array
    s = type('subprocess', (), {})()
    s.check_output, s.run = program.check_output, program.run
    s.PIPE, s.CalledProcessError = subprocess.PIPE, subprocess.CalledProcessError
    common.subprocess = s
    common.build_classifier = lambda cmodel, name, *a, **k: name
    common.check_array = lambda a, *b, **k: a
    try:
        return f()
    finally:
        common.subprocess, common.build_classifier, common.check_array = keep


def classifier(rows, cols, dtype, method='predict', classes=3, lo=-10**6, hi=10**6, short=False):
    def f(v):
        from emlearn import common
        X = v.array('x', (rows, cols), lo, hi)
        if method == 'predict_proba':
            outs = [[v.real('o%d.%d' % (i, c), 0, 1) for c in range(classes)] for i in range(rows)]
        elif dtype == 'int':
            outs = [v.int('o%d' % i, -2**31, 2**31 - 1) for i in range(rows)]
        else:
            outs = [v.real('o%d' % i) for i in range(rows)]
        p = Program(v, X, outs, method == 'predict_proba', short)

        def go():
            c = common.CompiledClassifier('', 'name', call='f(values, length)', out_dtype=dtype, proba_call='g(values, length, outputs)', n_classes=classes)
            return getattr(c, method)(X)
        try:
            got = installed(v, p, go)
        except (AssertionError, ValueError) as e:
            v.check(short, 'an answer for every row: ' + repr(e)[:80])
            v.reach('short')
            return
        v.check(not short, 'too few answers are an error')
        v.check(len(got) == rows, 'one answer for each row')
        for i in range(rows):
            if method == 'predict_proba':
                for c in range(classes):
                    v.equal(got[i][c], outs[i][c], 'probability of the row and class')
            else:
                v.equal(got[i], outs[i], 'answer of the row')
        v.reach(method)
    return f


def wrapper(name, make, cols, dtype, method='predict', classes=2):
    """the object that convert() gives"""
    rows = 2

    def f(v):
        X = v.array('x', (rows, cols), -1000, 1000)
        if method == 'predict_proba':
            outs = [[v.real('o%d.%d' % (i, c), 0, 1) for c in range(classes)] for i in range(rows)]
        elif dtype == 'int':
            outs = [v.int('o%d' % i, -20, 126) for i in range(rows)]
        else:
            outs = [v.real('o%d' % i) for i in range(rows)]
        p = Program(v, X, outs, method == 'predict_proba')
        try:
            got = installed(v, p, lambda: getattr(make(), method)(X))
        except ValueError:
            v.check(pysym.Or(*[o < 0 for o in outs]) if dtype == 'int' and method == 'predict' else False, 'only errors of the C code are errors')
            v.reach('error')
            return
        v.check(len(got) == rows, 'one answer for each row')
        for i in range(rows):
            if method == 'predict_proba':
                for c in range(classes):
                    v.equal(got[i][c], outs[i][c], 'probability of the row and class')
            else:
                v.equal(got[i], outs[i], 'answer of the row')
        v.reach(method)
    return f


class Disk:
    """stands for the compiler and the programs that it made: which of them is in which file"""

    def __init__(self):
        self.now, self.programs, self.outputs = None, {}, {}

    def compiler(self, *a, **k):
        disk = self

        class Compiler(FakeCompiler):
            def link(self, kind, objects, output_filename, output_dir=None, **k):
                disk.programs[os.path.abspath(os.path.join(output_dir or '', output_filename))] = disk.now
        return Compiler()


def several(make, cols, dtype, method='predict', classes=2):
    """models that exist at the same time: each answers for itself"""
    rows, n = 1, 2

    def f(v):
        from emlearn import common
        X = v.array('x', (rows, cols), -1000, 1000)
        outs = []
        for m in range(n):
            if method == 'predict_proba':
                outs.append([[v.real('o%d.%d.%d' % (m, i, c), 0, 1) for c in range(classes)] for i in range(rows)])
            elif dtype == 'int':
                outs.append([v.int('o%d.%d' % (m, i), 0, 126) for i in range(rows)])
            else:
                outs.append([v.real('o%d.%d' % (m, i)) for i in range(rows)])
        disk = Disk()

        class Programs:
            def check_output(self, args, **k):
                path = os.path.abspath(args[0])
                v.check(path in disk.programs, 'a program that was built')
                return Program(v, X, outs[disk.programs[path]], method == 'predict_proba').check_output(args, **k)

            def run(self, args, **k):
                return Program.run(self, args, **k)
        keep, old = (common.subprocess, common.new_compiler, common.check_array), os.getcwd()
        s = type('subprocess', (), {})()
        s.check_output, s.run = Programs().check_output, Programs().run
        s.PIPE, s.CalledProcessError = subprocess.PIPE, subprocess.CalledProcessError
        d = tempfile.mkdtemp(prefix='vf-c39-')
        try:
            os.chdir(d)
            common.subprocess, common.new_compiler, common.check_array = s, disk.compiler, lambda a, *b, **k: a
            ws = []
            for m in range(n):
                disk.now = m
                ws.append(make(m))
                if hasattr(ws[m], '_build_classifier'):
                    ws[m]._build_classifier()
            for m in range(n):
                disk.now = m        # where the program is built only when it is needed
                got = getattr(ws[m], method)(X)
                v.check(len(got) == rows, 'one answer for each row')
                for i in range(rows):
                    if method == 'predict_proba':
                        for c in range(classes):
                            v.equal(got[i][c], outs[m][i][c], 'probability from the model that is asked')
                    else:
                        v.equal(got[i], outs[m][i], 'answer of the model that is asked')
        finally:
            os.chdir(old)
            common.subprocess, common.new_compiler, common.check_array = keep
            shutil.rmtree(d)
        v.reach('several')
    return f


# ---- models

def stub(name, **attributes):
    return c07.stub(name, **attributes)


def tree_model(classes, method, dtype, other=0):
    L, N = trees.leaf, trees.node
    if classes:
        onehot = lambda c: tuple(1.0 if i == c else 0.0 for i in range(classes))
        specs = [N(0, 2.0 + other, L(*onehot(0)), N(1, -3.0, L(*onehot(classes - 1)), L(*onehot(1)))), N(1, 5.0, N(0, -4.0, L(*onehot(1)), L(*onehot(0))), L(*onehot(classes - 1)))]
    else:
        specs = [N(0, 2.0 + other, L(1.5), N(1, -3.0, L(-2.25), L(0.5))), N(1, 5.0, L(0.000001), L(-100.0))]
    m = trees.Model('m', specs, 2, classes)
    return lambda: trees.convert(m.estimator(), method=method, dtype=dtype)


def net_model(method, kind, outputs, other=0):
    import emlearn
    rng = numpy.random.RandomState(outputs + 100 * other)
    w = [rng.randint(-64, 65, (2, 2)) / 64.0, rng.randint(-64, 65, (2, outputs)) / 64.0]
    b = [rng.randint(-64, 65, 2) / 64.0, rng.randint(-64, 65, outputs) / 64.0]
    est = c07.MLP(w, b, 'identity', {'MLPRegressor': 'identity'}.get(kind, 'softmax' if outputs > 1 else 'logistic'))
    return lambda: emlearn.convert(est, kind=kind, method=method, return_type='regressor' if kind == 'MLPRegressor' else 'classifier')


def bayes_model(classes, other=0):
    import emlearn
    rng = numpy.random.RandomState(classes + 100 * other)
    est = stub('GaussianNB', theta_=rng.randint(-64, 65, (classes, 2)) / 8.0, var_=rng.randint(8, 65, (classes, 2)) / 8.0, class_prior_=numpy.ones(classes) / classes, classes_=numpy.arange(classes))
    return lambda: emlearn.convert(est, kind='GaussianNB', method='loadable')


def neighbors_model(other=0):
    from sklearn.neighbors import KNeighborsClassifier
    import emlearn
    X = numpy.array([[other, 0], [10, 2], [-20, 7], [3, 30]])
    est = KNeighborsClassifier(n_neighbors=1, algorithm='brute').fit(X, [0, 1, 2, 1])
    return lambda: emlearn.convert(est)


def distance_model():
    import emlearn
    est = c16.Estimator(numpy.array([1.0, -2.5]), numpy.array([[2.0, 0.5], [0.5, 1.25]]), -3.0)
    return lambda: emlearn.convert(est, kind='EllipticEnvelope', method='inline')


def models():
    """name: (make, features, kind of output, features as, C code of the answer, C code of the probabilities, classes)"""
    cast = 'int16_t f[COLS]; for (int i = 0; i < COLS; i++) { f[i] = (int16_t)x[i]; } '
    same = 'const float *f = x; '
    m = {}
    for method in ('loadable', 'inline'):
        for dtype, conv in (('int16_t', cast), ('float', same)):
            if method == 'loadable' and dtype == 'float':
                continue
            for classes in (2, 3):
                m['trees-%s-%s-%d' % (method, dtype, classes)] = (tree_model(classes, method, dtype), 2, 'int', conv + 'return mytree_predict(f, COLS);', conv + 'mytree_predict_proba(f, COLS, out, CLASSES);', classes)
            m['trees-%s-%s-regression' % (method, dtype)] = (tree_model(0, method, dtype), 2, 'float', conv + 'return mytree_predict(f, COLS);', None, 0)
    m['net-loadable-3'] = (net_model('loadable', 'MLPClassifier', 3), 2, 'int', 'return eml_net_predict(&mynet, x, COLS);', 'eml_net_predict_proba(&mynet, x, COLS, out, CLASSES);', 3)
    m['net-loadable-1'] = (net_model('loadable', 'MLPClassifier', 1), 2, 'int', 'return eml_net_predict(&mynet, x, COLS);', 'eml_net_predict_proba(&mynet, x, COLS, out, CLASSES);', 2)
    m['net-inline'] = (net_model('inline', 'MLPClassifier', 3), 2, 'int', 'return mynet_predict(x, COLS);', None, 3)
    m['net-regression'] = (net_model('loadable', 'MLPRegressor', 1), 2, 'float', 'return eml_net_regress1(&mynet, x, COLS);', None, 1)
    m['bayes'] = (bayes_model(3), 2, 'int', 'return eml_bayes_predict(&mybayes_model, x, COLS);', None, 3)
    m['neighbors'] = (neighbors_model(), 2, 'int', cast + 'EmlNeighborsDistanceItem d[8]; int16_t o = -1; const EmlError e = eml_neighbors_predict(&%s, f, COLS, d, 8, &o); return e == EmlOk ? o : -(int)e;', None, 3)
    m['distance'] = (distance_model(), 2, 'float', 'float d = 0.0f; eml_elliptic_envelope_predict(&my_inline_elliptic_classifier, x, COLS, &d); return d;', None, 0)
    return m


def program_jobs(r, name, spec, rows, src, thorough):
    make, cols, out, answer, proba, classes = spec

    def build():
        w = make()
        if hasattr(w, '_build_classifier'):
            w._build_classifier()
    built = programs(build)
    jobs = []
    for pname, code, files in built:
        isp = pname.endswith('_proba')
        if isp and not proba:
            continue
        text = files[pname + '.h']
        if '%s' in answer:
            import re
            model = re.search(r'EmlNeighborsModel\s+(\w+)', text).group(1)
            answer = answer % model
        fs = dict(files)
        fs['program.c'] = code
        body = 'static %s expect(const float *x) { %s }\n' % ('double', answer)
        if isp:
            body = 'static void expect(const float *x, float *out) { %s }\n' % proba
        defines = ['COLS=%d' % cols, 'ROWS=%d' % rows, 'CLASSES=%d' % max(classes, 1)] + (['PROBA'] if isp else []) + (['REAL'] if out == 'float' else [])
        bound = 30 if name == 'bayes' else 1000
        if 'int16' in answer or name == 'neighbors':
            bound = 32000
        defines.append('BOUND=%d' % bound)
        fs['expect.h'] = core.own_macros(body, defines)[0]
        jobs.append(ll.LLJob('program-%s%s' % (name, '-proba' if isp else ''), src, key='program', defines=defines, files=fs, time_limit=600 if thorough else 120, replace={'eml_bayes_predict': 'vh_bayes', 'eml_neighbors_predict': 'vh_neighbors'}))
    if not built:
        raise core.CheckError('no program built for ' + name)
    return jobs


def run(r, tier):
    from emlearn import common, convert  # noqa
    from emlearn import trees as etrees, net, bayes, distance, neighbors
    thorough = tier == 'thorough'
    ms = models()
    tasks = []
    for rows, cols in ((1, 1), (2, 3), (3, 2)) + (((5, 8),) if thorough else ()):
        for dtype in ('int', 'float'):
            tasks.append(pysym.Task('predict-%s-%d.%d' % (dtype, rows, cols), classifier(rows, cols, dtype), modules=[common], key='predict'))
        for k in (2, 3):
            tasks.append(pysym.Task('proba-%d.%d.%d' % (rows, cols, k), classifier(rows, cols, 'int', 'predict_proba', k), modules=[common], key='proba'))
        tasks.append(pysym.Task('regress-%d.%d' % (rows, cols), classifier(rows, cols, 'float', 'regress'), modules=[common], key='predict'))
    for lo, hi in ((-pysym.Fraction(1, 10**6), pysym.Fraction(1, 10**6)), (-10**30, 10**30)):
        tasks.append(pysym.Task('scale-%g' % float(hi), classifier(2, 2, 'float', lo=lo, hi=hi), modules=[common], key='predict'))
    F = pysym.Fraction
    for name, lo, hi in (('tiny', F(1, 10**9), F(4, 10**9)), ('digits', F('1.2345678912345'), F('1.2345678912346')), ('large', F('123456.78912345'), F('123456.78912346')), ('negative', F('-987.654321987655'), F('-987.654321987654')),
                         ('huge', F('9.8765432123456e18'), F('9.8765432123457e18')), ('limit', F('9.8765432123456e-30'), F('9.8765432123457e-30'))):
        tasks.append(pysym.Task('window-' + name, classifier(2, 2, 'float', lo=lo, hi=hi), modules=[common], key='predict'))
    tasks.append(pysym.Task('wide', classifier(1, 300, 'int', lo=-100, hi=100), modules=[common], key='predict'))
    tasks.append(pysym.Task('short-predict', classifier(2, 2, 'int', short=True), modules=[common], key='short'))
    tasks.append(pysym.Task('short-proba', classifier(2, 2, 'int', 'predict_proba', 2, short=True), modules=[common], key='short'))
    mods = [common, etrees, net, bayes, neighbors]
    for n, (make, cols, out, _, proba, classes) in ms.items():
        if n == 'distance':
            continue
        tasks.append(pysym.Task('wrapper-' + n, wrapper(n, make, cols, out), modules=[common], key='wrapper'))
        if proba:
            tasks.append(pysym.Task('wrapper-proba-' + n, wrapper(n, make, cols, out, 'predict_proba', classes), modules=[common], key='wrapper'))
    def any_program(m):
        return common.CompiledClassifier('/* model %d */' % m, 'name', call='f(values, length)', out_dtype='int', proba_call='g(values, length, outputs)', n_classes=2)
    for n, make, cols, out, classes in (('program', any_program, 2, 'int', 2), ('net', lambda m: net_model('loadable', 'MLPClassifier', 3, m)(), 2, 'int', 3), ('net-regression', lambda m: net_model('loadable', 'MLPRegressor', 1, m)(), 2, 'float', 0),
                                        ('bayes', lambda m: bayes_model(3, m)(), 2, 'int', 0), ('neighbors', lambda m: neighbors_model(m)(), 2, 'int', 0), ('trees', lambda m: tree_model(2, 'loadable', 'int16_t', m)(), 2, 'int', 2),
                                        ('trees-regression', lambda m: tree_model(0, 'inline', 'float', m)(), 2, 'float', 0)):
        tasks.append(pysym.Task('several-' + n, several(make, cols, out), modules=[common], key='several'))
        if classes:
            tasks.append(pysym.Task('several-proba-' + n, several(make, cols, out, 'predict_proba', classes), modules=[common], key='several'))
    src = open(os.path.join(core.VERIF, 'harness', 'c39.c')).read()
    jobs = []
    for n, spec in ms.items():
        jobs += program_jobs(r, n, spec, 3 if thorough else 2, src, thorough)
    r.bound('Python: 1..3 rows (5 thorough) of 1..3 features and one row of 300, any values within 1e-6, 1e6 and 1e30; any answers of the program; two different models at the same time; %d converted models' % (len(ms) - 1))
    r.bound('program: %d models (%s), 2 rows (3 thorough) of any features within +-1000 (32000 for integer features, 30 for bayes)' % (len(ms), ', '.join(ms)))
    r.assume('the compiler, the pipe and the decimal conversions of libc and Python are replaced by their definition: a number printed with n significant digits is read back within half a unit of the last')
    core.all_of(r, lambda: ll.run_jobs(r, jobs), lambda: pysym.run_tasks(r, tasks))
