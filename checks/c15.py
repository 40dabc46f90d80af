"""Conversion of covariance structures to full form: the real Python code on symbolic precision factors."""
from vlib import pysym

LEVEL = 'other'


def good(kind, k, n):
    def f(v):
        import numpy
        from emlearn import mixture
        means = numpy.zeros((k, n))
        shape = {'full': (k, n, n), 'tied': (n, n), 'diag': (k, n), 'spherical': (k,)}[kind]
        p = v.array('p', shape)
        before = p.copy()
        out = mixture.convert_to_full(means, p, kind)
        v.check(tuple(numpy.shape(out)) == (k, n, n), 'one matrix per component')
        for c in range(k):
            for i in range(n):
                for j in range(n):
                    want = {'full': lambda: p[c, i, j], 'tied': lambda: p[i, j],
                            'diag': lambda: p[c, i] if i == j else 0.0, 'spherical': lambda: p[c] if i == j else 0.0}[kind]()
                    v.same(out[c][i][j], want, 'factor of component %d at %d,%d' % (c, i, j))
        for i in numpy.ndindex(*shape):
            v.same(p[i], before[i], 'input not modified')
        v.reach(kind)
    return f


def bad(kind, shape, k, n):
    def f(v):
        import numpy
        from emlearn import mixture
        p = v.array('p', shape)
        try:
            mixture.convert_to_full(numpy.zeros((k, n)), p, kind)
        except (ValueError, AssertionError, IndexError, TypeError):
            v.reach('refused')
            return
        v.check(False, 'shape %s for %s refused' % (shape, kind))
    return f


def run(r, tier):
    from emlearn import mixture
    tasks = []
    sizes = [(1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (2, 5)] + ([(4, 5), (5, 4), (6, 6)] if tier == 'thorough' else [])
    for kind in ('full', 'tied', 'diag', 'spherical'):
        for k, n in sizes:
            tasks.append(pysym.Task('%s-%dx%d' % (kind, k, n), good(kind, k, n), modules=[mixture]))
    k, n = 2, 3
    for kind, shapes in {'full': [(2, 3), (2, 2, 3), (3, 3, 3), (2, 3, 2)], 'tied': [(2, 3, 3), (2, 3), (3, 2), (2, 2), (3,)],
                         'diag': [(3, 2), (2, 2), (3, 3), (2,), (2, 3, 3)], 'spherical': [(3,), (1,), (2, 3), (2, 1)], 'other': [(2, 3, 3)], '': [(2, 3, 3)], 'Full': [(2, 3, 3)]}.items():
        for s in shapes:
            tasks.append(pysym.Task('bad-%s-%s' % (kind, 'x'.join(map(str, s))), bad(kind, s, k, n), modules=[mixture]))
    r.bound('components and features up to %s, any real factors; %d wrong shapes or types for 2 components, 3 features' % (sizes[-1], len(tasks) - 4 * len(sizes)))
    pysym.run_tasks(r, tasks)
