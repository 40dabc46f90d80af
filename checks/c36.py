"""Pareto front: the real Python code on symbolic costs and performances."""
from vlib import pysym
from vlib.pysym import And, Or, Not, Implies

LEVEL = 'other'


def body(n, higher, cut, names=None):
    def f(v):
        import pandas
        from emlearn.evaluate import pareto
        c, p = names or ('mean_test_compute', 'mean_test_accuracy')
        cost = [v.real('cost%d' % i) for i in range(n)]
        perf = [v.real('perf%d' % i) for i in range(n)]
        for i in range(n):
            for j in range(i):
                v.assume(Or(cost[i] != cost[j], perf[i] != perf[j]))
        lim = v.real('limit') if cut else None
        dt = object if v.symbolic else float
        index = list(range(n)) if higher else [10 * n - 3 * i for i in range(n)]
        df = pandas.DataFrame({c: pandas.Series(cost, dtype=dt), p: pandas.Series(perf, dtype=dt), 'id': list(range(n))})
        df.index = index
        if names:
            front = pareto.find_pareto_front(df, cost_metric=c, performance_metric=p, higher_is_better=higher, min_performance=lim)
        else:
            front = pareto.find_pareto_front(df, higher_is_better=higher, min_performance=lim)
        got = list(front['id'])
        v.check(got == sorted(got), 'original order')
        v.check(list(df.columns) == [c, p, 'id'], 'input not modified')
        for k, i in enumerate(got):
            v.equal(front[p].iloc[k], perf[i], 'rows of the input')
            v.equal(front[c].iloc[k], cost[i], 'rows of the input')
            v.equal(df[p].iloc[i], perf[i], 'input not modified')

        def better(a, b):       # a at least as good as b in both, the points being distinct
            return And(cost[a] <= cost[b], perf[a] >= perf[b] if higher else perf[a] <= perf[b])
        for i in range(n):
            inside = Not(Or(False, *[better(j, i) for j in range(n) if j != i]))
            if cut:
                inside = And(inside, perf[i] >= lim if higher else perf[i] <= lim)
            v.check(inside if i in got else Not(inside), 'exactly the points that no other dominates')
        v.reach('front of %d' % len(got))
    return f


def run(r, tier):
    from emlearn.evaluate import pareto
    tasks = []
    for n in range(1, 4 if tier == 'quick' else 5):
        for higher in (True, False):
            for cut in (False, True):
                if n == 4 and cut:
                    continue
                tasks.append(pysym.Task('points%d-%s-%s' % (n, 'higher' if higher else 'lower', 'cut' if cut else 'all'), body(n, higher, cut), modules=[pareto],
                             time_limit=200 if tier == 'quick' else 3000, max_paths=200000))
    for higher in (True, False):
        tasks.append(pysym.Task('names-%s' % ('higher' if higher else 'lower'), body(2, higher, True, ('cost', 'mean_test_score')), modules=[pareto]))
    r.bound('up to %d points, any real costs and performances (points distinct), with and without performance cut, both directions' % (3 if tier == 'quick' else 4))
    r.assume('pandas and numpy run as they are on arrays of symbolic values')
    pysym.run_tasks(r, tasks)
