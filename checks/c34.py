"""Error descriptions (C) and activation names (Python generator)."""
import os

from vlib import core, ll, pysym

LEVEL = 'other'


def body(v):
    from emlearn import net
    s = v.string('activation', 12)
    known = {'identity': 'EmlNetActivationIdentity', 'relu': 'EmlNetActivationRelu', 'logistic': 'EmlNetActivationLogistic',
             'softmax': 'EmlNetActivationSoftmax', 'tanh': 'EmlNetActivationTanh'}
    try:
        out = net.c_activation_function(s)
    except ValueError:
        out = None
    if out is None:
        for k in known:
            v.check(pysym.Not(s == k), 'supported activation %s refused' % k)
        v.reach('refused')
        return
    v.check(pysym.Or(*[pysym.And(s == k, out == c) for k, c in known.items()]), 'the C activation of that name')
    v.reach('accepted')


def run(r, tier):
    src = open(os.path.join(core.VERIF, 'harness', 'c34.c')).read()
    jobs = [ll.LLJob('valid', src, key='valid', defines=['MODE=1']), ll.LLJob('invalid', src, key='invalid', defines=['MODE=2'])]
    from emlearn import net
    task = pysym.Task('activation', body, modules=[net], key='activation')
    r.bound('every int error code; every activation name of up to 12 characters')
    r.assume('what the named C activations compute is decided by C07')
    core.all_of(r, lambda: ll.run_jobs(r, jobs), lambda: pysym.run_tasks(r, [task]))
