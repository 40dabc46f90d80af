"""Gaussian mixture: C inference and generated models."""
import os

import numpy

from vlib import core, ll

LEVEL = 'other'


def fitted(kind, cov, nc, nf, seed):
    from sklearn.mixture import BayesianGaussianMixture, GaussianMixture
    rng = numpy.random.RandomState(seed)
    x = numpy.concatenate([rng.normal(rng.uniform(-4, 4, nf), rng.uniform(0.7, 2, nf), (25 + 30 * k, nf)) for k in range(nc)])
    cls = {'gmm': GaussianMixture, 'bayes': BayesianGaussianMixture}[kind]
    return cls(n_components=nc, covariance_type=cov, random_state=1, max_iter=15, tol=1e-2, reg_covar=1e-2).fit(x)


def generated(kind, cov, nc, nf, seed):
    """generated code, with the reference taken from the fitted estimator by itself"""
    import warnings
    from emlearn import convert
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        est = fitted(kind, cov, nc, nf, seed)
        code = convert(est).save(name='gmm')
    means = est.means_
    prec = {'full': lambda c: est.precisions_[c], 'tied': lambda c: est.precisions_, 'diag': lambda c: numpy.diag(est.precisions_[c]),
            'spherical': lambda c: est.precisions_[c] * numpy.eye(nf)}[cov]
    const = [est._estimate_weighted_log_prob(means[c:c + 1])[0][c] for c in range(nc)]
    m = '{%s}' % ','.join('{%s}' % ','.join(repr(float(v)) for v in row) for row in means)
    p = '{%s}' % ','.join('{%s}' % ','.join('{%s}' % ','.join(repr(float(v)) for v in row) for row in prec(c)) for c in range(nc))
    k = '{%s}' % ','.join(repr(float(v)) for v in const)
    # the six decimals of the factors: y = (x - mean) * factor is off by 1e-6 * 20, and its square by twice y times that
    factor = max(float(numpy.abs(est.precisions_cholesky_).max()), 1.0)
    tol = 1e-4 * nf * nf * (1 + factor)**2
    return code + '\n#define NC %d\n#define NF %d\n#define TOL %r\nstatic const double REF_MEANS[NC][NF] = %s;\nstatic const double REF_PREC[NC][NF][NF] = %s;\nstatic const double REF_CONST[NC] = %s;\n' % (
        nc, nf, tol, m, p, k)


def run(r, tier):
    thorough = tier == 'thorough'
    src = open(os.path.join(core.VERIF, 'harness', 'c14.c')).read()
    sizes = [(1, 1), (2, 1), (1, 2), (2, 3), (3, 2)] + ([(4, 3), (2, 5)] if thorough else [])
    jobs = [ll.LLJob('any-%d-%d' % s, src, key='any', defines=['MODE=1', 'NC=%d' % s[0], 'NF=%d' % s[1]]) for s in sizes]
    scored = [(1, 1), (2, 1), (2, 2), (3, 1)] + ([(3, 2), (4, 1)] if thorough else [])
    jobs += [ll.LLJob('score-%d-%d' % s, src, key='score', defines=['MODE=1', 'SCORE', 'NC=%d' % s[0], 'NF=%d' % s[1]]) for s in scored]
    jobs.append(ll.LLJob('refused', src, key='refused', defines=['MODE=2']))
    gens = [(k, cov, 2, 2, 3) for k in ('gmm', 'bayes') for cov in ('full', 'tied', 'diag', 'spherical')] + [('gmm', 'full', 3, 3, 4), ('gmm', 'diag', 1, 3, 5)]
    if thorough:
        gens += [(k, cov, nc, nf, 7) for k in ('gmm', 'bayes') for cov in ('full', 'tied', 'diag', 'spherical') for nc, nf in ((1, 1), (3, 2), (4, 4))]
    gens += [('bayes', cov, nc, nf, 9) for cov, nc, nf in (('full', 3, 2), ('diag', 2, 3), ('tied', 3, 1), ('spherical', 1, 3))]
    for g in gens:
        jobs.append(ll.LLJob('generated-%s-%s-%d-%d' % g[:4], src, key='generated', defines=['MODE=3'], files={'gen.h': generated(*g)}))
    jobs += [ll.LLJob('wide-%d-%d' % s, src, key='wide', defines=['MODE=4', 'NC=%d' % s[0], 'NF=%d' % s[1]], max_steps=30000000) for s in ((1, 130), (1, 260), (300, 2))]
    r.bound('many components or features: 1 x 130, 1 x 260, 300 x 2 with one feature of the sample within +-50')
    r.bound('components x features %s with any means, factors, log determinants, log weights and sample; score and responsibilities: %s' % (sizes, scored))
    r.bound('refusals: every component count up to 2, every length, covariance type and missing argument')
    r.bound('%d fitted models (%s), any sample within +-10, against the means, precisions and constants of the estimator' % (len(gens), sorted({g[:2] for g in gens})))
    r.assume('exact real arithmetic; exp and log are uninterpreted functions')
    ll.run_jobs(r, jobs)
