"""Tree class probabilities: generated C against the mean vote, or the mean leaf proportions, for every feature vector."""
import random

from vlib import core, ll, pysym, trees
from vlib.pysym import And, Implies
from vlib.trees import Model, leaf, node

LEVEL = 'other'


def soft_leaf(rng, nc):
    def f():
        c = rng.random()
        if c < 0.25:
            v = [0.0] * nc
            v[rng.randrange(nc)] = 1.0
            return leaf(*v)
        if c < 0.5:
            # ties and exact halves
            v = [0.0] * nc
            for i in rng.sample(range(nc), 2):
                v[i] = 0.5
            return leaf(*v)
        n = [rng.randint(0, 9) for _ in range(nc)]
        n[rng.randrange(nc)] += 1
        return leaf(*[x / sum(n) for x in n])
    return f


def models(seed, tier):
    rng = random.Random(seed + 100)
    out = []            # model, dtype, leaf_bits, symbolic features, maximum class

    def rand(name, nt, depth, nf, nc, dt, bits, order='dfs'):
        thr = trees.thr_maker(rng, dt)
        return (Model(name, [trees.rand_tree(rng, depth, list(range(nf)), thr, soft_leaf(rng, nc), 0.1) for _ in range(nt)], nf, nc, order=order), dt, bits)
    for bits in (None, 0, 1, 2, 3, 4, 5, 6, 7, 8):
        out.append(rand('bits%s' % bits, 2, 2, 2, 3, 'int16_t', bits, 'bfs' if bits == 4 else 'dfs'))
    out.append(rand('three', 3, 2, 2, 2, 'int16_t', 8))
    out.append(rand('one', 1, 3, 2, 4, 'int16_t', 8))
    out.append(rand('float', 2, 2, 2, 3, 'float', 8))
    out.append(rand('double', 2, 2, 2, 3, 'double', 8))
    out.append(rand('floathard', 3, 2, 2, 3, 'float', 0))
    out.append(rand('u8', 2, 2, 2, 3, 'uint8_t', 6))
    out.append(rand('wide', 2, 2, 2, 12, 'int16_t', 5))
    # many leaves: offsets into the table of proportions beyond 8 and 16 bits
    big = trees.chain(250, 0, lambda i: i * 7 - 1100 + 0.5, soft_leaf(rng, 30))
    out.append((Model('offsets', [big, trees.chain(40, 0, lambda i: i * 50 - 1000.0, soft_leaf(rng, 30))], 1, 30), 'int16_t', 8))
    # leaf bytes in the shared table: equal leaves, and leaves equal only after quantization
    out.append((Model('shared', [node(0, 0.5, leaf(0.5, 0.5), node(1, 3.0, leaf(0.501, 0.499), leaf(0.5, 0.5))), leaf(0.0, 1.0), node(1, 3.5, leaf(1.0, 0.0), leaf(0.0, 1.0))], 2, 2), 'int16_t', 4))
    out.append((Model('leafonly', [leaf(0.25, 0.75), leaf(0.75, 0.25)], 1, 2), 'int16_t', 8))
    out.append((Model('many', [trees.rand_tree(rng, 3, [0, 1, 2], trees.thr_maker(rng, 'int16_t'), soft_leaf(rng, 4), 0.1) for _ in range(40)], 3, 4), 'int16_t', 8))
    # proportions a few steps apart, in mixed order
    near = [i / 200 for i in range(140, 200)]
    rng.shuffle(near)
    for order in (0, 1):
        ps = iter(near * 2)
        f = (lambda: (lambda p: leaf(p, 1.0 - p))(next(ps))) if order else (lambda: (lambda p: leaf(0.005, p - 0.005, 1.0 - p))(next(ps)))
        out.append((Model('near%d' % order, [trees.chain(40, 0, lambda i: i * 7 - 150.5, f)], 1, 3 - order), 'int16_t', 8))
    # jumps and leaf numbers beyond a byte, to the right and to the left
    far = [trees.chain(280, 0, lambda i: 1100 - i * 7 + 0.5, soft_leaf(rng, 3), right=False), trees.chain(150, 0, lambda i: 900 - i * 11 + 0.5, soft_leaf(rng, 3), right=False)]
    for order, bits in (('dfs', 8), ('bfs', 0)):
        out.append((Model('far-' + order, [node(1, 0.5, far[0], node(1, 5.0, far[1], node(0, 5.0, leaf(1.0, 0, 0), leaf(0, 0.25, 0.75))))], 2, 3, order=order), 'int16_t', bits))
    # more trees than fit in a byte
    for bits in (0, 8):
        out.append((Model('trees260-%d' % bits, [node(i % 2, float(i % 7) - 3.5, leaf(1.0, 0, 0), leaf(0, 0.75, 0.25)) if i % 5 else leaf(0, 0, 1.0) for i in range(260)], 2, 3), 'int16_t', bits))
    if tier == 'thorough':
        for k in range(40):
            dt = rng.choice(['int16_t', 'int16_t', 'int8_t', 'uint8_t', 'uint16_t', 'int32_t', 'float'])
            out.append(rand('rand%d' % k, rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3), rng.randint(2, 8), dt, rng.choice([0, 2, 3, 4, 5, 6, 7, 8, 8]), rng.choice(['dfs', 'bfs'])))
    return rng, out


def quantized(bits, n):
    def f(v):
        from emlearn import trees as real
        p = v.array('p', (n,), 0, 1)
        q = real.quantize_probabilities_into_byte(p, bits=bits)
        v.check(len(q) == n, 'as many values')
        step = pysym.Fraction(255, 2**bits - 1)
        eps = pysym.Fraction(1, 10**6)
        for i in range(n):
            x = q[i] if v.symbolic else int(q[i])
            want = p[i] * 255 if v.symbolic else pysym.Fraction(float(p[i])) * 255
            v.check(And(x >= 0, x <= 255), 'a byte')
            v.check(And(x - want <= step * 3 / 2 + eps, want - x <= step * 3 / 2 + eps), 'within one and a half steps of the proportion')
            v.check(And(Implies(p[i] == 0, x == 0), Implies(p[i] == 1, x == 255)), 'none and all are exact')
            for j in range(i):
                y = q[j] if v.symbolic else int(q[j])
                v.check(Implies(p[i] <= p[j], x <= y), 'in order')
        v.reach('quantized')
    return f


BODY = '''
    float out[REF_WIDTH + 1];
    for (int i = 0; i <= REF_WIDTH; i++) { out[i] = -5.0f; }
    const int err = model_predict_proba(x, REF_FEATURES, out, REF_WIDTH);
    VASSERT(err == 0, "no error");
    VASSERT(out[REF_WIDTH] == -5.0f, "writes only its output");
    double expect[REF_WIDTH];
    for (int c = 0; c < REF_WIDTH; c++) { expect[c] = 0.0; }
    for (int t = 0; t < REF_TREES; t++) {
        const int n = ref_leaf(t, x);
        for (int c = 0; c < REF_WIDTH; c++) { expect[c] += HARD ? (double)(ref_vote[n] == c) : ref_value[n*REF_WIDTH + c]; }
    }
    for (int c = 0; c < REF_WIDTH; c++) {
        VCLOSE(out[c], expect[c] / REF_TREES, TOL, "probability of the class");
    }
    const int32_t got = model_predict(x, REF_FEATURES);
    VASSERT(got >= 0 && got < REF_WIDTH, "a class");
    for (int c = 0; c < REF_WIDTH; c++) {
        VASSERT(out[c] <= out[got], "the class predicted has the highest probability");
        if (STRICT && c < got) { VASSERT(out[c] < out[got], "lowest class number on ties"); }
    }
'''


def run(r, tier):
    rng, ms = models(r.seed, tier)
    jobs = []
    for m, dt, bits in ms:
        est = m.estimator()
        th = m.thresholds()
        hard = bits in (None, 0, 1)
        nt = len(m.trees)
        for method in ('inline', 'loadable'):
            if method == 'loadable' and dt != 'int16_t':
                continue
            code = trees.convert(est, method, dt, bits).save(name='model', include_proba=True)
            # a division that rounds can make different sums equal, inline code compares the sums
            strict = method == 'loadable' or nt & (nt - 1) == 0
            tol = 1e-6 if hard else 1.5 / (2**bits - 1) + 1e-6
            small = sum(len(a[0]) for a in m.trees) < 60
            for s in ([set(range(m.n_features))] if small or m.n_features == 1 else [{f} for f in range(m.n_features)]):
                base = [int(rng.choice(sorted(th.get(f, {0.0})))) + rng.randint(0, 1) for f in range(m.n_features)]
                pre = '#define HARD %d\n#define TOL %r\n#define STRICT %d\n' % (hard, tol, strict)
                jobs.append(ll.LLJob('%s-%s-%s' % (m.name, method, 'all' if len(s) == m.n_features else 'f%d' % min(s)),
                                     trees.source(m, code, dt, s, base, BODY, pre), key='%s-%s' % (m.name, method), time_limit=300 if tier == 'quick' else 1500))
    r.bound('%d ensembles (1..260 trees, up to 250 nodes in a chain, 2..30 classes), leaf_bits none and 0..8, inline and loadable, int16, uint8, float and double features; tables with leaf numbers up to 32767' % len(ms))
    r.bound('feature vectors: every value of every feature for ensembles below 60 nodes, every value of one feature at a time for the larger')
    r.assume('tolerance 1e-6 for single precision rounding on top of the stated 1.5/(2^leaf_bits-1); ensembles are examples, converted by the real emlearn.convert')
    from emlearn import trees as real
    tasks = [pysym.Task('quantize-%d' % b, quantized(b, 2 if b < 5 else 1), modules=[real], key='quantize') for b in range(2, 9)]
    r.bound('quantization of any proportion (two for 2..4 bits) to 2..8 bits')
    core.all_of(r, lambda: ll.run_jobs(r, jobs + trees.wide_jobs([0, 2])), lambda: pysym.run_tasks(r, tasks))
