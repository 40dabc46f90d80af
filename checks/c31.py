"""Python quantizer: the real code on symbolic data, limits and scales."""
from vlib import pysym
from vlib.pysym import And, Or, Implies, Ite

LEVEL = 'other'
DT = {'int8': 127, 'int16': 32767, 'int32': 2**31 - 1}


def cabs(x):
    return abs(x)


def make(dtype, out_max, mode, v, shape=(2, 2), before=False):
    """(quantizer, data, symbolic largest)"""
    from emlearn.preprocessing.quantizer import Quantizer
    om = out_max
    if out_max == 'any':
        om = v.int('out_max', 1, DT[dtype])
    if mode == 'value':
        m = v.real('max_value')
        v.assume(m > 0)
        q = Quantizer(max_value=m, max_quantile=0.0001, dtype=dtype, out_max=om)
        x = v.array('x', shape)
        q.fit(x)
        return q, x, m, om or DT[dtype]
    x = v.array('x', shape)
    if mode == 'quantile':
        alpha = 0.25
        q = Quantizer(max_quantile=alpha, dtype=dtype, out_max=om)
        s = sorted(x.flat)

        def quantile(a):
            at = a * (len(s) - 1)
            i = int(at)
            return s[i] + (s[min(i + 1, len(s) - 1)] - s[i]) * (at - i)
        low, high = quantile(alpha), quantile(1 - alpha)
        big = Ite(high >= -low, high, -low)
        v.assume(big > 0)
        q.fit(x)
        return q, x, big, om or DT[dtype]
    q = Quantizer(max_quantile=None, dtype=dtype, out_max=om)
    big = 0
    for i in x.flat:
        big = Ite(cabs(i) > big, cabs(i), big)
    v.assume(big > 0)
    if before:
        # fitted to other data, and used, before
        w = v.array('w', shape)
        v.assume(w.flat[0] > 0)
        q.fit(w)
        q.transform(w)
    q.fit(x)
    return q, x, big, om or DT[dtype]


def transform(dtype, out_max, mode, shape, before=False):
    def f(v):
        q, x, m, om = make(dtype, out_max, mode, v, shape, before)
        y = v.array('y', (2,)) if mode != 'value' else x
        out = q.transform(y)
        v.check(tuple(out.shape) == tuple(y.shape), 'shape')
        v.check(str(out.dtype) == dtype, 'output type')
        for i, o in zip(y.flat, out.flat):
            o = o if v.symbolic else int(o)
            # floating point: the scale and the product are each rounded, which only matters within 1e-12 of a step
            s = i * om / m
            eps = abs(s) * 1e-12 + 1e-12
            v.check(And(o <= om, o >= -om), 'inside the symmetric output range')
            v.check(Implies(s >= om + eps, o == om), 'saturates high')
            v.check(Implies(s <= -om - eps, o == -om), 'saturates low')
            inside = And(s < om, s > -om)
            v.check(Implies(And(inside, s >= 0), And(o >= 0, o <= s + eps, o > s - 1 - eps)), 'truncated')
            v.check(Implies(And(inside, s < 0), And(o <= 0, o >= s - eps, o < s + 1 + eps)), 'truncated toward zero')
        # the largest magnitude maps to the largest output
        a, b = y.flat[0], y.flat[1]
        oa, ob = (out.flat[k] if v.symbolic else int(out.flat[k]) for k in (0, 1))
        v.check(Implies(a <= b, oa <= ob), 'monotonic')
        v.check(Implies(a == -b, oa == -ob), 'odd')
        v.check(Implies(a == m, And(oa <= om, oa >= om - 1)), 'largest magnitude to the largest output')
        if v.symbolic:
            v.check(Implies(a == m, oa == om), 'largest magnitude to the largest output')
        v.reach('transform')
    return f


def inverse(dtype, out_max, mode):
    def f(v):
        q, x, m, om = make(dtype, out_max, mode, v, (1, 2))
        i = x.flat[0]
        v.assume(And(i <= m, i >= -m))
        back = q.inverse_transform(q.transform(x))
        b = back.flat[0]
        step = m / om
        v.check(And(b - i <= step * 1.0000001, i - b <= step * 1.0000001), 'back within one step')
        v.check(tuple(back.shape) == tuple(x.shape), 'shape')
        # and for any quantized value, including the most negative
        k = v.int('k', -DT[dtype] - 1, DT[dtype])
        import numpy
        if v.symbolic:
            arr = pysym.sarr([k])
        else:
            arr = numpy.array([k], dtype=dtype)
        w = q.inverse_transform(arr)[0]
        v.check(Implies(And(k <= om, k >= -om), And(w * om - k * m <= 1e-6 * m * om, k * m - w * om <= 1e-6 * m * om)), 'divided by the scale')
        v.check(And(w <= m * 1.0000001, w >= -m * 1.0000001), 'inside the range')
        v.reach('inverse')
    return f


def run(r, tier):
    from emlearn.preprocessing import quantizer
    import numpy
    tasks = []
    for dtype in DT:
        tasks.append(pysym.Task('transform-%s' % dtype, transform(dtype, None, 'value', (1, 2)), modules=[quantizer]))
        tasks.append(pysym.Task('transform-%s-outmax' % dtype, transform(dtype, 'any', 'value', (2, 1)) if tier == 'thorough' else transform(dtype, 100, 'value', (2, 1)), modules=[quantizer]))
        tasks.append(pysym.Task('inverse-%s' % dtype, inverse(dtype, None, 'value'), modules=[quantizer]))
        tasks.append(pysym.Task('fit-%s' % dtype, transform(dtype, None, 'data', (2, 1) if tier == 'quick' else (2, 2)), modules=[quantizer], max_paths=20000, time_limit=200 if tier == 'quick' else 3000))
    tasks.append(pysym.Task('refit', transform('int16', None, 'data', (2, 1), before=True), modules=[quantizer], max_paths=20000, time_limit=300))
    for shape in [(3, 1)] if tier == 'quick' else [(3, 1), (2, 2)]:
        tasks.append(pysym.Task('quantile-%d' % (shape[0] * shape[1]), transform('int16', None, 'quantile', shape), modules=[quantizer], max_paths=20000, time_limit=200 if tier == 'quick' else 3000))
    r.bound('output types int8, int16, int32; any real data, limit and quantized value; arrays of 2 (limits given, or learned from 2 (thorough 4) values, or as quantile 0.25 of 3 (4) values)')
    r.assume('floats are real numbers: rounding of the scale and product is not modelled (allowed for by 1e-12 in the conditions); quantiles by the default linear interpolation')
    pysym.run_tasks(r, tasks)
