"""Identifiers: the real validation and the generators, on a symbolic string."""
import re

import numpy
import z3

from vlib import pysym
from vlib.pysym import SBool, Not, strval

LEVEL = 'other'
# C11, and what C23 made keywords
KEYWORDS = '''auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static
 struct switch typedef union unsigned void volatile while _Alignas _Alignof _Atomic _Bool _Complex _Generic _Imaginary _Noreturn _Static_assert _Thread_local
 alignas alignof bool constexpr false nullptr static_assert thread_local true typeof typeof_unqual _BitInt _Decimal128 _Decimal32 _Decimal64'''.split()
# words the compilers reserve as well; refusing or accepting these is not decided
OTHER = ['_Packed', 'asm', 'fortran', '']


def spec(v, s):
    """(valid C identifier, not a keyword)"""
    if not v.symbolic:
        return re.fullmatch('[A-Za-z_][A-Za-z0-9_]*', s) is not None and s.isascii() and s not in KEYWORDS
    ch = [z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_')]
    first = z3.Union(*ch)
    rest = z3.Star(z3.Union(*(ch + [z3.Range('0', '9')])))
    return SBool(z3.And(z3.InRe(s.e, z3.Concat(first, rest)), *[s.e != strval(w) for w in KEYWORDS]))


def undecided(v, s):
    if not v.symbolic:
        return s in OTHER[:-1]
    return SBool(z3.Or([s.e == strval(w) for w in OTHER[:-1]]))


def body(call, maxlen):
    def f(v):
        s = v.string('name', maxlen)
        v.assume(Not(undecided(v, s)))
        try:
            call(s)
        except (ValueError, AssertionError):
            v.check(Not(spec(v, s)), 'a valid name is accepted')
            v.reach('refused')
            return
        v.check(spec(v, s), 'an invalid name is refused')
        v.reach('accepted')
    return f


def predicates(maxlen):
    def f(v):
        from emlearn import cgen
        s = v.string('name', maxlen)
        v.assume(Not(undecided(v, s)))
        ok = cgen.identifier_is_valid(s)
        good = re.fullmatch('[A-Za-z_][A-Za-z0-9_]*', s) is not None if not v.symbolic else \
            SBool(z3.InRe(s.e, z3.Concat(z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_')), z3.Star(z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_'), z3.Range('0', '9'))))))
        v.check(good if ok else Not(good), 'identifier_is_valid')
        word = cgen.identifier_is_reserved(s)
        kw = s in KEYWORDS or s == '' if not v.symbolic else SBool(z3.Or([s.e == strval(w) for w in KEYWORDS + ['']]))
        if word:
            v.check(kw, 'identifier_is_reserved')
        else:
            v.check(Not(And(kw, s != '')), 'identifier_is_reserved')
        v.reach('predicates')
    return f


def And(*a):
    return pysym.And(*a)


class Fake:
    pass


def generators():
    from emlearn import bayes, distance, mixture, neighbors, net, trees
    one = numpy.ones((1, 1))
    forest = ([[0, 0.5, -1, -2]], [0], [0, 1])
    mix = Fake()
    mix._means, mix._log_det, mix._covariance_type, mix._precisions_col, mix._log_weights = one, numpy.ones(1), 'full', numpy.ones((1, 1, 1)), numpy.ones(1)
    acts, w, b = ['relu', 'identity'], [numpy.ones((2, 2)), numpy.ones((2, 1))], [numpy.ones(2), numpy.ones(1)]
    return {
        'trees inline': lambda s: trees.generate_c_inlined(forest, s, 1, n_classes=2, dtype='int16_t'),
        'trees loadable': lambda s: trees.generate_c_loadable(forest, s, 1, n_classes=2, dtype='int16_t'),
        'bayes': lambda s: bayes.generate_c(numpy.ones((2, 1, 3)), s),
        'mixture': lambda s: mixture.generate_code(mix, s),
        'elliptic envelope': lambda s: distance.generate_code(numpy.ones(1), one, -1.5, s),
        'neighbors': lambda s: neighbors.c_generate_neighbors(one, numpy.ones(1), 1, s),
        'net loadable': lambda s: net.c_generate_net_loadable(acts, w, b, s),
        'net inline': lambda s: net.c_generate_net_inline(acts, w, b, s),
        'net fixedpoint': lambda s: net.c_generate_net_inline(acts, w, b, s, use_fixedpoint=True),
    }


def run(r, tier):
    from emlearn import cgen, creserved
    shims = {}
    for m in (cgen, creserved):
        shims[m] = {}
        for n, val in list(m.__dict__.items()):
            if isinstance(val, (set, frozenset, list, tuple)) and val and all(isinstance(x, str) for x in val):
                shims[m][n] = pysym.Words(val)
            elif isinstance(val, re.Pattern):
                shims[m][n] = pysym.RePattern(pysym.ReShim(), val)
    maxlen = 40 if tier == 'quick' else 200

    def task(name, b):
        return pysym.Task(name, b, modules=[cgen], shims=shims, timeout_ms=60000)
    tasks = [task('assert_valid_identifier', body(lambda s: cgen.assert_valid_identifier(s), maxlen)), task('predicates', predicates(maxlen))]
    for n, g in generators().items():
        tasks.append(task(n.replace(' ', '-'), body(g, maxlen)))
    r.bound('names: all strings of up to %d characters (of the characters up to U+017F, those whose other case is ASCII, and one of every kind of the others up to U+2FFFF); whether the compiler-specific words %s are refused is left open' % (maxlen, OTHER[:-1]))
    r.assume('the re module matches as its documentation says (its patterns are translated to the solver); generators run on a one-node or one-weight model')
    pysym.run_tasks(r, tasks)
