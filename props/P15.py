"""percentileofscore"""
from symex import registry
from .common import gu, ns, loops_of, nonan

MODULES = ['_percentileofscore']
BOUNDS = 'n = 1..4 (quick) / 6 elements, two loop iterations, four layouts; every loop; all values of score and array'
ASSUME = ['no nan', 'kind is one of the four documented values, or another number (then: nan)', 'the final scaling to percent is over mathematical reals']


def kinds():
    c = registry.get('_percentileofscore').consts
    return c['_RANK'], c['_WEAK'], c['_STRICT'], c['_MEAN']


def pre(E, x, score, kind):
    return nonan(E, x, score) + [E.Or(*[kind == k for k in kinds()])]


def spec(E, x, score, kind, out):
    n = len(x)
    less = equal = E.lit(0, 'double')
    one, zero = E.lit(1, 'double'), E.lit(0, 'double')
    for v in x:
        less = less + E.ite(v < score, one, zero)
        equal = equal + E.ite(v == score, one, zero)
    rank, weak, strict, mean = kinds()
    hit = E.ite(equal > 0, one, zero)
    # the percentage of values below the score, ties counted according to kind
    for k, num in ((rank, less * 2 + equal + hit), (weak, (less + equal) * 2), (strict, less * 2),
                   (mean, less * 2 + equal)):
        E.claim_eq(f'kind {k}', out, num * 50 / n, when=kind == k, scale=100)
    E.claim_le('at least 0', E.lit(0, 'double'), out)
    E.claim_le('at most 100', out, E.lit(100, 'double'))


def unknown(E, x, score, kind, out):
    E.claim('unknown kind: nan', E.Implies(E.Not(E.Or(*[kind == k for k in kinds()])), out.isnan()))


def tasks(tier):
    out = []
    n = 4 if tier == 'quick' else 6
    for t in loops_of('_percentileofscore', 'percentileofscore'):
        kw = dict(pre=pre, zimode=True, ty='double', first=60)
        out += gu('percentileofscore', '_percentileofscore', spec, 'real', [t], ns('n', 1, n - 1), **kw)
        out += gu('percentileofscore', '_percentileofscore', spec, 'real', [t], ns('n', n), nloops=1, **kw)
        out += gu('percentileofscore', '_percentileofscore', spec, 'real', [t], ns('n', 2),
                  layouts=('contig', 'neg', 'axis0'), **kw)
        out += gu('percentileofscore', '_percentileofscore', unknown, 'opaque', [t], ns('n', 0, 1))
    return out
