"""next_greater, next_less, nextn_greater, nextn_less"""
import z3
from symex.spec import F
from .common import elementwise, gu, ns

MODULES = ['_next', '_nextn']
BOUNDS = 'all values of f, d, g; nextn: n <= 4, two loop iterations, four layouts'
ASSUME = []
STUBS = ['nextafter: defined on the IEEE bit pattern']


def chain(E, x, y, up, k):
    lim = E.inf() if up else -E.inf()
    E.claim(f'nan stays nan ({k})', E.Implies(x.isnan(), y.isnan()))
    E.claim(f'the limit is a fixed point ({k})', E.Implies(x == lim, y == lim))
    gt = (lambda a, b: a > b) if up else (lambda a, b: a < b)
    ok = E.And(E.Not(x.isnan()), x != lim)
    E.claim(f'strictly beyond ({k})', E.Implies(ok, gt(y, x)))
    if E.concrete:
        E.claim(f'adjacent ({k})', E.Implies(ok, y == E.call('nextafter', x, lim)))
    else:
        # no value of the type lies strictly between
        z = F(E, z3.FP(f'between_{E.loop}_{k}', y.v.sort()), y.t)
        E.claim(f'adjacent ({k})', E.Implies(ok, E.Not(E.And(gt(z, x), gt(y, z)))))


def one(up):
    return lambda E, x, y: chain(E, x, y, up, 0)


def many(up):
    def f(E, x, out):
        prev = x
        for k, y in enumerate(out):
            chain(E, prev, y, up, k)
            prev = y
    return f


def tasks(tier):
    out = []
    for nm, up in (('greater', True), ('less', False)):
        out += elementwise(f'next_{nm}', '_next', 2, one(up), 'fp')
        out += elementwise(f'next_{nm}', '_next', 2, one(up), 'fp', layouts=('strided',), nloops=2)
        out += gu(f'nextn_{nm}', '_nextn', many(up), 'fp', ['ff', 'dd', 'gg'], ns('n', 0, 1, 4 if tier == 'quick' else 8))
        out += gu(f'nextn_{nm}', '_nextn', many(up), 'fp', ['dd'], ns('n', 3), layouts=('contig', 'neg', 'axis0'))
    return out
