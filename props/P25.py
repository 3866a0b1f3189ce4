"""softmax, logistic, logistic_deriv, log_logistic, swish"""
from .common import gu, ns, elementwise, LAYG

MODULES = ['_softmax', '_logistic']
BOUNDS = 'softmax: n = 0..3 (quick) / 4 elements, four layouts, up to two loop iterations, all finite, infinite and nan elements; ' \
         'logistic family: every argument; f, d, g'
ASSUME = ['formulas: mathematical reals, exp and log uninterpreted with algebraic axioms; the limits at infinite arguments included',
          'no overflow: exp of an argument beyond the range of the type is infinite', 
          'branches and limits of the logistic functions: exact IEEE arithmetic, exp uninterpreted with its sign, limits and side of 1',
          'log1p(exp(x)) is identified with log(1 + exp(x))']
STUBS = ['exp', 'log1p']


def softmax(E, x, out):
    n = len(x)
    if n == 0:
        return
    nan = E.Or(*[v.isnan() for v in x])
    pinf = [E.And(v.isinf(), v > 0) for v in x]
    two = E.Or(*[E.And(pinf[i], pinf[j]) for i in range(n) for j in range(i)])
    low = E.And(*[E.And(v.isinf(), v < 0) for v in x])
    bad = E.Or(nan, two, low)
    some = E.Or(*pinf)
    one = E.lit(1)
    for i in range(n):
        E.claim(f'{i}: nan, two infinities or all -inf: nan', E.Implies(bad, out[i].isnan()))
        E.claim(f'{i}: otherwise a number', E.Implies(E.Not(bad), out[i].isfin()))
        E.claim_eq(f'{i}: one infinity takes everything', out[i], E.ite(pinf[i], one, E.lit(0)), when=E.And(E.Not(bad), some))
        E.claim_eq(f'{i}: -inf gets nothing', out[i], E.lit(0), when=E.And(E.Not(bad), x[i].isinf(), x[i] < 0))
    ok = E.And(E.Not(bad), E.Not(some))
    sum_ = out[0]
    for o in out[1:]:
        sum_ = sum_ + o
    E.claim_eq('sums to one', sum_, one, when=ok)
    for i in range(n):
        E.claim_le(f'{i}: not negative', E.lit(0), out[i], when=ok)
        E.claim_le(f'{i}: at most one', out[i], one, when=ok)
    m = x[0]
    for v in x[1:]:
        m = E.ite(v > m, v, m)
    for i in range(1, n):
        a, b = E.call('exp', x[0] - m), E.call('exp', x[i] - m)
        E.claim_eq(f'{i}: proportional to the exponentials', out[i] * a, out[0] * b, when=ok)


def no_overflow(E, x, out):
    bad = E.Not(E.And(*[v.isfin() for v in x]))
    for i in range(len(x)):
        E.claim(f'{i}: a number', E.Or(bad, out[i].isfin()))


def logistic(E, x, out):
    e = E.call('exp', -x)
    fin = x.isfin()
    E.claim('nan stays', E.Implies(x.isnan(), out.isnan()))
    E.claim_eq('1/(1 + exp(-x))', out * (e + 1), E.lit(1), when=fin)
    E.claim_eq('limit at -inf', out, E.lit(0), when=E.And(x.isinf(), x < 0))
    E.claim_eq('limit at inf', out, E.lit(1), when=E.And(x.isinf(), x > 0))
    E.claim_le('>= 0', E.lit(0), out, when=E.Not(x.isnan()))
    E.claim_le('<= 1', out, E.lit(1), when=E.Not(x.isnan()))


def deriv(E, x, out):
    e = E.call('exp', -x)
    E.claim('nan stays', E.Implies(x.isnan(), out.isnan()))
    E.claim_eq('exp(-x)/(1 + exp(-x))^2', out * (e + 1) * (e + 1), e, scale=(e + 1) * (e + 1), when=x.isfin())
    E.claim_eq('limit 0', out, E.lit(0), when=x.isinf())
    E.claim_le('<= 1/4', out * 4, E.lit(1), when=x.isfin())


def loglog(E, x, out):
    fin = x.isfin()
    E.claim('nan stays', E.Implies(x.isnan(), out.isnan()))
    pos = E.call('log', E.call('exp', x) + 1)
    neg = E.call('log', E.call('exp', -x) + 1)
    E.claim_eq('x >= 0: -log(1 + exp(-x))', out, -neg, when=E.And(fin, x >= 0))
    E.claim_eq('x < 0: x - log(1 + exp(x))', out, x - pos, when=E.And(fin, x < 0), scale=abs(x))
    E.claim_le('negative', out, E.lit(0), when=fin)
    E.claim_eq('limit at inf', out, E.lit(0), when=E.And(x.isinf(), x > 0))
    E.claim('limit at -inf', E.Implies(E.And(x.isinf(), x < 0), E.And(out.isinf(), out < 0)))


def log_range(E, x, out):
    E.claim('no overflow', out.isfin())


def swish(E, x, b, out):
    fin = E.And(x.isfin(), b.isfin())
    e = E.call('exp', -(b * x))
    E.claim('nan stays', E.Implies(E.Or(x.isnan(), b.isnan()), out.isnan()))
    E.claim_eq('x/(1 + exp(-beta x))', out * (e + 1), x, scale=abs(x) + abs(out) * (e + 1), when=fin)


def lrange(E, x, out):
    E.claim('in [0, 1]', E.Or(x.isnan(), E.And(out >= 0, out <= 1)))
    E.claim('nan stays', E.Implies(x.isnan(), out.isnan()))
    E.claim('1/2 at 0', E.Implies(x == 0, out == E.lit(0.5)))


def tasks(tier):
    out = []
    n = 3 if tier == 'quick' else 4
    for t in ('ff', 'dd', 'gg'):
        out += gu('softmax', '_softmax', no_overflow, 'real', [t], ns('n', 1, 2, 3), nloops=1, obligations=False, expmax=True)
    for t in ('ff', 'dd', 'gg'):
        out += gu('softmax', '_softmax', softmax, 'realx', [t], ns('n', 0, 1, 2, n), nloops=1)
        out += gu('softmax', '_softmax', softmax, 'realx', [t], ns('n', 2), layouts=LAYG, nloops=2)
    kw = dict(nloops=1, layouts=('contig', 'strided'))
    out += elementwise('logistic', '_logistic', 2, logistic, 'realx', **kw)
    out += elementwise('logistic_deriv', '_logistic', 2, deriv, 'realx', **kw)
    out += elementwise('log_logistic', '_logistic', 2, loglog, 'realx', **kw)
    out += elementwise('swish', '_logistic', 3, swish, 'realx', **kw)
    out += elementwise('log_logistic', '_logistic', 2, log_range, 'real', expmax=True)
    out += elementwise('logistic', '_logistic', 2, lrange, 'fp', types='f')
    return out
