"""gmean, gmeanw, hmean, hmeanw, pmean, pmeanw"""
from fractions import Fraction
from .common import gu, ns, const

MODULES = ['_means']
BOUNDS = 'n = 1..3 elements (quick), 4 (thorough); contiguous / strided / negative / transposed layouts, up to two loop ' \
         'iterations; f, d, g over the extended reals; order of the power mean: nan, 0, |p| < 2e-6, -1, 1, 2, +-inf and symbolic'
ASSUME = ['weights finite', 'mathematical reals: no rounding, no overflow', 'log, exp, pow uninterpreted with algebraic axioms']
STUBS = ['log', 'exp', 'pow']


def flags(E, x):
    return (E.Or(*[v < 0 for v in x]), E.Or(*[v.isnan() for v in x]), E.Or(*[v == 0 for v in x]),
            E.Or(*[E.And(v > 0, v.isinf()) for v in x]), E.And(*[v == x[0] for v in x[1:]]))


def total(E, vs):
    s = E.lit(0)
    for v in vs:
        s = s + v
    return s


def g_claims(E, x, w, out, pre=True, tag=''):
    """Geometric mean with weights w."""
    neg, nan, zero, inf, same = flags(E, x)
    bad = E.Or(neg, nan, E.And(zero, inf))
    E.claim(tag + 'negative, nan, or zero and inf: nan', E.Implies(E.And(pre, bad), out.isnan()))
    E.claim(tag + 'an infinite element: inf', E.Implies(E.And(pre, E.Not(bad), inf), E.And(out > 0, out.isinf())))
    E.claim_eq(tag + 'a zero element: 0', out, E.lit(0), when=E.And(pre, E.Not(bad), zero))
    ok = E.And(pre, *[E.And(v > 0, v.isfin()) for v in x])
    E.claim_eq(tag + 'equal elements: that value', out, x[0], when=E.And(ok, same))
    sw = total(E, w)
    E.claim(tag + 'zero total weight: nan', E.Implies(E.And(ok, E.Not(same), sw == 0), out.isnan()))
    s = total(E, [b * E.call('log', a) for a, b in zip(x, w)])
    E.claim_eq(tag + 'exp of the mean logarithm', out, E.call('exp', s / sw), when=E.And(ok, E.Not(same), sw != 0))


def gmean(E, x, out):
    g_claims(E, x, [E.lit(1)] * len(x), out)


def gmeanw(E, x, w, out):
    g_claims(E, x, w, out)


def h_claims(E, x, w, out, pre=True, tag=''):
    zero = E.Or(*[v == 0 for v in x])
    E.claim_eq(tag + 'a zero element: 0', out, E.lit(0), when=E.And(pre, zero, *[v.isfin() for v in x]))
    ok = E.And(pre, *[E.And(v != 0, v.isfin()) for v in x])
    rec = total(E, [b / a for a, b in zip(x, w)])
    sw = total(E, w)
    sc = total(E, [abs(b / a) for a, b in zip(x, w)])
    E.claim_eq(tag + 'total weight over the sum of reciprocals', out * rec, sw, scale=abs(out) * sc + abs(sw) + 1, when=E.And(ok, rec != 0))
    E.claim(tag + 'reciprocals cancel: not finite', E.Implies(E.And(ok, rec == 0, sw != 0), E.Not(out.isfin())))
    E.claim(tag + 'nan stays', E.Implies(E.And(pre, E.Or(*[v.isnan() for v in x]), E.Not(zero)), out.isnan()))


def hmean(E, x, out):
    h_claims(E, x, [E.lit(1)] * len(x), out)


def hmeanw(E, x, w, out):
    h_claims(E, x, w, out)


TINY = Fraction(1, 500000)


def p_claims(E, x, w, p, out, fixed=None, special=True, formula=True):
    neg, nan, zero, inf, same = flags(E, x)
    E.claim('order nan: nan', E.Implies(p.isnan(), out.isnan()))
    if fixed is None:
        E.claim('negative or nan: nan', E.Implies(E.And(E.Not(p.isnan()), E.Or(neg, nan)), out.isnan()))
    ok = E.And(E.Not(p.isnan()), *[v >= 0 for v in x])
    big, small = x[0], x[0]
    for v in x[1:]:
        big, small = E.fmax(big, v), E.fmin(small, v)
    small_p = E.And(p > -TINY, p < TINY)
    E.claim_eq('equal elements: that value', out, x[0], when=E.And(ok, same, E.Not(small_p), *[v > 0 for v in x]))
    E.claim_eq('order inf: largest', out, big, when=E.And(ok, p.isinf(), p > 0))
    E.claim_eq('order -inf: smallest', out, small, when=E.And(ok, p.isinf(), p < 0))
    E.claim_eq('zero element, order < 0: 0', out, E.lit(0), when=E.And(ok, zero, p < 0, E.Not(small_p)))
    E.claim('infinite element, order > 0: inf', E.Implies(E.And(ok, inf, p > 0, E.Not(E.And(small_p, zero))), E.And(out > 0, out.isinf())))
    fin = E.And(ok, E.Not(inf), p.isfin())
    sw = total(E, w)
    if fixed == 1:
        E.claim_eq('order 1: arithmetic mean', out * sw, total(E, [a * b for a, b in zip(x, w)]), scale=big + 1, when=E.And(fin, E.Not(same), sw != 0))
    elif fixed == 2:
        E.claim_eq('order 2: square is the mean square', out * out * sw, total(E, [a * a * b for a, b in zip(x, w)]), scale=(big + 1) * (big + 1),
                   when=E.And(fin, E.Not(same), sw > 0, *[b >= 0 for b in w]))
    elif fixed == -1:
        E.claim('order -1: negative: nan', E.Implies(neg, out.isnan()))
        h_claims(E, x, w, out, pre=E.And(fin, E.Not(same)), tag='order -1: ')
    elif fixed == 0:
        g_claims(E, x, w, out, tag='order 0: ')
    elif fixed is not None:
        # tiny order: first order expansion around the geometric mean
        pos = E.And(fin, *[v > 0 for v in x], E.Not(same), sw != 0)
        ls = [E.call('log', v) for v in x]
        m1 = total(E, [b * l for b, l in zip(w, ls)]) / sw
        m2 = total(E, [b * l * l for b, l in zip(w, ls)]) / sw
        E.claim_eq('tiny order: geometric mean with the first order term', out, E.call('exp', m1) * (1 + p * (m2 - m1 * m1) / 2), when=pos)
        E.claim_eq('tiny order: a zero element gives 0', out, E.lit(0), when=E.And(fin, zero))
    else:
        if not formula:
            return
        sc = E.ite(p > 0, big, small)
        s = total(E, [b * E.call('pow', a / sc, p) for a, b in zip(x, w)])
        E.claim_eq('order p: p-th root of the mean p-th power', out, sc * E.call('pow', s / sw, 1 / p), scale=big + 1,
                   when=E.And(fin, E.Not(same), E.Not(small_p), p != -1, p != 1, sw != 0, sc > 0))


def mkp(fixed=None, **kw):
    def spec(E, x, p, out):
        p_claims(E, x, [E.lit(1)] * len(x), p, out, fixed, **kw)
    return spec


def mkpw(fixed=None, **kw):
    def spec(E, x, w, p, out):
        p_claims(E, x, w, p, out, fixed, **kw)
    return spec


def wfin(E, x, w, *p):
    return [v.isfin() for v in w]


def wpos(E, x, w, *p):
    return [E.And(v > 0, v.isfin()) for v in w]


def ppos(E, x, w, p):
    return [v > 0 for v in x + w] + [p > TINY]


def pneg(E, x, w, p):
    return [v > 0 for v in x + w] + [p < -TINY]


def hpre(E, x, w=None):
    return [E.Not(v.isinf()) for v in x] + ([v.isfin() for v in w] if w is not None else [])


def no_inf(E, x, *r):
    return [E.Not(v.isinf()) for v in x]


def tasks(tier):
    out = []
    n = 3 if tier == 'quick' else 4
    lay = ('contig', 'neg', 'axis0')
    for t in 'fdg':
        kw = dict(first=3)
        out += gu('gmean', '_means', gmean, 'realx', [t * 2], ns('n', 1, 2, n), nloops=1, **kw)
        out += gu('gmeanw', '_means', gmeanw, 'realx', [t * 3], ns('n', 1, 2), nloops=1, pre=wfin, **kw)
        out += gu('hmean', '_means', hmean, 'realx', [t * 2], ns('n', 1, 2, n), nloops=1, pre=hpre, **kw)
        out += gu('hmeanw', '_means', hmeanw, 'realx', [t * 3], ns('n', 1, 2), nloops=1, pre=hpre, **kw)
        out += gu('gmean', '_means', gmean, 'real', [t * 2], ns('n', 2), layouts=lay, **kw)
        out += gu('hmean', '_means', hmean, 'real', [t * 2], ns('n', 2), layouts=lay, **kw)
        out += gu('gmeanw', '_means', gmeanw, 'real', [t * 3], ns('n', 2), layouts=('axis0', 'neg'), nloops=1, **kw)
        out += gu('hmeanw', '_means', hmeanw, 'real', [t * 3], ns('n', 2), layouts=('axis0', 'neg'), nloops=1, **kw)
        for f in (1, 2, -1, 0, Fraction(1, 2 ** 20), Fraction(-1, 2 ** 20)):
            out += gu('pmean', '_means', mkp(f), 'realx', [t * 3], ns('n', 2), nloops=1, values=const(_1=f), free=True,
                      pre=no_inf if f == -1 else None, **kw)
            out += gu('pmean', '_means', mkp(f), 'real', [t * 3], ns('n', 2), nloops=2, values=const(_1=f), free=True, **kw)
            out += gu('pmeanw', '_means', mkpw(f), 'realx', [t * 4], ns('n', 2), nloops=1, values=const(_2=f), free=True,
                      pre=wpos if f != -1 else (lambda E, x, w, p: wpos(E, x, w) + no_inf(E, x)), **kw)
        out += gu('pmean', '_means', mkp(), 'realx', [t * 3], ns('n', 1, 2), nloops=1, **kw)
        out += gu('pmeanw', '_means', mkpw(formula=False), 'realx', [t * 4], ns('n', 1, 2), nloops=1, pre=wpos, **kw)
        for pre in (ppos, pneg):
            out += gu('pmeanw', '_means', mkpw(), 'real', [t * 4], ns('n', 2), nloops=1, pre=pre, **kw)
    return out
