"""mad, rmad, gini"""
from .common import gu, ns

MODULES = ['_mad']
BOUNDS = 'n = 1..3 (quick) / 4 elements, two loop iterations, contiguous / strided / negative / transposed layouts; f, d, g over ' \
         'mathematical reals; both values of unbiased'
ASSUME = ['finite elements']


def diffs(E, x):
    s = E.lit(0)
    for i in range(len(x)):
        for j in range(i):
            s = s + abs(x[i] - x[j])
    return s


def tot(E, x):
    t, a = E.lit(0), E.lit(1)
    for v in x:
        t = t + v
        a = a + abs(v)
    return t, a


def mad(E, x, unb, out):
    n = len(x)
    s = diffs(E, x)
    t, a = tot(E, x)
    E.claim_eq('mean absolute difference', out, s * 2 / (n * n), scale=a, when=unb == 0)
    if n > 1:
        E.claim_eq('unbiased mean absolute difference', out, s * 2 / (n * (n - 1)), scale=a, when=unb != 0)
    else:
        E.claim('unbiased, one element: nan', E.Implies(unb != 0, out.isnan()))


def ratio(k):
    def f(E, x, unb, out):
        n = len(x)
        s = diffs(E, x)
        t, a = tot(E, x)
        for c, d in ((unb == 0, n * n), (unb != 0, n * (n - 1))):
            if d == 0:
                E.claim('one element, unbiased: nan', E.Implies(c, out.isnan()))
                continue
            # gini = (sum over pairs |xi - xj|) / (n * total);  rmad = 2 * gini
            E.claim_eq('relative to the mean', out * t * d, s * k * n, scale=a * 16, when=E.And(c, t != 0))
            E.claim('zero mean, spread: inf', E.Implies(E.And(c, t == 0, s != 0), E.And(out.isinf(), out > 0)))
            E.claim('all zero: nan', E.Implies(E.And(c, t == 0, s == 0), out.isnan()))
    return f


def tasks(tier):
    out = []
    n = 3 if tier == 'quick' else 4
    for attr, spec in (('mad', mad), ('gini', ratio(1)), ('rmad', ratio(2))):
        for t in 'fdg':
            ty = t + '?' + t
            out += gu(attr, '_mad', spec, 'real', [ty], ns('n', 1, 2), layouts=('contig', 'strided'))
            out += gu(attr, '_mad', spec, 'real', [ty], ns('n', n), layouts=('contig', 'strided'), nloops=1, first=2)
        out += gu(attr, '_mad', spec, 'real', ['d?d'], ns('n', 2), layouts=('neg', 'axis0', 'bcastscalar'))
    return out
