"""argmin, argmax, minmax, argminmax, min_argmin, max_argmax"""
from .common import gu, ns, loops_of, nonan

MODULES = ['_minmax']
BOUNDS = 'n = 1..4 (quick) / 6 elements, two loop iterations, contiguous / strided / negative / transposed layouts; ' \
         'every numeric loop; all integer values, all non-nan floating point values'
ASSUME = ['no nan', 'object loops are decided by P35']


def pre(E, x):
    return nonan(E, x)


def least(E, x, v, up):
    for y in x:
        E.claim('extreme value bounds every element', (v >= y) if up else (v <= y))
    E.claim('extreme value is an element', E.Or(*[v == y for y in x]))


def arg(E, x, idx, up):
    """idx is the first position of the extreme value."""
    seen = False
    for k, v in enumerate(x):
        ext = E.And(*[(v >= y) if up else (v <= y) for y in x])
        E.claim(f'index of the first extreme ({k})', E.Implies(E.And(ext, E.Not(seen)), idx == k))
        seen = E.Or(seen, ext)


def argmin(E, x, i):
    arg(E, x, i, False)


def argmax(E, x, i):
    arg(E, x, i, True)


def minmax(E, x, o):
    least(E, x, o[0], False)
    least(E, x, o[1], True)


def argminmax(E, x, o):
    arg(E, x, o[0], False)
    arg(E, x, o[1], True)


def min_argmin(E, x, v, i):
    least(E, x, v, False)
    arg(E, x, i, False)


def max_argmax(E, x, v, i):
    least(E, x, v, True)
    arg(E, x, i, True)


def tasks(tier):
    out = []
    n = 4 if tier == 'quick' else 6
    for spec in (argmin, argmax, minmax, argminmax, min_argmin, max_argmax):
        attr = spec.__name__
        for t in loops_of('_minmax', attr):
            if t[0] == 'O':
                continue
            out += gu(attr, '_minmax', spec, 'fp', [t], ns('n', 1, 2, n if t[0] not in 'fdg' else n - 1), pre=pre)
            out += gu(attr, '_minmax', spec, 'fp', [t], ns('n', 3 if t[0] not in 'fdg' else 2),
                      layouts=('contig', 'neg', 'axis0') if t[0] in 'bdL' else ('contig',), pre=pre)
    return out
