"""searchsortedl, searchsortedr"""
from .common import gu, ns, loops_of, nonan

MODULES = ['_searchsorted']
BOUNDS = 'm = 0..5 (quick) / 8 elements, two loop iterations, four layouts; every numeric loop; all sorted non-nan arrays'
ASSUME = ['the array is sorted in increasing order', 'no nan', 'object loops are decided by P35']


def pre(E, arr, v):
    return nonan(E, arr, v) + [a <= b for a, b in zip(arr, arr[1:])]


def spec(left):
    def f(E, arr, v, i):
        m = len(arr)
        for k in range(m + 1):
            # position k: everything before is (strictly) smaller, everything from k on is not
            before = [(a < v) if left else (a <= v) for a in arr[:k]]
            after = [E.Not(a < v) if left else E.Not(a <= v) for a in arr[k:]]
            E.claim(f'insertion point {k}', E.Implies(E.And(*before, *after), i == k))
    return f


def tasks(tier):
    out = []
    n = 5 if tier == 'quick' else 8
    for attr, left in (('searchsortedl', True), ('searchsortedr', False)):
        for t in loops_of('_searchsorted', attr):
            if t[0] == 'O':
                continue
            s = spec(left)
            out += gu(attr, '_searchsorted', s, 'fp', [t], ns('m', 0, 1, 2, n), pre=pre)
            out += gu(attr, '_searchsorted', s, 'fp', [t], ns('m', 4),
                      layouts=('contig', 'neg', 'axis0') if t[0] in 'bdL' else ('contig',), pre=pre)
    return out
