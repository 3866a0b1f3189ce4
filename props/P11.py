"""ordered, all_same"""
from .common import gu, ns, loops_of
from .P09 import rel, ops

MODULES = ['_ordered', '_all_same', '_first']
BOUNDS = 'n = 0..4 (quick) / 6 elements, two loop iterations, contiguous / strided / negative / transposed layouts; ' \
         'every numeric loop; all element values including nan'
ASSUME = ['op is one of the six codes', 'object loops are decided by P35']


def pre(E, x, op):
    return [E.Or(*[op == c for c in ops().values()])]


def ordered(E, x, op, out):
    want = E.And(*[rel(E, op, a, b) for a, b in zip(x, x[1:])])
    E.claim('true iff every adjacent pair is in the order', E.Iff(out != 0, want))
    E.claim('boolean', E.Or(out == 0, out == 1))


def all_same(E, x, out):
    want = E.And(*[a == x[0] for a in x[1:]])
    E.claim('true iff all elements are equal', E.Iff(out != 0, want))
    E.claim('boolean', E.Or(out == 0, out == 1))


def tasks(tier):
    out = []
    n = 4 if tier == 'quick' else 6
    for attr, m, spec, p in (('ordered', '_ordered', ordered, pre), ('all_same', '_all_same', all_same, None)):
        for t in loops_of(m, attr):
            if t[0] == 'O':
                continue
            out += gu(attr, m, spec, 'fp', [t], ns('n', 0, 1, 2, n), pre=p)
            out += gu(attr, m, spec, 'fp', [t], ns('n', 3),
                      layouts=('contig', 'neg', 'axis0') if t[0] in 'bdL' else ('contig',), pre=p)
    return out
