"""first, argfirst"""
from symex import registry
from .common import gu, ns, loops_of

MODULES = ['_first']
BOUNDS = 'n <= 4 (quick) / 6 elements, two loop iterations, contiguous / strided / negative / transposed layouts; ' \
         'every numeric loop; all element values including nan and inf; every op byte'
ASSUME = ['object loops are decided by P35']


def ops():
    c = registry.get('_first').consts
    return {'_LT': c['_LT'], '_LE': c['_LE'], '_EQ': c['_EQ'], '_NE': c['_NE'], '_GT': c['_GT'], '_GE': c['_GE']}


def rel(E, op, a, b):
    """a <op> b"""
    c = ops()
    return E.Or(E.And(op == c['_LT'], a < b), E.And(op == c['_LE'], a <= b), E.And(op == c['_EQ'], a == b),
                E.And(op == c['_NE'], a != b), E.And(op == c['_GT'], a > b), E.And(op == c['_GE'], a >= b))


def first(E, x, op, target, otherwise, out):
    none_before = True
    for k, v in enumerate(x):
        hit = rel(E, op, v, target)
        E.claim(f'first match at {k}', E.Implies(E.And(none_before, hit), E.bitsame(out, v)))
        none_before = E.And(none_before, E.Not(hit))
    E.claim('no match -> otherwise', E.Implies(none_before, E.bitsame(out, otherwise)))


def argfirst(E, x, op, target, out):
    none_before = True
    for k, v in enumerate(x):
        hit = rel(E, op, v, target)
        E.claim(f'first match at {k}', E.Implies(E.And(none_before, hit), out == k))
        none_before = E.And(none_before, E.Not(hit))
    E.claim('no match -> -1', E.Implies(none_before, out == -1))


def tasks(tier):
    out = []
    n = 4 if tier == 'quick' else 6
    for attr, spec in (('first', first), ('argfirst', argfirst)):
        for t in loops_of('_first', attr):
            if t[0] == 'O':
                continue
            out += gu(attr, '_first', spec, 'fp', [t], ns('n', 0, n))
            out += gu(attr, '_first', spec, 'fp', [t], ns('n', 3), layouts=('contig', 'neg', 'axis0') if t[0] in 'bdL' else ('contig',))
    return out
