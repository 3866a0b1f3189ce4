"""kbnsum"""
from .common import gu, ns

MODULES = ['_kbnsum']
BOUNDS = 'mathematical reals: n = 0..4 elements, finite, infinite and nan, contiguous / strided / negative / transposed layouts; ' \
         'floating point arithmetic: the compensation restores the cancelled term of (a, y, -a) and (y, a, -a) exactly, for all ' \
         'mantissas and signs of a and y, a in [1, 2), y in [2^-k, 2^(1-k)), for a list of k up to beyond the precision; f, d'
ASSUME = ['no overflow of partial sums']


def kbn(E, x, out):
    s = E.lit(0)
    sc = E.lit(1)
    for v in x:
        s = s + v
        sc = sc + abs(v)
    E.claim_eq('the sum', out, s, scale=sc)


def recover(k):
    def spec(E, x, out):
        E.claim('the term beside the cancelled pair is recovered exactly', E.same(out, x[k]))
    return spec


def window(order, k, am=None):
    """Elements a, y, -a in the given order; mantissas and signs symbolic, exponents fixed."""
    import z3
    from symex.dom import FPDom

    def values(i, l, q, tc):
        eb, mb = {'f': (8, 23), 'd': (11, 52)}[tc]
        bias = (1 << (eb - 1)) - 1
        what = order[q]
        nm = what[-1]
        m = z3.BitVec(f'{nm}.m', mb) if nm == 'y' or am is None else z3.BitVecVal(am, mb)
        bv = z3.simplify(z3.Concat(z3.BitVec(f'{nm}.s', 1), z3.BitVecVal(bias - (k if nm == 'y' else 0), eb), m))
        v = FPDom().from_bits(bv, {'f': 'float', 'd': 'double'}[tc])
        return z3.fpNeg(v) if what[0] == '-' else v
    return values


def gen(order, k, am):
    def f(rng, task):
        eb, mb = {'f': (8, 23), 'd': (11, 52)}[task.types[0]]
        bias = (1 << (eb - 1)) - 1
        top = 1 << (eb + mb)
        a = bias << mb | (rng.getrandbits(mb) if am is None else am)
        y = (bias - k) << mb | rng.getrandbits(mb) | rng.choice([0, top])
        return [[[{'a': a, 'y': y, '-a': a | top}[o] for o in order]]]
    return f


def tasks(tier):
    out = []
    n = 4 if tier == 'quick' else 6
    for t in ('ff', 'dd', 'gg'):
        out += gu('kbnsum', '_kbnsum', kbn, 'realx', [t], ns('n', 0, 1, 2, 3), nloops=1)
        out += gu('kbnsum', '_kbnsum', kbn, 'realx', [t], ns('n', n), layouts=('contig',), nloops=1)
        out += gu('kbnsum', '_kbnsum', kbn, 'realx', [t], ns('n', 2), layouts=('strided', 'contig', 'neg', 'axis0'))
    ks = {'ff': [(1, 1), (1, 0x2aaaab), (5, 1), (12, 0x2aaaab), (23, 0x7fffff), (24, None), (25, None), (40, None)],
          'dd': [(53, None), (80, None)]}
    if tier != 'quick':
        ks['ff'] += [(k, m) for k in range(1, 30) for m in (0, 0x123457, 0x7fffff)] + [(23, None), (22, None)]
        ks['dd'] += [(1, 1)] + [(k, m) for k in range(1, 60, 4) for m in (0, 0x123456789abcd)]
    for t in ks:
        for k, am in ks[t]:
            for order in (('a', 'y', '-a'), ('y', 'a', '-a')):
                out += gu('kbnsum', '_kbnsum', recover(order.index('y')), 'fp', [t], [{'n': 3}], nloops=1, values=window(order, k, am), free=True,
                          gen=gen(order, k, am), obligations=False)
    return out
