"""unwrap"""
from .common import gu, ns

MODULES = ['_unwrap']
BOUNDS = 'n = 0..4 elements (quick), 5 (thorough); contiguous / strided / negative / transposed layouts, two loop iterations; ' \
         'mathematical reals, any jump size; nan and infinite elements after the first symbolic'
ASSUME = ['period > 0 and finite', 'first element finite', 'mathematical reals: the multiple of the period is not rounded']


def uw(E, x, period, out):
    n = len(x)
    if n == 0:
        return
    E.claim_eq('first element unchanged', out[0], x[0])
    good = True
    for k in range(1, n):
        good = E.And(good, x[k].isfin())
        E.claim(f'element {k}: nan from the first element that is not finite on', E.Implies(E.Not(good), out[k].isnan()))
        d = (out[k] - x[k]) / period
        sc = abs(x[k]) + abs(out[k]) + period
        E.claim_le(f'element {k}: at most half a period from its predecessor', abs(out[k] - out[k - 1]) * 2, period, scale=sc, when=good)
        E.claim(f'element {k}: finite', E.Implies(good, out[k].isfin()))
        E.claim(f'element {k}: a whole number of periods from the input', E.Implies(good, whole(E, d, sc / period)))


def whole(E, d, sc):
    import z3
    from fractions import Fraction
    r = d.v.r
    if isinstance(r, (int, Fraction)):
        if not E.concrete:
            return Fraction(r).denominator == 1
        m = abs(sc.v.r) + 1
        return abs(r - round(r)) <= E.tol * m
    return z3.IsInt(r)


def pre(E, x, p):
    return [p > 0, p.isfin()] + ([x[0].isfin()] if x else [])


def gen(rng, task):
    from fractions import Fraction
    from symex.num import frac_to_bits
    from symex.spec import LT
    n = task.dims['n']
    t = LT[task.types[0]]
    p = [rng.choice([1, 2, Fraction(1, 2), 5]) for _ in range(task.nloops)]
    return [[[frac_to_bits(Fraction(rng.randrange(-200, 200), 8) * rng.choice([1, 1, 64]), t) for _ in range(n)] for _ in range(task.nloops)],
            [[frac_to_bits(Fraction(v), t)] for v in p]]


def tasks(tier):
    out = []
    n = 3 if tier == 'quick' else 4
    for t in ('fff', 'ddd', 'ggg'):
        kw = dict(pre=pre, gen=gen, first=4)
        out += gu('unwrap', '_unwrap', uw, 'realx', [t], ns('n', 0, 1, 2, 3), nloops=1, **kw)
        out += gu('unwrap', '_unwrap', uw, 'real', [t], ns('n', 2), layouts=('contig', 'strided', 'neg', 'axis0'), **kw)
        out += gu('unwrap', '_unwrap', uw, 'real', [t], ns('n', 3), layouts=('contig', 'strided'), nloops=1, **kw)
        if tier != 'quick':
            out += gu('unwrap', '_unwrap', uw, 'real', [t], ns('n', 4, 5), nloops=1, **kw)
    return out
