"""linear_interp1d"""
from .common import gu, ns

MODULES = ['_linear_interp1d']
BOUNDS = 'n = 0..5 knots (quick) / 8, contiguous / strided / negative / transposed and broadcast layouts (one argument and one knot ' \
         'array for several value arrays), up to two loop iterations; f and d, every argument including nan and infinities'
ASSUME = ['knots finite and strictly increasing (documented)', 'values between knots: mathematical reals; selection of '
          'knots, ends and nan: exact IEEE arithmetic']


def pre(E, x, xp, fp):
    return [v.isfin() for v in xp] + [a < b for a, b in zip(xp, xp[1:])]


def exact(E, x, xp, fp, out):
    n = len(xp)
    if n == 0:
        E.claim('no knots: nan', out.isnan())
        return
    E.claim('outside the knots or nan: nan', E.Implies(E.Not(E.And(x >= xp[0], x <= xp[-1])), out.isnan()))
    for k in range(n):
        E.claim(f'at knot {k}: its value', E.Implies(x == xp[k], E.bitsame(out, fp[k])))


def segment(E, x, xp, fp, out):
    exact(E, x, xp, fp, out)
    for k in range(len(xp) - 1):
        a, b = xp[k], xp[k + 1]
        u, v = fp[k], fp[k + 1]
        w = E.And(x > a, x < b, u.isfin(), v.isfin())
        E.claim_eq(f'between knots {k} and {k + 1}', out * (b - a), u * (b - x) + v * (x - a), when=w,
                   scale=(abs(u) + abs(v) + abs(out)) * (abs(a) + abs(b) + abs(x)))
        E.claim_le(f'between the values {k}, {k + 1}: not below', E.fmin(u, v), out, when=w, scale=abs(u) + abs(v))
        E.claim_le(f'between the values {k}, {k + 1}: not above', out, E.fmax(u, v), when=w, scale=abs(u) + abs(v))


def gen(rng, task):
    from fractions import Fraction
    from symex.num import frac_to_bits
    from symex.spec import LT
    n = task.dims['n']
    t = LT[task.types[0]]

    def b(v):
        return frac_to_bits(Fraction(v), t)
    out = [[], [], []]
    for _ in range(task.nloops):
        k = sorted(rng.sample(range(-40, 40), n))
        out[1].append([b(Fraction(v, 4)) for v in k])
        out[2].append([b(Fraction(rng.randrange(-40, 40), 4)) for v in k])
        x = Fraction(rng.randrange(min(k, default=0) - 1, max(k, default=0) + 2), 4)
        if rng.random() < .3:
            x += Fraction(1, 8)
        out[0].append([b(x)])
    return out


def tasks(tier):
    out = []
    n = 5 if tier == 'quick' else 8
    bc = [('bcast', 'bcast', 'contig', 'contig'), ('bcast', 'bcast', 'strided', 'strided'), ('bcast', 'contig', 'bcast', 'contig'),
          ('contig', 'bcast', 'bcast', 'contig'), ('contig', 'bcast', 'contig', 'neg'), ('bcast', 'contig', 'contig', 'strided'),
          ('bcast', 'bcast', 'neg', 'axis0')]
    for t in ('ffff', 'dddd'):
        kw = dict(pre=pre, gen=gen)
        for mode, spec in (('opaque', exact), ('real', segment)):
            out += gu('linear_interp1d', '_linear_interp1d', spec, mode, [t], ns('n', 0, 1, 2, 3, 4, n), nloops=1, **kw)
            out += gu('linear_interp1d', '_linear_interp1d', spec, mode, [t], ns('n', 2), layouts=('contig', 'strided', 'neg', 'axis0'), **kw)
            out += gu('linear_interp1d', '_linear_interp1d', spec, mode, [t], ns('n', 0, 1, 2, 3), layouts=bc, **kw)
            out += gu('linear_interp1d', '_linear_interp1d', spec, mode, [t], ns('n', 4, n), layouts=bc[:2], nloops=1, **kw)
    return out
