"""wjaccard"""
from .common import gu, ns, loops_of

MODULES = ['_wjaccard']
BOUNDS = 'n = 1..3 elements (quick), 5 (thorough); every integer and floating point loop; contiguous / strided / negative / ' \
         'transposed / mixed layouts, two loop iterations; arithmetic over mathematical reals, nan symbolic'
ASSUME = ['floating point elements are finite or nan', 'mathematical reals']


def wj(E, x, y, out):
    ty = out.t
    xs = [v.tof(ty) if hasattr(v, 'tof') else v for v in x]
    ys = [v.tof(ty) if hasattr(v, 'tof') else v for v in y]
    nan = E.Or(*[v.isnan() for v in xs + ys])
    lo = hi = E.lit(0, ty)
    sc = E.lit(1, ty)
    for a, b in zip(xs, ys):
        lo = lo + E.ite(a <= b, a, b)
        hi = hi + E.ite(a <= b, b, a)
        sc = sc + abs(a) + abs(b)
    E.claim('nan element: nan', E.Implies(nan, out.isnan()))
    E.claim('zero over zero: nan', E.Implies(E.And(E.Not(nan), hi == 0, lo == 0), out.isnan()))
    E.claim('zero denominator: not finite', E.Implies(E.And(E.Not(nan), hi == 0), E.Not(out.isfin())))
    E.claim_eq('sum of minima over sum of maxima', out * hi, lo, scale=sc * (abs(out) + 1), when=E.And(E.Not(nan), hi != 0))


def noinf(E, x, y):
    return [E.Not(v.isinf()) for v in x + y]


def tasks(tier):
    out = []
    n = 3 if tier == 'quick' else 5
    for t in loops_of('_wjaccard', 'wjaccard'):
        fl = t[0] in 'fdg'
        kw = dict(ty={'f': 'float', 'd': 'double', 'g': 'x86_fp80'}[t[2]], zimode=True, first=3)
        if fl:
            kw['pre'] = noinf
        out += gu('wjaccard', '_wjaccard', wj, 'realx' if fl else 'real', [t], ns('n', 1, n), nloops=1, **kw)
        out += gu('wjaccard', '_wjaccard', wj, 'realx' if fl else 'real', [t], ns('n', 2),
                  layouts=('strided', 'contig', 'neg', 'axis0', ('contig', 'strided', 'contig')) if fl else ('strided', 'axis0'), **kw)
    return out
