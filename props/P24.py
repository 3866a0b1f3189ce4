"""peaktopeak"""
from .common import gu, ns, loops_of
import z3

MODULES = ['_peaktopeak']
BOUNDS = 'n = 1..4 elements (quick), 6 (thorough); every integer loop in exact machine arithmetic, floating point loops exact; ' \
         'contiguous / strided / negative / transposed layouts, two loop iterations'
ASSUME = ['no nan among floating point elements']


def ptp_int(E, x, out):
    """out + min == max as mathematical integers."""
    hi, lo = x[0], x[0]
    for v in x[1:]:
        hi = E.ite(v > hi, v, hi)
        lo = E.ite(v < lo, v, lo)
    w = out.w + 2
    a, b, c = out.ext(w), lo.ext(w), hi.ext(w)
    if all(isinstance(v, int) for v in (a, b, c)):
        E.claim('largest minus smallest', (a + b - c) % (1 << w) == 0)
    else:
        a, b, c = [z3.BitVecVal(v, w) if isinstance(v, int) else v for v in (a, b, c)]
        E.claim('largest minus smallest', a + b == c)


def ptp_f(E, x, out):
    hi, lo = x[0], x[0]
    for v in x[1:]:
        hi = E.ite(v > hi, v, hi)
        lo = E.ite(v < lo, v, lo)
    E.claim('largest minus smallest', E.same(out, hi - lo))


def nonan(E, x):
    return [E.Not(v.isnan()) for v in x]


def tasks(tier):
    out = []
    n = 4 if tier == 'quick' else 6
    for t in loops_of('_peaktopeak', 'peaktopeak'):
        if t == 'OO':
            continue
        fl = t[0] in 'fdg'
        f, mode, pre = (ptp_f, 'opaque', nonan) if fl else (ptp_int, 'fp', None)
        out += gu('peaktopeak', '_peaktopeak', f, mode, [t], ns('n', 1, 2, n), layouts=('strided', 'contig'), nloops=1, pre=pre)
        out += gu('peaktopeak', '_peaktopeak', f, mode, [t], ns('n', 3), layouts=('strided', 'contig', 'neg', 'axis0'), pre=pre)
    return out
