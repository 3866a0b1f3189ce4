"""backlash, backlash_sum, hysteresis_relay"""
from .common import gu, ns, nonan, fin

MODULES = ['_backlash', '_hysteresis_relay']
BOUNDS = 'signal length n <= 4 (quick) / 6 (thorough), m <= 2 elements, two loop iterations; all values of f, d, g; ' \
         'relay: exact IEEE comparisons including nan-free signals; backlash: mathematical reals, deadband >= 0'
ASSUME = ['deadband >= 0 (backlash)', 'no nan', 'low_threshold <= high_threshold (relay)']


def bl_pre(E, x, db, init):
    return [db >= 0]


def play(E, x, h, y):
    """Play operator: y is moved just far enough to keep |x - y| <= h."""
    return E.fmax(x - h, E.fmin(x + h, y))


def bl(E, x, db, init, out):
    y = init
    h = db / 2
    for k, xk in enumerate(x):
        sc = abs(xk) + abs(db) + abs(init) + 1
        y = play(E, xk, h, y)
        E.claim_eq(f'y[{k}] follows the play operator', out[k], y, scale=sc)
        E.claim_le(f'|x - y| <= deadband/2 at {k}', abs(xk - out[k]), h)


def bls_pre(E, x, w, db, init):
    return [d >= 0 for d in db]


def bls(E, x, w, db, init, out, final):
    ys = list(init)
    for k, xk in enumerate(x):
        ys = [play(E, xk, d / 2, y) for d, y in zip(db, ys)]
        tot = E.lit(0)
        sc = E.lit(1)
        for a, y in zip(w, ys):
            tot = tot + a * y
            sc = sc + abs(a) * abs(y)
        E.claim_eq(f'out[{k}] is the weighted sum', out[k], tot, scale=sc)
    for j, y in enumerate(ys):
        E.claim_eq(f'final[{j}]', final[j], y)


def relay_pre(E, x, lt, ht, lv, hv, init):
    return nonan(E, x, lt, ht) + [lt <= ht]


def relay(E, x, lt, ht, lv, hv, init, out):
    prev = init
    for k, xk in enumerate(x):
        want = E.ite(xk < lt, lv, E.ite(xk > ht, hv, prev))
        E.claim(f'relay state at {k}', E.bitsame(out[k], want))
        prev = want


def tasks(tier):
    n = 4 if tier == 'quick' else 6
    out = gu('backlash', '_backlash', bl, 'real', ['ffff', 'dddd', 'gggg'], ns('n', 1, n), pre=bl_pre)
    out += gu('backlash', '_backlash', bl, 'real', ['dddd'], ns('n', 3), layouts=('contig', 'neg', 'axis0'), pre=bl_pre)
    for t in 'fdg':
        out += gu('backlash_sum', '_backlash', bls, 'real', [t * 6],
                  [{'n': 1, 'm': 1}, {'n': 1, 'm': 2}, {'n': 2, 'm': 1}, {'n': 0, 'm': 2}, {'n': 2, 'm': 0}],
                  pre=bls_pre)
        out += gu('backlash_sum', '_backlash', bls, 'real', [t * 6], [{'n': 2, 'm': 2}], nloops=1, pre=bls_pre)
        if tier != 'quick':
            out += gu('backlash_sum', '_backlash', bls, 'real', [t * 6], [{'n': 2, 'm': 2}], pre=bls_pre)
            out += gu('backlash_sum', '_backlash', bls, 'real', [t * 6], [{'n': 3, 'm': 2}], nloops=1, pre=bls_pre)
    out += gu('backlash_sum', '_backlash', bls, 'real', ['dddddd'], [{'n': 3, 'm': 1}], layouts=('neg', 'axis0'),
              pre=bls_pre, nloops=1)
    out += gu('hysteresis_relay', '_hysteresis_relay', relay, 'fp', ['f' * 7, 'd' * 7, 'g' * 7], ns('n', 1, n), pre=relay_pre)
    out += gu('hysteresis_relay', '_hysteresis_relay', relay, 'fp', ['d' * 7], ns('n', 3),
              layouts=('contig', 'neg', 'axis0'), pre=relay_pre)
    return out
