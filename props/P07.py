"""nan_to_num, issnan, fillnan1d"""
from .common import elementwise, gu, ns

MODULES = ['_nan_to_num', '_issnan', '_fillnan1d']
BOUNDS = 'nan_to_num: all values of f, d, g; issnan: every bit pattern of e, f, d; fillnan1d: n <= 5 (quick) / 7, ' \
         'two loop iterations; copied elements exact, interpolated elements over mathematical reals'
ASSUME = ['fillnan1d interpolation: the non-nan elements are finite']

EXP = {'H': (5, 10), 'I': (8, 23), 'L': (11, 52)}


def ntn(E, x, r, y):
    E.claim('value kept', E.Implies(E.Not(x.isnan()), E.bitsame(y, x)))
    E.claim('nan replaced', E.Implies(x.isnan(), E.bitsame(y, r)))


def snan(E, b, y):
    e, m = EXP[E.types[0]]
    w = e + m + 1
    body = b.bv() if not isinstance(b.v, int) else b.v
    absb = body & ((1 << (w - 1)) - 1)
    inf = ((1 << e) - 1) << m
    quiet = 1 << (m - 1)
    if isinstance(absb, int):
        isnan, isq = absb > inf, bool(absb & quiet)
    else:
        import z3
        isnan, isq = z3.UGT(absb, inf), (absb & quiet) != 0
    E.claim('true exactly for signaling nans', E.Iff(y != 0, E.And(isnan, E.Not(isq))))
    E.claim('boolean result', E.Or(y == 0, y == 1))


def fill_exact(E, x, out):
    n = len(x)
    seen_before = False
    for i in range(n):
        some_right = E.Or(*[E.Not(x[j].isnan()) for j in range(i + 1, n)])
        E.claim(f'valid element {i} kept', E.Implies(E.Not(x[i].isnan()), E.same(out[i], x[i])))
        # leading nans take the first valid value
        first = E.nan()
        for j in range(n - 1, i, -1):
            first = E.ite(x[j].isnan(), first, x[j])
        E.claim(f'leading nan {i}', E.Implies(E.And(x[i].isnan(), E.Not(seen_before)), E.same(out[i], first)))
        last = E.nan()
        for j in range(i):
            last = E.ite(x[j].isnan(), last, x[j])
        E.claim(f'trailing nan {i}', E.Implies(E.And(x[i].isnan(), seen_before, E.Not(some_right)),
                                               E.same(out[i], last)))
        seen_before = E.Or(seen_before, E.Not(x[i].isnan()))


def fill_real(E, x, out):
    n = len(x)
    fill_exact(E, x, out)
    for i in range(n):
        for a in range(i):
            for b in range(i + 1, n):
                cond = E.And(E.Not(x[a].isnan()), E.Not(x[b].isnan()), *[x[j].isnan() for j in range(a + 1, b)],
                             x[a].isfin(), x[b].isfin())
                want = x[a] + (x[b] - x[a]) * (i - a) / (b - a)
                E.claim_eq(f'nan {i} between {a} and {b}', out[i], want, scale=abs(x[a]) + abs(x[b]) + 1, when=cond)


def fin_or_nan(E, x):
    return [E.Not(y.isinf()) for y in x]


def tasks(tier):
    n = 5 if tier == 'quick' else 7
    out = elementwise('nan_to_num', '_nan_to_num', 3, ntn, 'fp')
    out += elementwise('nan_to_num', '_nan_to_num', 3, ntn, 'fp', layouts=('strided', 'neg', 'bcast'), nloops=2)
    out += elementwise('nan_to_num', '_nan_to_num', 3, ntn, 'fp', nloops=2, inplace={0: 0})
    for t, v in (('e?', 'H?'), ('f?', 'I?'), ('d?', 'L?')):
        out += gu('issnan', '_issnan', snan, 'fp', [t], [{}], layouts=('contig', 'strided'), nloops=(1, 2), vtypes=v)
    for t in ('ff', 'dd', 'gg'):
        out += gu('fillnan1d', '_fillnan1d', fill_exact, 'opaque', [t], ns('n', 0, 1, 2, 3), nloops=1)
        out += gu('fillnan1d', '_fillnan1d', fill_exact, 'opaque', [t], ns('n', 2))
        out += gu('fillnan1d', '_fillnan1d', fill_real, 'realx', [t], ns('n', 3, n), nloops=1, pre=fin_or_nan)
    out += gu('fillnan1d', '_fillnan1d', fill_real, 'realx', ['dd'], ns('n', 4), layouts=('contig', 'neg', 'axis0'),
              pre=fin_or_nan, nloops=1)
    out += gu('fillnan1d', '_fillnan1d', fill_real, 'realx', ['dd'], ns('n', 3), layouts=('strided', 'axis0'),
              pre=fin_or_nan)
    return out
