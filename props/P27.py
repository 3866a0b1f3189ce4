"""sosfilter, sosfilter_ic, sosfilter_ic_contig"""
from .common import gu, LAYG

MODULES = ['_sosfilter']
BOUNDS = 'm = 0..3 sections, n = 0..5 (quick) / 7 samples, contiguous / strided / negative / transposed layouts, ' \
         'up to two loop iterations (sosfilter_ic_contig: contiguous only, as documented); f, d, g'
ASSUME = ['mathematical reals: polynomial identity in all coefficients, samples and initial states', 'calloc succeeds']


def cascade(E, sos, x, z):
    """Every section is y[i] = b0 x[i] + b1 x[i-1] + b2 x[i-2] - a1 y[i-1] - a2 y[i-2]; z = (what the past adds to
    the next output, ... to the one after it)."""
    y, zf = list(x), []
    for s, (p, q) in zip(sos, z):
        b0, b1, b2, _, a1, a2 = s
        u, v = y, []
        for i in range(len(u)):
            t = b0 * u[i]
            t = t + (b1 * u[i - 1] - a1 * v[i - 1] if i >= 1 else p)
            if i >= 2:
                t = t + b2 * u[i - 2] - a2 * v[i - 2]
            elif i == 1:
                t = t + q
            v.append(t)
        n = len(u)
        if n == 0:
            e = (p, q)
        elif n == 1:
            e = (b1 * u[0] - a1 * v[0] + q, b2 * u[0] - a2 * v[0])
        else:
            e = (b1 * u[-1] - a1 * v[-1] + b2 * u[-2] - a2 * v[-2], b2 * u[-1] - a2 * v[-1])
        y = v
        zf.append(e)
    return y, zf


def size(E, sos, x, z):
    """A bound for the magnitudes involved (tolerance of a replay)."""
    s = E.lit(1)
    for row in sos:
        for c in row:
            s = s + abs(c)
    for v in x:
        s = s + abs(v)
    for a, b in z:
        s = s + abs(a) + abs(b)
    r = s
    for _ in range(2 * len(x) + 2 * len(sos) + 1):
        r = r * s
    return r


def rows(flat, k):
    return [flat[i:i + k] for i in range(0, len(flat), k)]


def sosf(E, sos, x, y):
    sos = rows(sos, 6)
    zero = E.lit(0)
    z = [(zero, zero)] * len(sos)
    sc = size(E, sos, x, z) if E.concrete else None
    v, _ = cascade(E, sos, x, z)
    for i in range(len(x)):
        E.claim_eq(f'sample {i}', y[i], v[i], scale=sc)


def sosic(E, sos, x, zi, y, zf):
    sos = rows(sos, 6)
    z = [tuple(r) for r in rows(zi, 2)]
    sc = size(E, sos, x, z) if E.concrete else None
    v, f = cascade(E, sos, x, z)
    for i in range(len(x)):
        E.claim_eq(f'sample {i}', y[i], v[i], scale=sc)
    for k, r in enumerate(rows(zf, 2)):
        E.claim_eq(f'final state {k}, next output', r[0], f[k][0], scale=sc)
        E.claim_eq(f'final state {k}, output after next', r[1], f[k][1], scale=sc)


def tasks(tier):
    out = []
    q = tier == 'quick'
    big = [{'m': 1, 'n': 5}, {'m': 2, 'n': 3}, {'m': 3, 'n': 2}] if q else [{'m': 1, 'n': 7}, {'m': 2, 'n': 4}, {'m': 3, 'n': 3}]
    small = [{'m': 0, 'n': 2}, {'m': 1, 'n': 0}, {'m': 1, 'n': 1}, {'m': 2, 'n': 2}]
    for t in 'fdg':
        for attr, spec, ty, lay in (('sosfilter', sosf, t * 3, LAYG), ('sosfilter_ic', sosic, t * 5, LAYG),
                                    ('sosfilter_ic_contig', sosic, t * 5, ('contig',))):
            out += gu(attr, '_sosfilter', spec, 'real', [ty], small, layouts=lay)
            out += gu(attr, '_sosfilter', spec, 'real', [ty], big, layouts=lay[:2], nloops=1)
            if len(lay) > 1:
                # the fast path applies when some arrays are contiguous
                k = len(ty)
                mixed = [('revin',) + ('contig',) * (k - 1), 'revin'] + [tuple('strided' if j == i else 'contig' for j in range(k)) for i in range(k)] + \
                    [tuple('contig' if j == i else 'strided' for j in range(k)) for i in range(k)]
                out += gu(attr, '_sosfilter', spec, 'real', [ty], [{'m': 2, 'n': 2}], layouts=mixed, nloops=2)
    return out
