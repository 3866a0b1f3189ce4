"""multivariate_logbeta"""
from .common import gu, ns, LAYG

MODULES = ['_multivariate_logbeta']
BOUNDS = 'n = 0..4 elements (quick) / 7, two loop iterations; contiguous, strided, negative and transposed layouts; f, d, g'
ASSUME = ['mathematical reals, lgamma uninterpreted', 'elements positive', 'special values: exact IEEE comparisons']
STUBS = ['lgamma']


def pre(E, x):
    return [v > 0 for v in x]


def spec(E, x, out):
    s = x[0]
    t = E.call('lgamma', x[0])
    for v in x[1:]:
        s = s + v
        t = t + E.call('lgamma', v)
    t = t - E.call('lgamma', s)
    E.claim_eq('sum of lgamma minus lgamma of the sum', out, t, scale=1 + abs(t) + s * s)


def empty(E, x, out):
    E.claim('no elements: nan', out.isnan())


def tasks(tier):
    n = 4 if tier == 'quick' else 7
    a = ('multivariate_logbeta', '_multivariate_logbeta')
    out = gu(*a, spec, 'real', 'ff dd gg'.split(), ns('n', *range(1, n + 1)), layouts=LAYG + ('bcast',), pre=pre)
    out += gu(*a, empty, 'opaque', 'ff dd gg'.split(), ns('n', 0), layouts=('contig', 'strided'))
    return out
