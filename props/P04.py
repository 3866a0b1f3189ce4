"""step, linearstep, smoothstep3, smoothstep5, invsmoothstep3"""
from .common import elementwise

MODULES = ['_step']
BOUNDS = 'element-wise: one element and two elements in a strided layout; all values of f, d, g. ' \
         'Branch selection and boundary values: exact IEEE arithmetic with + - * / uninterpreted. ' \
         'Interior formula: mathematical reals (rounding, overflow outside the claim).'
ASSUME = ['x, a, b, fa, fb are not nan']


def nonan(E, *a):
    return [E.Not(x.isnan()) for x in a]


def fin(E, *a):
    return [x.isfin() for x in a]


def step(E, x, a, flow, fa, fhigh, y):
    E.claim('x < a -> flow', E.Implies(x < a, E.bitsame(y, flow)))
    E.claim('x > a -> fhigh', E.Implies(x > a, E.bitsame(y, fhigh)))
    E.claim('x == a -> fa', E.Implies(x == a, E.bitsame(y, fa)))


def ends(E, x, a, b, fa, fb, y):
    E.claim('a > b -> nan', E.Implies(a > b, y.isnan()))
    E.claim('x <= a -> fa', E.Implies(E.And(a <= b, x <= a), E.bitsame(y, fa)))
    E.claim('x >= b -> fb', E.Implies(E.And(a <= b, x >= b, x > a), E.bitsame(y, fb)))


def poly(p):
    def f(E, x, a, b, fa, fb, y):
        inside = E.And(a < x, x < b)
        u = (x - a) / (b - a)
        want = fa + (fb - fa) * p(u)
        sc = abs(fa) + abs(fb) + 1
        E.claim_eq('interior formula', y, want, scale=sc, when=inside)
        E.claim_eq('left end', y, fa, when=E.And(a <= b, x <= a))
        E.claim_eq('right end', y, fb, when=E.And(a <= b, x >= b, x > a))
    return f


def inv_ends(E, y, a, b, fa, fb, x):
    E.claim('fa == fb -> nan', E.Implies(fa == fb, x.isnan()))
    ok = fa != fb
    E.claim('y == fa -> a', E.Implies(E.And(ok, y == fa), E.bitsame(x, a)))
    E.claim('y == fb -> b', E.Implies(E.And(ok, y == fb), E.bitsame(x, b)))
    out = E.Or(E.And(y > fa, y > fb), E.And(y < fa, y < fb))
    E.claim('outside the range -> nan', E.Implies(E.And(ok, out), x.isnan()))


def inv_formula(E, y, a, b, fa, fb, x):
    """x = a + (b - a)*s with 3 s^2 - 2 s^3 = t, where s = 1/2 - sin(asin(1 - 2t)/3).

    The trigonometric identity is the cited closed form; it is checked as such."""
    inside = E.Or(E.And(fa < y, y < fb), E.And(fb < y, y < fa))
    t = (y - fa) / (fb - fa)
    s = 0.5 - E.call('sin', E.call('asin', 1 - 2 * t) / 3)
    E.claim_eq('inverse formula', x, a + (b - a) * s, scale=abs(a) + abs(b) + 1, when=inside)


P = {'linearstep': lambda u: u, 'smoothstep3': lambda u: u * u * (3 - 2 * u),
     'smoothstep5': lambda u: u * u * u * (u * (6 * u - 15) + 10)}


def tasks(tier):
    out = elementwise('step', '_step', 6, step, 'fp', pre=nonan)
    out += elementwise('step', '_step', 6, step, 'fp', types='d', layouts=('strided',), nloops=2, pre=nonan)
    for n, p in P.items():
        out += elementwise(n, '_step', 6, ends, 'opaque', pre=nonan)
        out += elementwise(n, '_step', 6, ends, 'opaque', types='fg', layouts=('strided',), nloops=2, pre=nonan)
        out += elementwise(n, '_step', 6, poly(p), 'real')
    out += elementwise('invsmoothstep3', '_step', 6, inv_ends, 'opaque', pre=nonan)
    out += elementwise('invsmoothstep3', '_step', 6, inv_ends, 'opaque', types='d', layouts=('strided',),
                       nloops=2, pre=nonan)
    out += elementwise('invsmoothstep3', '_step', 6, inv_formula, 'real')
    return out
