"""deadzone and trapezoid_pulse"""
from .common import elementwise, nonan

MODULES = ['_deadzone', '_trapezoid_pulse']
BOUNDS = 'one element (contiguous) and two elements (strided); all values of f, d, g. Branches and end points: ' \
         'IEEE arithmetic, with + - * / uninterpreted; shifted values and ramps: mathematical reals.'
ASSUME = ['no argument is nan', 'deadzone: low <= high']


def dz_pre(E, x, low, high):
    return nonan(E, x, low, high) + [low <= high]


def dz(E, x, low, high, y):
    E.claim('inside the zone -> 0', E.Implies(E.And(x >= low, x <= high), y == 0))
    E.claim('below: x - low', E.Implies(x < low, E.same(y, x - low)))
    E.claim('above: x - high', E.Implies(x > high, E.same(y, x - high)))


def dz_real(E, x, low, high, y):
    E.claim_eq('value', y, E.ite(x < low, x - low, E.ite(x > high, x - high, E.lit(0))),
               scale=abs(x) + abs(low) + abs(high) + 1, when=low <= high)


def tp(E, x, a, b, c, d, amp, y):
    ok = E.And(a <= b, b <= c, c <= d)
    E.claim('not a <= b <= c <= d -> nan', E.Implies(E.Not(ok), y.isnan()))
    E.claim('outside (a, d) -> 0', E.Implies(E.And(ok, E.Or(x <= a, x >= d)), y == 0))
    E.claim('on the top -> amp', E.Implies(E.And(ok, x > a, x < d, x >= b, x <= c), E.bitsame(y, amp)))


def tp_real(E, x, a, b, c, d, amp, y):
    ok = E.And(a <= b, b <= c, c <= d)
    E.claim_eq('rising edge', y, amp * ((x - a) / (b - a)), scale=abs(amp) + 1,
               when=E.And(ok, x > a, x < b))
    E.claim_eq('falling edge', y, amp * ((d - x) / (d - c)), scale=abs(amp) + 1,
               when=E.And(ok, x > c, x < d))
    E.claim_eq('outside', y, E.lit(0), when=E.And(ok, E.Or(x <= a, x >= d)))
    E.claim_eq('top', y, amp, when=E.And(ok, x > a, x < d, x >= b, x <= c))


def tasks(tier):
    out = elementwise('deadzone', '_deadzone', 4, dz, 'opaque', pre=dz_pre)
    out += elementwise('deadzone', '_deadzone', 4, dz, 'opaque', layouts=('strided',), nloops=2, pre=dz_pre)
    out += elementwise('deadzone', '_deadzone', 4, dz_real, 'real')
    out += elementwise('trapezoid_pulse', '_trapezoid_pulse', 7, tp, 'opaque', pre=nonan)
    out += elementwise('trapezoid_pulse', '_trapezoid_pulse', 7, tp, 'opaque', types='fg', layouts=('strided',),
                       nloops=2, pre=nonan)
    out += elementwise('trapezoid_pulse', '_trapezoid_pulse', 7, tp_real, 'real')
    return out
