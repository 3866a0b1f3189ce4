"""Element-wise formulas: ramps, semivariograms, pow1pm1, Yeo-Johnson, squared modulus, hypot3"""
from fractions import Fraction
from .common import elementwise, Task

MODULES = ['_ramp', 'semivar', '_pow1pm1', '_yeo_johnson', '_abs_squared', '_abssq', '_hypot3']
BOUNDS = 'one to three elements per call, contiguous, strided and negative layouts; f, d, g (and F, D, G for the squared modulus)'
ASSUME = ['mathematical reals: no rounding, no overflow; exp and log uninterpreted with algebraic axioms (log1p(x) = log(1+x), '
          'expm1(x) = exp(x)-1)', 'special values and the squared modulus: exact IEEE comparisons']
STUBS = ['exp', 'log', 'sqrt']
LN2 = Fraction(693147180559945309417232121458, 10 ** 30)
EPS = Fraction(1, 10 ** 9)


# ---- ramps
def ramp_common(E, x, a, out):
    E.claim('nan stays', E.Implies(E.Or(x.isnan(), E.And(a.isnan())), out.isnan()))
    E.claim('a < 0: nan', E.Implies(a < 0, out.isnan()))
    E.claim_eq('a = 0: the ramp', out, E.ite(x < 0, E.lit(0), x), when=E.And(a == 0, x.isfin()))
    fin = E.And(x.isfin(), a.isfin(), a > 0)
    E.claim('limit at inf', E.Implies(E.And(a > 0, a.isfin(), x.isinf(), x > 0), E.And(out.isinf(), out > 0)))
    E.claim_eq('limit at -inf', out, E.lit(0), when=E.And(a > 0, a.isfin(), x.isinf(), x < 0))
    E.claim_eq('a at 0', out, a, when=E.And(fin, x == 0))
    return fin


def hyperbolic(E, x, a, out):
    fin = ramp_common(E, x, a, out)
    # out is the root (x + sqrt(x^2 + 4 a^2))/2 of out (out - x) = a^2 that is positive
    E.claim_eq('(x + sqrt(x^2 + 4 a^2))/2: on the hyperbola', out * (out - x), a * a, scale=x * x + a * a, when=fin)
    E.claim_le('upper branch', E.lit(0), out, when=fin)
    E.claim_le('above the ramp', x, out, when=fin, scale=abs(x) + a)


def exp_special(E, x, a, out):
    ramp_common(E, x, a, out)


def exponential(E, x, a, out):
    fin = E.And(x.isfin(), a.isfin(), a > 0)
    ln2 = E.call('log', E.lit(2))
    u = x / a
    pos = E.call('log', E.call('exp', -u * ln2) + 1)
    neg = E.call('log', E.call('exp', u * ln2) + 1)
    for tag, w, v, l in (('x < 0: a log2(1 + 2^(x/a))', x < 0, out, neg), ('x > 0: x + a log2(1 + 2^(-x/a))', x > 0, out - x, pos)):
        # the constant 1/log(2) in the code is a rounded number
        w = E.And(fin, w)
        E.claim_le(tag + ' (lower bound)', a * l * (1 - EPS), v * LN2, when=w, scale=a + abs(x))
        E.claim_le(tag + ' (upper bound)', v * LN2, a * l * (1 + EPS), when=w, scale=a + abs(x))


# ---- semivariograms
def semi(kind):
    def f(E, h, nug, sill, rng, out):
        fin = E.And(*[v.isfin() for v in (h, nug, sill, rng)], rng > 0)
        sc = (abs(nug) + abs(sill) + 1) * (1 + abs(h) / abs(rng)) if not E.concrete or bool(fin) else None
        d = sill - nug
        if kind == 'exponential':
            E.claim_eq('nugget + (sill - nugget)(1 - exp(-3 h/range))', out, nug + d * (1 - E.call('exp', -(h * 3) / rng)), when=fin,
                       scale=(abs(nug) + abs(sill) + 1) * (1 + E.call('exp', -(h * 3) / rng)) if sc is not None else None)
            return
        u = h / rng
        body = {'linear': d * u, 'spherical': d * (u / 2) * (3 - u * u), 'parabolic': d * u * (2 - u)}[kind]
        sc = sc * (1 + u * u) if sc is not None else None
        E.claim_eq('within the range: the formula', out, nug + body, when=E.And(fin, h <= rng), scale=sc)
        E.claim_eq('beyond the range: the sill', out, sill, when=E.And(fin, h > rng))
        E.claim_eq('at the range: the sill', out, sill, when=E.And(fin, h == rng), scale=sc)
        E.claim_eq('at 0: the nugget', out, nug, when=E.And(fin, h == 0), scale=sc)
        E.claim_eq('infinite distance: the sill', out, sill, when=E.And(rng.isfin(), h.isinf(), h > 0, sill.isfin(), nug.isfin()))
    return f


# ---- (1 + x)^y - 1
def pow1pm1(E, x, y, out):
    E.claim('nan stays', E.Implies(E.Or(x.isnan(), y.isnan()), out.isnan()))
    E.claim('x < -1: nan', E.Implies(E.And(x < -1, y != 0, E.Not(y.isnan())), out.isnan()))
    fin = E.And(x.isfin(), y.isfin())
    E.claim_eq('y = 0: 0', out, E.lit(0), when=E.And(fin, x >= -1, y == 0))
    E.claim_eq('x = -1, y > 0: -1', out, E.lit(-1), when=E.And(fin, x == -1, y > 0))
    E.claim('x = -1, y < 0: inf', E.Implies(E.And(fin, x == -1, y < 0), E.And(out.isinf(), out > 0)))
    E.claim_eq('x = 0: 0', out, E.lit(0), when=E.And(fin, x == 0))
    e = E.call('exp', y * E.call('log', x + 1))
    E.claim_eq('exp(y log(1 + x)) - 1', out, e - 1, when=E.And(fin, x > -1), scale=e)


# ---- Yeo-Johnson
def yj_parts(E, x, lam):
    """(base, exponent): the transform of x is ((1+|x|)^e - 1)/e with the sign of x."""
    up = x >= 0
    return E.ite(up, x, -x), E.ite(up, lam, 2 - lam), up


def yeo(E, x, lam, out):
    E.claim('nan stays', E.Implies(E.Or(x.isnan(), lam.isnan()), out.isnan()))
    fin = E.And(x.isfin(), lam.isfin())
    for tag, w, u, e, o in (('x >= 0', x >= 0, x, lam, out), ('x < 0', x < 0, -x, 2 - lam, -out)):
        ok = E.And(fin, w)
        l = E.call('log', u + 1)
        p = E.call('exp', e * l)
        E.claim_eq(f'{tag}: exponent 0: log(1 + |x|)', o, l, when=E.And(ok, e == 0))
        E.claim_eq(f'{tag}: ((1 + |x|)^e - 1)/e', o * e, p - 1, when=E.And(ok, e != 0), scale=p + abs(o * e))
        E.claim_le(f'{tag}: sign kept', E.lit(0), o, when=ok)


def inv(E, x, lam, out):
    E.claim('nan stays', E.Implies(E.Or(x.isnan(), lam.isnan()), out.isnan()))
    fin = E.And(x.isfin(), lam.isfin())
    for tag, w, u, e, o in (('x >= 0', x >= 0, x, lam, out), ('x < 0', x < 0, -x, 2 - lam, -out)):
        ok = E.And(fin, w)
        r = 1 + e * u
        E.claim_eq(f'{tag}: exponent 0: exp(|x|) - 1', o, E.call('exp', u) - 1, when=E.And(ok, e == 0), scale=E.call('exp', u))
        E.claim(f'{tag}: at the supremum of the transform: infinite', E.Implies(E.And(ok, r == 0), E.And(o.isinf(), o > 0)))
        E.claim(f'{tag}: outside the image: nan', E.Implies(E.And(ok, r < 0), o.isnan()))
        good = E.And(ok, e != 0, r > 0)
        # that is, e log(1 + |result|) = log(1 + e |x|): transforming the result gives x back
        v = E.call('exp', E.call('log', r) / e)
        E.claim_eq(f'{tag}: 1 + |result| = (1 + e |x|)^(1/e)', o + 1, v, when=good, scale=v)
        E.claim_le(f'{tag}: sign kept', E.lit(0), o, when=E.Or(good, E.And(ok, e == 0)))


# ---- squared modulus, hypot
def absr(E, x, out):
    E.claim_eq('x x', out, x * x)


def absc(E, z, out):
    E.claim_eq('re^2 + im^2', out, z.re * z.re + z.im * z.im)


def hypot3(E, x, y, z, out):
    inf = E.Or(x.isinf(), y.isinf(), z.isinf())
    nan = E.Or(x.isnan(), y.isnan(), z.isnan())
    E.claim('an infinite component: inf', E.Implies(inf, E.And(out.isinf(), out > 0)))
    E.claim('otherwise nan stays', E.Implies(E.And(nan, E.Not(inf)), out.isnan()))
    ok = E.Not(E.Or(inf, nan))
    s = x * x + y * y + z * z
    E.claim_eq('the square is the sum of squares', out * out, s, when=ok, scale=s)
    E.claim_le('not negative', E.lit(0), out, when=ok)


def tasks(tier):
    out = []
    lay = dict(layouts=('contig', 'strided'), nloops=1)
    two = dict(layouts=('strided', 'neg'), nloops=2)
    for attr, mod, n, spec in (('hyperbolic_ramp', '_ramp', 3, hyperbolic), ('exponential_ramp', '_ramp', 3, exp_special),
                               ('pow1pm1', '_pow1pm1', 3, pow1pm1), ('yeo_johnson', '_yeo_johnson', 3, yeo),
                               ('inv_yeo_johnson', '_yeo_johnson', 3, inv), ('hypot3', '_hypot3', 4, hypot3)):
        out += elementwise(attr, mod, n, spec, 'realx', **lay)
    out += elementwise('exponential_ramp', '_ramp', 3, exponential, 'real', **lay)
    for k in ('exponential', 'linear', 'spherical', 'parabolic'):
        out += elementwise(k, 'semivar', 5, semi(k), 'realx', **lay)
    for mod, attr in (('_abs_squared', 'abs_squared'), ('_abssq', 'abssq')):
        lays = ('contig', 'strided', 'neg', ('contig', 'strided'), ('strided', 'contig'))
        for t in ('ff', 'dd', 'gg'):
            for nl in (1, 3):
                out += [Task(attr, mod, attr, t, {}, absr, mode='real', kind=k, nloops=nl) for k in lays]
        for t in ('Ff', 'Dd', 'Gg'):
            for nl in (1, 3):
                out += [Task(attr, mod, attr, t, {}, absc, mode='real', kind=k, nloops=nl) for k in lays]
    return out
