"""Debye, scaled complementary error, log-gamma and log-factorial functions: every approximation
interval against an independent reference"""
from fractions import Fraction as Fr
import z3
from symex.dom import XR
from symex.num import mpf, frac_to_bits
from symex.spec import F
from . import ref
from .common import Task

MODULES = ['_debye1', 'normal', '_loggamma1p', '_logfact']
BOUNDS = 'one element per call; every approximation interval of every type, all real arguments in it'
ASSUME = ['mathematical reals: no rounding inside the evaluation', 'the reference polynomials (computed by mpmath from independent '
          'series on every run, error below 1e-17) stand for the mathematical function']
STUBS = ['exp', 'log']


def cell(lo, hi, neg=False, sub=None, canon=0):
    """(values, setup): the argument is s, lo <= s < hi (sub: a function of s > 0); neg: its negative."""
    def setup(ex, st, r):
        x = z3.Real('s')
        ex.prune = True
        a, b = z3.RealVal(str(lo)), z3.RealVal(str(hi))
        ex.assume(z3.And(x >= a, x < b))
        if sub is not None:
            ex.assume(x > 0)
        ex.dom.canon = canon if canon else 16 if sub is not None else 0

    def values(i, l, q, tc):
        x = z3.Real('s')
        if sub is not None:
            x = sub(x)
        return XR(-x if neg else x)
    return values, setup


def noaxioms(E):
    """The claims are free of exp and log: drop the axioms about them (fewer assumptions)."""
    if not E.concrete:
        E.dom.axioms.clear()


def within(E, out, p, rel, when, scale=None):
    """out = p, up to rel * p"""
    lo, hi = p * E.lit(1 - rel), p * E.lit(1 + rel)
    sc = scale if scale is not None else p
    E.claim_le('not below the function', lo, out, scale=sc, when=when)
    E.claim_le('not above the function', out, hi, scale=sc, when=when)


def on_cell(f, lo, hi, deg, rel):
    cs = ref.short(ref.cheb(f, lo, hi, deg))
    mid, h = (lo + hi) / 2, (hi - lo) / 2

    def spec(E, x, out):
        def p(x):
            return ref.poly([E.lit(c) for c in cs], (x - E.lit(mid)) * E.lit(1 / h))
        if lo >= 0:
            within(E, out, p(x), rel, E.And(x >= E.lit(lo), x < E.lit(hi)))
        return p
    return spec


# ---- Debye function of order 1: D(-x) = D(x) + x/2
def debye(tier):
    out = []
    cells = [(Fr(k, 5), Fr(k + 1, 5)) for k in range(100)] + [(Fr(k), Fr(k + 1)) for k in range(20, 40)]
    for lo, hi in cells:
        cs = ref.short(ref.cheb(ref.debye1, lo, hi, 10))

        for neg in (False, True):
            def spec(E, x, out, cs=cs, lo=lo, hi=hi, neg=neg):
                a = -x if neg else x
                p = ref.poly([E.lit(c) for c in cs], (a - E.lit((lo + hi) / 2)) * E.lit(2 / (hi - lo)))
                within(E, out - a / 2 if neg else out, p, Fr(1, 10 ** 13), E.And(a >= E.lit(lo), a < E.lit(hi)), scale=1 + a)
            v, s = cell(lo, hi, neg)
            out.append(Task(f'debye1 {"-" if neg else ""}[{lo},{hi})', '_debye1', 'debye1', 'dd', {}, spec, mode='real', first=1,
                            concord=1, values=v, setup=s, tol=Fr(2, 10 ** 14)))
    return out


# ---- erfcx, by y = 400/(4 + |x|)
CUT = {'f': Fr(8802, 100), 'd': Fr(7090, 10), 'g': Fr(11355)}      # log(FMAX/2), a little less


def erfcx(tier):
    out = []
    for k in range(100):
        lo, hi = Fr(k), Fr(k + 1)
        cs = ref.short(ref.cheb(lambda y: ref.erfcx(400 / y - 4) if y > 0 else 0, lo, hi, 11), 30)
        for t, rel in (('f', Fr(1, 10 ** 6)), ('d', Fr(1, 10 ** 14)), ('g', Fr(1, 10 ** 17))):
            for neg in (False, True):
                def spec(E, x, out, cs=cs, lo=lo, hi=hi, rel=rel, t=t, neg=neg):
                    y = E.lit(400) / (E.lit(4) - x if neg else E.lit(4) + x)
                    p = ref.poly([E.lit(c) for c in cs], (y - E.lit((lo + hi) / 2)) * E.lit(2 / (hi - lo)))
                    w = E.And(y >= E.lit(lo), y < E.lit(hi), x <= 0 if neg else x >= 0)
                    if not neg:
                        within(E, out, p, rel, w)
                        return
                    # erfcx(x) = 2 exp(x^2) - erfcx(-x)
                    e = E.call('exp', x * x)
                    within(E, e * 2 - out, p, rel, E.And(w, x * x <= E.lit(CUT[t])), scale=e * 2)
                    E.claim('beyond the range of the type: inf', E.Implies(x * x >= E.lit(CUT[t] + 1), E.And(out.isinf(), out > 0)))
                    noaxioms(E)
                v, s = cell(lo, hi, neg, lambda y: 400 / y - 4)
                out.append(Task(f'erfcx {"-" if neg else ""}y[{lo},{hi})', 'normal', 'erfcx', t * 2, {}, spec, mode='real', first=1,
                                concord=1, values=v, setup=s, tol={'f': Fr(1, 10 ** 6), 'd': Fr(4, 10 ** 15), 'g': Fr(4, 10 ** 18)}[t]))
    return out



def erfcx_ends(E, x, out):
    E.claim('nan stays', E.Implies(x.isnan(), out.isnan()))
    E.claim_eq('0 at inf', out, E.lit(0), when=E.And(x.isinf(), x > 0))
    E.claim('inf at -inf', E.Implies(E.And(x.isinf(), x < 0), E.And(out.isinf(), out > 0)))
    E.claim_eq('1 at 0', out, E.lit(1), when=x == 0)


def debye_ends(E, x, out):
    E.claim('nan stays', E.Implies(x.isnan(), out.isnan()))
    E.claim_eq('0 at inf', out, E.lit(0), when=E.And(x.isinf(), x > 0))
    E.claim('inf at -inf', E.Implies(E.And(x.isinf(), x < 0), E.And(out.isinf(), out > 0)))


def debye_far(neg):
    def spec(E, x, out):
        # D(a) = (pi^2/6 + r)/a with |r| < 1e-15 for a >= 40
        a = -x if neg else x
        c = E.lit(Fr(16449340668482264364724151666460, 10 ** 31))
        within(E, (out - a / 2 if neg else out) * a, c, Fr(1, 10 ** 13), a >= 40, scale=c + a * a if neg else c)
    return spec


# ---- log(gamma(1 + x))
G = Fr(float('6.024680040776729583740234375'))
NUM = [Fr(float(c)) for c in """23531376880.410759688572007674451636754734846804940 42919803642.649098768957899047001988850926355848959
 35711959237.355668049440185451547166705960488635843 17921034426.037209699919755754458931112671403265390
 6039542586.3520280050642916443072979210699388420708 1439720407.3117216736632230727949123939715485786772
 248874557.86205415651146038641322942321632125127801 31426415.585400194380614231628318205362874684987640
 2876370.6289353724412254090516208496135991145378768 186056.26539522349504029498971604569928220784236328
 8071.6720023658162106380029022722506138218516325024 210.82427775157934587250973392071336271166969580291
 2.5066282746310002701649081771338373386264310793408""".split()]


def machine(E, q):
    """The constant as the code's double."""
    return E.lit(q) if E.concrete else F(E, E.dom.from_bits(frac_to_bits(q, 'double'), 'double'), 'double')


def rising():
    """x (x + 1) ... (x + 11)"""
    p = [Fr(1)]
    for k in range(12):
        p = [(p[i - 1] if i else 0) + k * (p[i] if i < len(p) else 0) for i in range(len(p) + 1)]
    return p


def lanczos(E, z):
    """log(gamma(z)), Boost's Lanczos approximation (checked against mpmath when the tasks are made)."""
    L = ref.poly([machine(E, c) for c in NUM], z) / ref.poly([E.lit(c) for c in rising()], z)
    h, g = E.lit(Fr(1, 2)), machine(E, G)
    return E.call('log', L) - g + (z - h) * (E.call('log', z + g - h) - 1)


def lg1p(E, x, out):
    E.claim('nan stays, nan up to -1', E.Implies(E.Or(x.isnan(), x <= -1), out.isnan()))
    E.claim('inf at inf', E.Implies(E.And(x.isinf(), x > 0), E.And(out.isinf(), out > 0)))
    E.claim_eq('0 at 0 and 1', out, E.lit(0), when=E.Or(x == 0, x == 1))


def lg1p_formula(E, x, out):
    # away from -1 and from 1 by more than the rounding of the argument
    w = E.And(x >= E.lit(Fr(1, 10 ** 6) - 1), E.Or(x <= E.lit(Fr(-1, 4)), x > E.lit(Fr(9, 10))), x != 1)
    if E.concrete and not w:
        return
    v = lanczos(E, x + 1)
    E.claim_eq('Lanczos\' formula', out, v, scale=1 + abs(v) + abs(x), when=w)


def loggamma(tier):
    with ref.mpmath.workprec(120):
        for q in (Fr(1, 100), Fr(1, 2), Fr(37, 10), Fr(9), Fr(1000)):
            z, g = mpf(q), mpf(G)
            L = ref.poly([mpf(c) for c in NUM], z) / ref.poly([mpf(c) for c in rising()], z)
            v = ref.mp.log(L) - g + (z - 0.5) * (ref.mp.log(z + g - 0.5) - 1)
            assert abs(v - ref.loggamma1p(z - 1)) < 1e-15 * (1 + abs(v)), 'reference'
    out = []
    edges = [Fr(-1, 4) + Fr(1, 10 ** 12), Fr(-1, 10), Fr(0), Fr(1, 10), Fr(1, 4), Fr(2, 5), Fr(11, 20), Fr(7, 10), Fr(4, 5), Fr(9, 10)]
    for lo, hi in zip(edges, edges[1:]):
        cs = ref.short(ref.cheb(lambda x: ref.loggamma1p(x) / x if abs(x) > 1e-20 else -ref.mp.euler, lo, hi, 16))
        for t in ('ff', 'dd'):
            def spec(E, x, out, cs=cs, lo=lo, hi=hi):
                p = ref.poly([E.lit(c) for c in cs], (x - E.lit((lo + hi) / 2)) * E.lit(2 / (hi - lo)))
                w = E.And(x >= E.lit(lo), x < E.lit(hi))
                d = E.lit(Fr(1, 10 ** 14))
                for tag, s, y, o in (('x > 0', x > 0, x, out), ('x < 0', x < 0, -x, -out)):
                    E.claim_le(tag + ': not below', (p - d) * y, o, scale=y, when=E.And(w, s))
                    E.claim_le(tag + ': not above', o, (p + d) * y, scale=y, when=E.And(w, s))
            v, s = cell(lo, hi)
            out.append(Task(f'loggamma1p [{lo},{hi})', '_loggamma1p', 'loggamma1p', t, {}, spec, mode='real', first=1,
                            concord=1, values=v, setup=s, tol={'f': Fr(1, 2 ** 22), 'd': Fr(4, 10 ** 15)}[t[0]]))
    for t in ('ff', 'dd'):
        for lo, hi in ((Fr(1, 10 ** 6), Fr(3, 4)), (Fr(19, 10), Fr(5)), (Fr(5), Fr(10 ** 12))):
            v, s = cell(lo, hi, sub=lambda z: z - 1, canon=60)
            out.append(Task(f'loggamma1p Lanczos [{lo},{hi})', '_loggamma1p', 'loggamma1p', t, {}, lg1p_formula, mode='real', first=1,
                            concord=1, values=v, setup=s, tol={'f': Fr(1, 2 ** 20), 'd': Fr(1, 10 ** 13)}[t[0]]))
        out.append(Task('loggamma1p', '_loggamma1p', 'loggamma1p', t, {}, lg1p, mode='realx', wide=True,
                        tol={'f': Fr(1, 2 ** 20), 'd': Fr(1, 10 ** 13)}[t[0]]))
    return out


# ---- log(k!)
def logfact(tier):
    with ref.mpmath.workprec(160):
        tab = [ref.tofrac(ref.mp.log(ref.mp.factorial(k))) for k in range(126)]
    tab = ref.short(tab)
    eps = Fr(1, 10 ** 15)
    out = []

    def table(lo, hi):
        def spec(E, k, out):
            for j in range(lo, hi):
                E.claim_le(f'log({j}!) not below', E.lit(tab[j] * (1 - eps)), out, scale=1, when=k == j)
                E.claim_le(f'log({j}!) not above', out, E.lit(tab[j] * (1 + eps)), scale=1, when=k == j)
        return spec

    def large(E, k, out):
        x = k.tof('double')
        l = E.call('log', x)
        # the Stirling series: the sum up to 1/(12 k) is too large by at most 1/(360 k^3)
        c = E.lit(Fr(91893853320467274178032973640562, 10 ** 32))
        base = (x + E.lit(Fr(1, 2))) * l - x
        w = k >= 126
        d = out - base
        s = c + 1 / (x * 12) - 1 / (x * x * x * 360)
        E.claim_le('not below the series', s - E.lit(eps), d, scale=out, when=w)
        E.claim_le('not above the series', d, s + 1 / (x * x * x * x * x * 1260) + E.lit(eps), scale=out, when=w)
        noaxioms(E)

    def negative(E, k, out):
        E.claim('negative: nan', E.Implies(k < 0, out.isnan()))

    def within_range(lo, hi):
        def setup(ex, st, r):
            ex.assume(z3.And(z3.Int('x0_0_0') >= lo, z3.Int('x0_0_0') < hi))
            ex.prune = True
            ex.dom.canon = 30
        return setup
    for t in ('id', 'ld'):
        for lo in range(0, 126, 14):
            out.append(Task(f'logfactorial table {lo}', '_logfact', 'logfactorial', t, {}, table(lo, lo + 14), mode='real', zimode=True,
                            setup=within_range(lo, lo + 14), first=12, tol=Fr(1, 10 ** 15)))
        out.append(Task('logfactorial large', '_logfact', 'logfactorial', t, {}, large, mode='real', zimode=True, first=1,
                        setup=within_range(126, 2 ** 63 if t[0] == 'l' else 2 ** 31), tol=Fr(1, 10 ** 15)))
        out.append(Task('logfactorial', '_logfact', 'logfactorial', t, {}, negative, mode='real', zimode=True,
                        setup=within_range(-2 ** 63 if t[0] == 'l' else -2 ** 31, 0)))
    return out


def tasks(tier):
    out = debye(tier) + erfcx(tier) + loggamma(tier) + logfact(tier)
    out.append(Task('debye1', '_debye1', 'debye1', 'dd', {}, debye_ends, mode='realx'))
    for neg in (False, True):
        v, s = cell(Fr(40), Fr(2) ** 40, neg)
        out.append(Task(f'debye1 {"-" if neg else ""}[40,inf)', '_debye1', 'debye1', 'dd', {}, debye_far(neg), mode='real', values=v, setup=s,
                        tol=Fr(2, 10 ** 14)))
    for t in 'fdg':
        out.append(Task('erfcx', 'normal', 'erfcx', t * 2, {}, erfcx_ends, mode='realx'))
    return out
