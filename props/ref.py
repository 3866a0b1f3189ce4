"""Reference functions: independent high precision series, and their polynomials on an interval."""
from fractions import Fraction
import mpmath
from mpmath import mp, mpf
from symex.num import tofrac

PREC = 160


def cheb(f, lo, hi, deg):
    """Coefficients (Fractions, rising powers of u in [-1, 1]) of the polynomial that interpolates f
    on [lo, hi] at Chebyshev nodes."""
    with mpmath.workprec(PREC):
        lo, hi = mpf(lo.numerator) / lo.denominator, mpf(hi.numerator) / hi.denominator
        n = deg + 1
        th = [mp.pi * (2 * k + 1) / (2 * n) for k in range(n)]
        v = [f((lo + hi) / 2 + (hi - lo) / 2 * mp.cos(t)) for t in th]
        c = [(mpf(2) if j else mpf(1)) / n * mp.fsum(v[k] * mp.cos(j * th[k]) for k in range(n)) for j in range(n)]
        # to the power basis
        out = [mpf(0)] * n
        p0, p1 = [mpf(1)], [mpf(0), mpf(1)]
        for j in range(n):
            for i, x in enumerate(p0):
                out[i] += c[j] * x
            p2 = [mpf(0)] + [2 * x for x in p1]
            for i, x in enumerate(p0):
                p2[i] -= x
            p0, p1 = p1, p2
        return [tofrac(x) for x in out]


def short(cs, digits=26):
    """Round the coefficients to decimals (the rounding is far below the tolerances)."""
    return [Fraction(round(c * 10 ** digits), 10 ** digits) for c in cs]


def debye1(x):
    with mpmath.workprec(PREC):
        x = mpf(x)
        if x == 0:
            return mpf(1)
        if abs(x) < 2:
            return mp.fsum(mp.bernoulli(n) * x ** n / (mp.factorial(n) * (n + 1)) for n in [0, 1] + list(range(2, 90, 2)))
        s = mp.pi ** 2 / 6 / x
        for k in range(1, 400):
            e = mp.exp(-k * x)
            s -= e * (mpf(1) / k + 1 / (k * k * x))
            if e < mpf(2) ** -PREC:
                break
        return s


def erfcx(x):
    with mpmath.workprec(PREC + 40):
        x = mpf(x)
        if x < 12:
            with mpmath.workprec(PREC + 40 + int(3 * float(x) ** 2) if x > 0 else PREC + 40):
                return +(mp.exp(x * x) * mp.erfc(x))
        # continued fraction, from the tail
        t = x
        for k in range(200, 0, -1):
            t = x + (mpf(k) / 2) / t
        return 1 / (mp.sqrt(mp.pi) * t)


def loggamma1p(x):
    with mpmath.workprec(PREC):
        return mp.re(mp.loggamma(1 + mpf(x)))


def poly(cs, u):
    """Horner."""
    r = cs[-1]
    for c in reversed(cs[:-1]):
        r = r * u + c
    return r
