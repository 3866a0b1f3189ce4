"""Concrete evaluation: bit patterns of machine floats, and the numeric twin of RealDom."""
from fractions import Fraction
import mpmath
from .dom import RealDom, XR, LAY, decode, Unsupported

mpmath.mp.prec = 220


def frac_to_bits(fr, ty):
    """Round a Fraction to nearest-even in the given type."""
    if ty == 'x86_fp80':
        eb, mb = 15, 63
    else:
        eb, mb = LAY[ty]
    bias = (1 << (eb - 1)) - 1
    s = 1 if fr < 0 else 0
    a = abs(Fraction(fr))
    if a == 0:
        e, m = 0, 0
    else:
        # exponent of the leading bit
        e2 = a.numerator.bit_length() - a.denominator.bit_length()
        if Fraction(2) ** e2 > a:
            e2 -= 1
        e2 = max(e2, 1 - bias)
        q = a / Fraction(2) ** (e2 - mb)
        n = q.numerator // q.denominator
        rem = q - n
        if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and n & 1):
            n += 1
        if n >> (mb + 1):
            n >>= 1
            e2 += 1
        if n >> mb:
            e = e2 + bias
            m = n & ((1 << mb) - 1)
        else:
            e = 0
            m = n
        if e >= (1 << eb) - 1:
            e, m = (1 << eb) - 1, 0
    if ty == 'x86_fp80':
        j = 1 if e else 0
        return s << 79 | e << 64 | j << 63 | m
    return s << (eb + mb) | e << mb | m


def special_bits(kind, ty):
    """kind: 'nan' | 'inf' | '-inf'"""
    if ty == 'x86_fp80':
        if kind == 'nan':
            return 0x7fff << 64 | 3 << 62
        return (0xffff if kind == '-inf' else 0x7fff) << 64 | 1 << 63
    eb, mb = LAY[ty]
    b = ((1 << eb) - 1) << mb
    if kind == 'nan':
        return b | 1 << (mb - 1)
    if kind == '-inf':
        return b | 1 << (eb + mb)
    return b


def bits_to_xr(bits, ty):
    d = decode(bits, ty)
    if d[0] == 'nan':
        return XR(Fraction(0), nan=True)
    if d[0] == 'inf':
        return XR(Fraction(0), ninf=True) if d[1] else XR(Fraction(0), pinf=True)
    return XR(d[2])


def show(bits, ty):
    d = decode(bits, ty)
    if d[0] == 'nan':
        return 'nan'
    if d[0] == 'inf':
        return '-inf' if d[1] else 'inf'
    if ty == 'x86_fp80':
        return mpmath.nstr(mpf(d[2]), 21)
    return ('-0.0' if d[1] and d[2] == 0 else repr(float(d[2])))


def mpf(fr):
    return mpmath.mpf(fr.numerator) / fr.denominator


def tofrac(x):
    if isinstance(x, mpmath.mpc):
        x = x.real
    x = mpmath.mpf(x)
    if not mpmath.isfinite(x):
        raise ValueError
    s, m, e, _ = x._mpf_
    v = Fraction(int(m)) * Fraction(2) ** int(e)
    return -v if s else v


MPF = {
    'exp': mpmath.exp, 'expm1': mpmath.expm1, 'log': mpmath.log, 'log1p': mpmath.log1p,
    'sqrt': mpmath.sqrt, 'pow': mpmath.power, 'sin': mpmath.sin, 'cos': mpmath.cos,
    'asin': mpmath.asin, 'acos': mpmath.acos, 'atan2': mpmath.atan2, 'erfc': mpmath.erfc,
    'erf': mpmath.erf, 'hypot': mpmath.hypot, 'tanh': mpmath.tanh, 'tan': mpmath.tan,
    'lgamma': lambda x: mpmath.log(abs(mpmath.gamma(x))), 'exp2': lambda x: mpmath.power(2, x),
    'log2': lambda x: mpmath.log(x, 2), 'log10': mpmath.log10, 'cbrt': mpmath.cbrt,
    'tgamma': mpmath.gamma,
}


def mpcall(name, args):
    """f(args) for Fractions, as a Fraction; None when undefined or not real."""
    f = MPF.get(name)
    if f is None:
        raise Unsupported('no numeric ' + name)
    try:
        if name in ('exp', 'expm1') and abs(args[0]) > 10 ** 6:
            return None
        if name == 'pow' and args[0] < 0 and args[1].denominator != 1:
            return None
        v = f(*[mpf(Fraction(a)) for a in args])
        if isinstance(v, mpmath.mpc) and abs(v.imag) > mpmath.mpf(10) ** -50:
            return None
        return tofrac(v)
    except (ValueError, ZeroDivisionError, OverflowError):
        return None


class NumDom(RealDom):
    """RealDom with concrete values throughout."""
    name = 'num'

    def uf(self, name, args):
        args = [Fraction(a) for a in args]
        v = mpcall(name, args)
        return Fraction(0) if v is None else v
