"""Floating point value domains for the symbolic executor.

FPDom    exact IEEE-754 semantics (z3 FP theory).  With opaque=True the arithmetic
         operations + - * / are uninterpreted functions (comparisons, selections,
         conversions of constants and bit patterns stay exact).
RealDom  extended reals: a finite value is a mathematical real, plus nan, +inf, -inf.
         No rounding, no overflow, no signed zero.  libm functions are uninterpreted
         functions constrained by instantiated axioms.
"""
import struct
from fractions import Fraction
import z3

FSORT = {
    'half': z3.FPSort(5, 11),
    'float': z3.Float32(),
    'double': z3.Float64(),
    'x86_fp80': z3.FPSort(15, 64),
}
FBITS = {'half': 16, 'float': 32, 'double': 64, 'x86_fp80': 80}
RNE = z3.RNE()
RTZ = z3.RTZ()
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- booleans
def b2z(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def bnot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else bnot(c)
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def biff(a, b):
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    return a == b


# ---------------------------------------------------------------- constants
def const_bits(text, ty):
    """Bit pattern (int) of an LLVM floating point literal of type ty."""
    if text.startswith('0xK'):
        h = text[3:]
        return int(h, 16)          # 80 bit pattern
    if text.startswith('0xH'):
        return int(text[3:], 16)
    if text.startswith('0x'):
        v = struct.unpack('<d', struct.pack('<Q', int(text[2:], 16)))[0]
        if ty == 'double':
            return int(text[2:], 16)
        if ty == 'float':
            return struct.unpack('<I', struct.pack('<f', v))[0]
        raise Unsupported('fp constant ' + text)
    v = float(text)
    if ty == 'double':
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    if ty == 'float':
        return struct.unpack('<I', struct.pack('<f', v))[0]
    raise Unsupported('fp constant ' + text)


LAY = {'half': (5, 10), 'float': (8, 23), 'double': (11, 52)}


def decode(bits, ty):
    """-> ('nan',None) | ('inf',sign) | ('fin', sign, Fraction)."""
    if ty == 'x86_fp80':
        s = bits >> 79 & 1
        e = bits >> 64 & 0x7fff
        m = bits & ((1 << 64) - 1)
        if e == 0x7fff:
            if m & ((1 << 63) - 1):
                return ('nan', None)
            return ('inf', s)
        e2 = (e if e else 1) - 16383 - 63
    else:
        eb, mb = LAY[ty]
        s = bits >> (eb + mb) & 1
        e = bits >> mb & ((1 << eb) - 1)
        m = bits & ((1 << mb) - 1)
        bias = (1 << (eb - 1)) - 1
        if e == (1 << eb) - 1:
            return ('nan', None) if m else ('inf', s)
        if e:
            m |= 1 << mb
        else:
            e = 1
        e2 = e - bias - mb
    v = Fraction(m) * (Fraction(2) ** e2)
    return ('fin', s, -v if s else v)


def ulp_of(bits, ty):
    if ty == 'x86_fp80':
        e = bits >> 64 & 0x7fff
        return Fraction(2) ** ((e or 1) - 16383 - 63)
    eb, mb = LAY[ty]
    e = bits >> mb & ((1 << eb) - 1)
    bias = (1 << (eb - 1)) - 1
    return Fraction(2) ** ((e or 1) - bias - mb)


def simplest_between(lo, hi):
    """Simplest fraction in the closed interval [lo, hi] (Stern-Brocot)."""
    if lo <= 0 <= hi:
        return Fraction(0)
    if hi < 0:
        return -simplest_between(-hi, -lo)
    fl = lo.numerator // lo.denominator
    if fl == lo or fl + 1 <= hi:
        return Fraction(fl if fl == lo else fl + 1)
    return fl + 1 / simplest_between(1 / (hi - fl), 1 / (lo - fl))


# ================================================================ exact FP
class FPDom:
    name = 'fp'

    def __init__(self, opaque=False):
        self.opaque = opaque
        self.comm = {}
        self.bits_of = {}     # ast id -> (FPRef, BitVec)
        self.ufs = {}
        self.axioms = []
        self.seen = {}
        self.rounding = None

    def fresh(self, name, ty):
        if ty == 'x86_fp80':
            return z3.FP(name, FSORT[ty])
        bv = z3.BitVec(name, FBITS[ty])
        return self.from_bits(bv, ty)

    def const(self, text, ty):
        return self.from_bits(const_bits(text, ty), ty)

    def zero(self, ty):
        return self.from_bits(0, ty)

    def fromfrac(self, fr, ty):
        return z3.simplify(z3.fpRealToFP(RNE, z3.RealVal(str(fr)), FSORT[ty])) if False else \
            z3.FPVal(float(fr), FSORT[ty])

    def from_bits(self, bits, ty):
        if isinstance(bits, int):
            d = decode(bits, ty)
            s = FSORT[ty]
            if d[0] == 'nan':
                return z3.fpNaN(s)
            if d[0] == 'inf':
                return z3.fpMinusInfinity(s) if d[1] else z3.fpPlusInfinity(s)
            if d[2] == 0:
                return z3.fpMinusZero(s) if d[1] else z3.fpPlusZero(s)
            if ty == 'x86_fp80':
                # drop the explicit integer bit
                sgn = bits >> 79 & 1
                e = bits >> 64 & 0x7fff
                m = bits & ((1 << 63) - 1)
                return z3.simplify(z3.fpFP(z3.BitVecVal(sgn, 1), z3.BitVecVal(e, 15),
                                           z3.BitVecVal(m, 63)))
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, FBITS[ty]), s))
        if ty == 'x86_fp80':
            raise Unsupported('symbolic bits -> x86_fp80')
        if z3.is_app(bits) and bits.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV and bits.num_args() == 1 and \
                bits.arg(0).sort() == FSORT[ty]:
            return bits.arg(0)
        f = z3.fpBVToFP(bits, FSORT[ty])
        self.bits_of[f.get_id()] = (f, bits)
        return f

    def to_bits(self, v, ty):
        r = self.bits_of.get(v.get_id())
        if r is not None:
            return r[1]
        if ty == 'x86_fp80':
            raise Unsupported('x86_fp80 -> bits')
        if z3.is_fp_value(v):
            b = z3.simplify(z3.fpToIEEEBV(v))
            if z3.is_bv_value(b):
                return b.as_long()
            if v.isNaN():
                return {'half': 0x7e00, 'float': 0x7fc00000, 'double': 0x7ff8 << 48}[ty]
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            a = self.to_bits(v.arg(1), ty)
            b = self.to_bits(v.arg(2), ty)
            w = FBITS[ty]
            return z3.If(v.arg(0), z3.BitVecVal(a, w) if isinstance(a, int) else a,
                         z3.BitVecVal(b, w) if isinstance(b, int) else b)
        return z3.fpToIEEEBV(v)

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if a is b or a.eq(b):
            return a
        return z3.If(c, a, b)

    def same(self, a, b):
        return a is b or a.eq(b)

    def bin(self, op, a, b, ty):
        if self.opaque and not (z3.is_fp_value(a) and z3.is_fp_value(b)):
            key = (op, ty)
            if key not in self.ufs:
                s = FSORT[ty]
                self.ufs[key] = z3.Function(f'{op}_{ty}', s, s, s)
            if op in ('fadd', 'fmul') and a.get_id() > b.get_id():
                a, b = b, a
            app = self.ufs[key](a, b)
            if op in ('fadd', 'fmul') and app.get_id() not in self.comm:
                self.comm[app.get_id()] = app
                self.axioms.append(app == self.ufs[key](b, a))
            return app
        f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
        if f is None:
            raise Unsupported(op)
        r = f(RNE, a, b)
        if z3.is_fp_value(a) and z3.is_fp_value(b):
            r = z3.simplify(r)
        return r

    def cmul(self, a, b, c, d, ty):
        return [self.call('cmul_re', [a, b, c, d], ty), self.call('cmul_im', [a, b, c, d], ty)]

    def cdiv(self, a, b, c, d, ty):
        """Quotient of complex numbers: two uninterpreted functions."""
        return [self.call('cdiv_re', [a, b, c, d], ty), self.call('cdiv_im', [a, b, c, d], ty)]

    def neg(self, a, ty):
        r = z3.fpNeg(a)
        return z3.simplify(r) if z3.is_fp_value(a) else r

    def abs(self, a, ty):
        r = z3.fpAbs(a)
        return z3.simplify(r) if z3.is_fp_value(a) else r

    def isnan(self, a):
        return self._b(z3.fpIsNaN(a), a)

    def isinf(self, a):
        return self._b(z3.fpIsInf(a), a)

    def signbit(self, a):
        return self._b(z3.fpIsNegative(a), a)

    def iszero(self, a):
        return self._b(z3.fpIsZero(a), a)

    def _b(self, e, *ops):
        if all(z3.is_fp_value(o) for o in ops):
            e = z3.simplify(e)
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
        return e

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        uno = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)) if not a.eq(b) else z3.fpIsNaN(a)
        if z3.is_fp_value(b) and not b.isNaN():
            uno = z3.fpIsNaN(a)
        elif z3.is_fp_value(a) and not a.isNaN():
            uno = z3.fpIsNaN(b)
        if pred == 'ord':
            e = bnot(uno)
        elif pred == 'uno':
            e = uno
        elif pred == 'one':
            e = z3.And(bnot(uno), z3.Not(z3.fpEQ(a, b)))
        elif pred == 'une':
            e = z3.Not(z3.fpEQ(a, b))
        elif pred == 'ueq':
            e = z3.Or(uno, z3.fpEQ(a, b))
        elif pred[0] == 'o':
            e = base[pred[1:]](a, b)
        elif pred == 'ugt':
            e = z3.Not(z3.fpLEQ(a, b))
        elif pred == 'uge':
            e = z3.Not(z3.fpLT(a, b))
        elif pred == 'ult':
            e = z3.Not(z3.fpGEQ(a, b))
        elif pred == 'ule':
            e = z3.Not(z3.fpGT(a, b))
        else:
            raise Unsupported('fcmp ' + pred)
        return self._b(e, a, b)

    def convert(self, v, t1, t2):
        r = z3.fpFPToFP(RNE, v, FSORT[t2])
        return z3.simplify(r) if z3.is_fp_value(v) else r

    def from_int(self, v, w, signed, ty):
        if isinstance(v, int):
            if signed and v >> (w - 1):
                v -= 1 << w
            if abs(v) < 2 ** 53 and ty != 'x86_fp80':
                return z3.FPVal(v, FSORT[ty])
            v = z3.BitVecVal(v, w)
            return z3.simplify(z3.fpSignedToFP(RNE, v, FSORT[ty]) if signed
                               else z3.fpUnsignedToFP(RNE, v, FSORT[ty]))
        return z3.fpSignedToFP(RNE, v, FSORT[ty]) if signed else z3.fpUnsignedToFP(RNE, v, FSORT[ty])

    def to_int(self, v, ty, w, signed):
        # x86 semantics: out of range -> 0x80..0 (cvttsd2si; narrow widths go through i32)
        ww = w if w in (32, 64) else 32
        lo = z3.FPVal(-2.0 ** (ww - 1), FSORT[ty])
        hi = z3.FPVal(2.0 ** (ww - 1), FSORT[ty])
        if not signed:
            ww = 64
            lo = z3.FPVal(-2.0 ** 63, FSORT[ty])
            hi = z3.FPVal(2.0 ** 63, FSORT[ty])
        ok = z3.And(z3.fpGEQ(v, lo), z3.fpLT(v, hi))
        r = z3.If(ok, z3.fpToSBV(RTZ, v, z3.BitVecSort(ww)), z3.BitVecVal(1 << (ww - 1), ww))
        if w < ww:
            r = z3.Extract(w - 1, 0, r)
        r = z3.simplify(r) if z3.is_fp_value(v) else r
        return r.as_long() if z3.is_bv_value(r) else r

    def call(self, name, args, ty):
        """libm functions."""
        if name == 'sqrt' and not self.opaque:
            return z3.fpSqrt(RNE, args[0])
        if name == 'copysign':
            x, y = args
            ax = z3.fpAbs(x)
            return self.ite(self.signbit(y), z3.fpNeg(ax), ax)
        s = FSORT[ty]
        if name == 'nextafter':
            return self.nextafter(args[0], args[1], s)
        if name in ('fmin', 'fmax'):
            x, y = args
            c = z3.fpLEQ(x, y) if name == 'fmin' else z3.fpGEQ(x, y)
            return z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(c, x, y)))
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint') and not self.opaque:
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': z3.RNE()}[name]
            return z3.fpRoundToIntegral(rm, args[0])
        if name == 'fma' and not self.opaque:
            return z3.fpFMA(RNE, *args)
        if name == 'remainder' and not self.opaque:
            return z3.fpRem(*args)
        if name == 'fdim':
            d = self.bin('fsub', args[0], args[1], ty)
            return self.ite(self.fcmp('ole', args[0], args[1]), self.zero(ty), d)
        key = (name, ty, len(args))
        if key not in self.ufs:
            self.ufs[key] = z3.Function(f'{name}_{ty}', *([s] * (len(args) + 1)))
        t = self.ufs[key](*args)
        if name == 'exp' and t.get_id() not in self.seen:
            # what the C library guarantees about exp: sign, limits, and the side of 1
            self.seen[t.get_id()] = t
            x, one, inf = args[0], z3.FPVal(1, s), z3.fpPlusInfinity(s)
            self.axioms += [z3.fpIsNaN(x) == z3.fpIsNaN(t), z3.Implies(z3.fpIsZero(x), t == one),
                            z3.Implies(z3.Not(z3.fpIsNaN(x)), z3.And(z3.Not(z3.fpIsNegative(t)), z3.fpLEQ(t, inf))),
                            z3.Implies(z3.fpLEQ(x, z3.FPVal(0, s)), z3.fpLEQ(t, one)),
                            z3.Implies(z3.fpGEQ(x, z3.FPVal(0, s)), z3.fpGEQ(t, one)),
                            z3.Implies(z3.fpEQ(x, inf), z3.fpEQ(t, inf)),
                            z3.Implies(z3.fpEQ(x, z3.fpMinusInfinity(s)), z3.fpIsZero(t))]
        return t


    @staticmethod
    def nextafter(x, y, s):
        w = s.ebits() + s.sbits()
        b = z3.fpToIEEEBV(x)
        one = z3.BitVecVal(1, w)
        up = z3.fpLT(x, y)
        away = up == z3.fpGT(x, z3.FPVal(0, s))
        tiny = z3.fpBVToFP(z3.If(up, one, one | z3.BitVecVal(1 << (w - 1), w)), s)
        step = z3.fpBVToFP(z3.If(away, b + one, b - one), s)
        return z3.simplify(z3.If(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)), z3.fpNaN(s),
                                 z3.If(z3.fpEQ(x, y), y, z3.If(z3.fpIsZero(x), tiny, step))))


# ================================================================ extended reals
class XR:
    __slots__ = ('r', 'nan', 'pinf', 'ninf')

    def __init__(self, r, nan=False, pinf=False, ninf=False):
        self.r = r
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf

    def finite(self):
        return bnot(bor(self.nan, self.pinf, self.ninf))

    def special(self):
        return bor(self.nan, self.pinf, self.ninf)

    def isinf(self):
        return bor(self.pinf, self.ninf)

    def __repr__(self):
        return f'XR({self.r},nan={self.nan},+={self.pinf},-={self.ninf})'


def rz(r):
    """Fraction/int/ArithRef -> ArithRef"""
    if isinstance(r, (int, Fraction)):
        return z3.RealVal(str(r))
    return r


def isc(r):
    return isinstance(r, (int, Fraction))


def radd(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return rz(a) + rz(b)


def rsub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return Fraction(0)
    return rz(a) - rz(b)


def rmul(a, b):
    if isc(a) and isc(b):
        return a * b
    if isc(a):
        if a == 0:
            return Fraction(0)
        if a == 1:
            return b
    if isc(b):
        if b == 0:
            return Fraction(0)
        if b == 1:
            return a
    return rz(a) * rz(b)


def rneg(a):
    return -a


def rlt(a, b):
    if isc(a) and isc(b):
        return a < b
    return rz(a) < rz(b)


def rle(a, b):
    if isc(a) and isc(b):
        return a <= b
    return rz(a) <= rz(b)


def req(a, b):
    if isc(a) and isc(b):
        return a == b
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    return rz(a) == rz(b)


def rite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isc(a) and isc(b) and a == b:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    return z3.If(c, rz(a), rz(b))


NAN = XR(Fraction(0), nan=True)
PINF = XR(Fraction(0), pinf=True)
NINF = XR(Fraction(0), ninf=True)


def rround(name, r):
    """Rounding of a real to an integral real."""
    import math
    if isc(r):
        r = Fraction(r)
        if name == 'rint':
            return Fraction(round(r))
        if name == 'round':
            v = math.floor(abs(r) + Fraction(1, 2))
            return Fraction(v if r >= 0 else -v)
        return Fraction({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[name](r))
    fl = z3.ToInt(r)
    if name == 'floor':
        i = fl
    elif name == 'ceil':
        i = -z3.ToInt(-r)
    elif name == 'trunc':
        i = z3.If(r >= 0, fl, -z3.ToInt(-r))
    elif name == 'round':
        i = z3.If(r >= 0, z3.ToInt(r + z3.Q(1, 2)), -z3.ToInt(z3.Q(1, 2) - r))
    else:
        h = z3.ToInt(r + z3.Q(1, 2))
        tie = z3.ToReal(h) == r + z3.Q(1, 2)
        i = z3.If(z3.And(tie, h % 2 != 0), h - 1, h)
    return z3.ToReal(i)


def xnum(v):
    return XR(Fraction(v))


class ZI:
    """An integer held as a mathematical (z3 Int) expression with a machine width.

    sg: the expression lies in the signed range of the width (else: the unsigned range)."""
    __slots__ = ('e', 'w', 'sg')

    def __init__(self, e, w, sg=True):
        self.e = e
        self.w = w
        self.sg = sg


def canonical(t, limit=16):
    """t as a quotient of short polynomials when it is one, else t."""
    from .cases import Norm, Giveup
    N = Norm()
    N.dens = []
    try:
        n, d = N.rf(t)
    except (Giveup, RecursionError):
        return t
    at = {a for p in (n, d) for m in p for a, _ in m}
    if len(n) + len(d) > (limit if len(at) < 2 else max(limit, 30)):
        return t

    def build(p):
        if not p:
            return Fraction(0)
        r = Fraction(0)
        for m, c in sorted(p.items()):
            x = c
            for a, e in m:
                v = N.args[a]
                if v.sort().kind() == z3.Z3_INT_SORT:
                    v = z3.ToReal(v)
                for _ in range(e):
                    x = rmul(x, v)
            r = radd(r, x)
        return r
    b = build(d)
    a = build(n)
    if isc(b):
        return rmul(a, 1 / Fraction(b)) if not isc(a) else Fraction(a) / b
    return rz(a) / b


class RealDom:
    name = 'real'
    opaque = False

    def __init__(self, finite_inputs=True, nice=True):
        self.finite_inputs = finite_inputs
        self.nice = nice
        self.expmax = None
        self.axioms = []
        self.ufs = {}
        self.ufapps = []       # (name, args(list of real terms), result term)
        self.seen = set()
        self.n = 0
        self.consts = {}       # (ty,bits) -> XR overrides
        self.canon = 0         # largest size: rewrite sums and quotients to quotients of polynomials (divisors known not to be 0)

    # ---- constructors
    def fresh(self, name, ty):
        r = z3.Real(name)
        if self.finite_inputs:
            return XR(r)
        n, p, m = z3.Bools(f'{name}.nan {name}.pinf {name}.ninf')
        self.axioms.append(z3.And(z3.Not(z3.And(n, p)), z3.Not(z3.And(n, m)), z3.Not(z3.And(p, m))))
        return XR(r, n, p, m)

    def const(self, text, ty):
        return self.from_bits(const_bits(text, ty), ty)

    def zero(self, ty):
        return XR(Fraction(0))

    def from_bits(self, bits, ty):
        if not isinstance(bits, int):
            raise Unsupported('symbolic bits -> real')
        if (ty, bits) in self.consts:
            return self.consts[ty, bits]
        d = decode(bits, ty)
        if d[0] == 'nan':
            return NAN
        if d[0] == 'inf':
            return NINF if d[1] else PINF
        v = d[2]
        if self.nice and v.denominator != 1:
            u = ulp_of(bits, ty)
            s = simplest_between(v - u / 2, v + u / 2)
            if s.denominator <= 10 ** 6 or (abs(s.numerator) <= 10 ** 4 and s.denominator <= 10 ** 12):
                v = s
        return XR(v)

    def cmul(self, a, b, c, d, ty):
        def op(o, x, y):
            return self.bin(o, x, y, ty)
        return [op('fsub', op('fmul', a, c), op('fmul', b, d)), op('fadd', op('fmul', a, d), op('fmul', b, c))]

    def cdiv(self, a, b, c, d, ty):
        def op(o, x, y):
            return self.bin(o, x, y, ty)
        n = op('fadd', op('fmul', c, c), op('fmul', d, d))
        return [op('fdiv', op('fadd', op('fmul', a, c), op('fmul', b, d)), n),
                op('fdiv', op('fsub', op('fmul', b, c), op('fmul', a, d)), n)]

    def to_bits(self, v, ty):
        raise Unsupported('real -> bits')

    # ---- ops
    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        return XR(rite(c, a.r, b.r), bite(c, a.nan, b.nan), bite(c, a.pinf, b.pinf),
                  bite(c, a.ninf, b.ninf))

    def same(self, a, b):
        def eb(x, y):
            if isinstance(x, bool) or isinstance(y, bool):
                return x is y
            return x.eq(y)

        def er(x, y):
            if isc(x) or isc(y):
                return isc(x) and isc(y) and x == y
            return x.eq(y)
        return a is b or (er(a.r, b.r) and eb(a.nan, b.nan) and eb(a.pinf, b.pinf)
                          and eb(a.ninf, b.ninf))

    def bin(self, op, a, b, ty):
        if op == 'fsub':
            return self.bin('fadd', a, self.neg(b, ty), ty)
        plain = a.nan is False and a.pinf is False and a.ninf is False and \
            b.nan is False and b.pinf is False and b.ninf is False
        if op == 'fadd':
            r = radd(a.r, b.r)
            if self.canon and not isc(r):
                r = canonical(r, self.canon)
            if plain:
                return XR(r)
            nan = bor(a.nan, b.nan, band(a.pinf, b.ninf), band(a.ninf, b.pinf))
            p = band(bnot(nan), bor(a.pinf, b.pinf))
            m = band(bnot(nan), bor(a.ninf, b.ninf))
            return XR(r, nan, p, m)
        if op == 'fmul':
            r = rmul(a.r, b.r)
            if plain:
                return XR(r)
            ai, bi = a.isinf(), b.isinf()
            az = band(a.finite(), req(a.r, 0))
            bz = band(b.finite(), req(b.r, 0))
            nan = bor(a.nan, b.nan, band(ai, bz), band(bi, az))
            inf = band(bnot(nan), bor(ai, bi))
            an = bor(a.ninf, band(a.finite(), rlt(a.r, 0)))
            bn = bor(b.ninf, band(b.finite(), rlt(b.r, 0)))
            neg = bnot(biff(an, bn))
            return XR(r, nan, band(inf, bnot(neg)), band(inf, neg))
        if op == 'fdiv':
            if plain and isc(b.r):
                if b.r != 0:
                    return XR(Fraction(a.r) / b.r if isc(a.r) else a.r / z3.RealVal(str(Fraction(b.r))))
            bz = band(b.finite(), req(b.r, 0))
            az = band(a.finite(), req(a.r, 0))
            if isc(b.r) and b.r == 0:
                r = Fraction(0)
            elif isc(a.r) and isc(b.r):
                r = Fraction(a.r) / b.r
            else:
                r = rz(a.r) / rz(b.r)
                if self.canon:
                    r = canonical(r, self.canon)
            bi, ai = b.isinf(), a.isinf()
            if bi is not False:
                r = rite(bi, Fraction(0), r)
            if plain and bz is False:
                return XR(r)
            nan = bor(a.nan, b.nan, band(ai, bi), band(az, bz))
            inf = band(bnot(nan), bor(ai, bz))
            # a zero divisor counts as +0 (no signed zero in this domain)
            an = bor(a.ninf, band(a.finite(), rlt(a.r, 0)))
            bn = bor(b.ninf, band(b.finite(), rlt(b.r, 0)))
            neg = bnot(biff(an, bn))
            return XR(r, nan, band(inf, bnot(neg)), band(inf, neg))
        raise Unsupported(op)

    def neg(self, a, ty):
        return XR(-a.r, a.nan, a.ninf, a.pinf)

    def abs(self, a, ty):
        r = abs(a.r) if isc(a.r) else z3.If(a.r < 0, -a.r, a.r)
        return XR(r, a.nan, a.isinf(), False)

    def isnan(self, a):
        return a.nan

    def isinf(self, a):
        return a.isinf()

    def signbit(self, a):
        # the sign of zero is taken as positive
        return bor(a.ninf, band(a.finite(), rlt(a.r, 0)))

    def iszero(self, a):
        return band(a.finite(), req(a.r, 0))

    def lt(self, a, b):
        return band(bnot(a.nan), bnot(b.nan),
                    bor(band(a.ninf, bnot(b.ninf)), band(b.pinf, bnot(a.pinf)),
                        band(a.finite(), b.finite(), rlt(a.r, b.r))))

    def le(self, a, b):
        return band(bnot(a.nan), bnot(b.nan),
                    bor(a.ninf, b.pinf, band(a.finite(), b.finite(), rle(a.r, b.r))))

    def eq(self, a, b):
        return band(bnot(a.nan), bnot(b.nan),
                    bor(band(a.ninf, b.ninf), band(a.pinf, b.pinf),
                        band(a.finite(), b.finite(), req(a.r, b.r))))

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if pred == 'ord':
            return band(bnot(a.nan), bnot(b.nan))
        if pred == 'uno':
            return bor(a.nan, b.nan)
        if pred == 'oeq':
            return self.eq(a, b)
        if pred == 'une':
            return bnot(self.eq(a, b))
        if pred == 'one':
            return band(bnot(a.nan), bnot(b.nan), bnot(self.eq(a, b)))
        if pred == 'ueq':
            return bor(a.nan, b.nan, self.eq(a, b))
        if pred == 'olt':
            return self.lt(a, b)
        if pred == 'ole':
            return self.le(a, b)
        if pred == 'ogt':
            return self.lt(b, a)
        if pred == 'oge':
            return self.le(b, a)
        if pred == 'ult':
            return bnot(self.le(b, a))
        if pred == 'ule':
            return bnot(self.lt(b, a))
        if pred == 'ugt':
            return bnot(self.le(a, b))
        if pred == 'uge':
            return bnot(self.lt(a, b))
        raise Unsupported('fcmp ' + pred)

    def convert(self, v, t1, t2):
        return v

    def from_int(self, v, w, signed, ty):
        if isinstance(v, int):
            if signed and v >> (w - 1):
                v -= 1 << w
            return XR(Fraction(v))
        if isinstance(v, ZI):
            return XR(z3.ToReal(v.e))
        return XR(z3.ToReal(z3.BV2Int(v, signed)))

    def to_int(self, v, ty, w, signed):
        # truncation; out-of-range, nan and inf are left unspecified (fresh value)
        if isc(v.r) and v.special() is False:
            t = int(v.r)
            return t & ((1 << w) - 1)
        r = rz(v.r)
        fl = z3.ToInt(r)
        e = z3.If(z3.And(r < 0, z3.ToReal(fl) != r), fl + 1, fl)
        sp = v.special()
        if sp is not False:
            self.n += 1
            e = z3.If(b2z(sp), z3.Int(f'unspec_int!{self.n}'), e)
        return ZI(e, w, signed)

    # ---- libm
    def uf(self, name, args):
        """Finite-argument application of an uninterpreted libm function (reals)."""
        args = [rz(canonical(rz(a), self.canon) if self.canon and not isc(a) else a) for a in args]
        key = (name, len(args))
        if key not in self.ufs:
            self.ufs[key] = z3.Function('u_' + name, *([z3.RealSort()] * (len(args) + 1)))
        t = self.ufs[key](*args)
        k = t.get_id()
        if k not in self.seen:
            self.seen.add(k)
            self.ufapps.append((name, args, t))
            self._axiom(name, args, t)
            if name in ('exp', 'log') and len(self.ufapps) <= 60:
                self._algebra(name, args[0], t)
        return t

    def _algebra(self, name, a, t):
        """exp and log as homomorphisms between the applications seen so far."""
        def const(e):
            e = z3.simplify(e, som=True)
            return e.as_fraction() if z3.is_rational_value(e) else None
        same = [(x[0], y) for n, x, y in self.ufapps if n == name and y.get_id() != t.get_id()]
        other = [(x[0], y) for n, x, y in self.ufapps if n == ('log' if name == 'exp' else 'exp')]
        ax = self.axioms
        if name == 'exp':
            for b, tb in same:
                if const(a + b) == 0:
                    ax.append(t * tb == 1)
                for k in (2, 3):
                    if const(a - k * b) == 0:
                        ax.append(t == tb ** k if k == 2 else t == tb * tb * tb)
                    if const(b - k * a) == 0:
                        ax.append(tb == t * t if k == 2 else tb == t * t * t)
            for i, (b, tb) in enumerate(same):
                for c, tc in same[:i]:
                    for (p, tp), (q, tq), (r, tr) in (((a, t), (b, tb), (c, tc)), ((a, t), (c, tc), (b, tb)),
                                                      ((b, tb), (c, tc), (a, t))):
                        if const(p + q - r) == 0:
                            ax.append(tp * tq == tr)
            for c, l in other:
                if const(l - a) == 0:
                    ax.append(z3.Implies(c > 0, t == c))
        else:
            for c, e in other:
                if const(e - a) == 0:
                    ax.append(t == c)
            for b, tb in same:
                if const(a * b) == 1:
                    ax.append(z3.Implies(a > 0, t + tb == 0))

    def _axiom(self, name, args, t):
        ax = self.axioms
        a = args[0]
        if name == 'exp':
            ax += [t > 0, t >= a + 1, z3.Implies(a == 0, t == 1), z3.Implies(a > 0, t > 1),
                   z3.Implies(a < 0, t < 1)]
            self._mono(name, a, t, True)
        elif name == 'expm1':
            ax += [t > -1, z3.Implies(a == 0, t == 0), z3.Implies(a > 0, t > 0),
                   z3.Implies(a < 0, t < 0), t >= a]
            self._mono(name, a, t, True)
        elif name == 'log':
            ax += [z3.Implies(a == 1, t == 0), z3.Implies(a > 1, t > 0),
                   z3.Implies(z3.And(a > 0, a < 1), t < 0), z3.Implies(a > 0, t <= a - 1)]
            self._mono(name, a, t, True, lambda x: x > 0)
        elif name == 'log1p':
            ax += [z3.Implies(a == 0, t == 0), z3.Implies(a > 0, t > 0),
                   z3.Implies(z3.And(a > -1, a < 0), t < 0), z3.Implies(a > -1, t <= a)]
            self._mono(name, a, t, True, lambda x: x > -1)
        elif name == 'sqrt':
            ax += [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a))]
        elif name == 'pow':
            b = args[1]
            ax += [z3.Implies(a > 0, t > 0), z3.Implies(a == 1, t == 1),
                   z3.Implies(b == 0, t == 1), z3.Implies(b == 1, t == a),
                   z3.Implies(z3.And(b == 2), t == a * a),
                   z3.Implies(z3.And(b == -1, a > 0), t * a == 1)]
        elif name == 'cbrt':
            ax += [t * t * t == a]
        elif name in ('erfc',):
            ax += [t > 0, t < 2, z3.Implies(a == 0, t == 1)]
            self._mono(name, a, t, False)
        elif name == 'hypot':
            b = args[1]
            ax += [t >= 0, t * t == a * a + b * b]

    def _mono(self, name, a, t, inc, dom=None):
        for (n2, args2, t2) in self.ufapps:
            if n2 != name or t2.get_id() == t.get_id():
                continue
            a2 = args2[0]
            body = z3.And((a < a2) == ((t < t2) if inc else (t > t2)),
                          (a == a2) == (t == t2))
            if dom is not None:
                body = z3.Implies(z3.And(dom(a), dom(a2)), body)
            self.axioms.append(body)

    def call(self, name, args, ty):
        x = args[0]
        fin = x.special() is False
        if name == 'sqrt':
            if fin and isc(x.r):
                import math
                n, d = math.isqrt(x.r.numerator) if x.r >= 0 else -1, \
                    math.isqrt(Fraction(x.r).denominator)
                if n >= 0 and n * n == x.r.numerator and d * d == Fraction(x.r).denominator:
                    return XR(Fraction(n, d))
            t = self.uf('sqrt', [x.r])
            nan = bor(x.nan, x.ninf, band(x.finite(), rlt(x.r, 0)))
            return XR(t, nan, x.pinf, False)
        if name == 'expm1':
            return self.bin('fadd', self.call('exp', args, ty), XR(Fraction(-1)), ty)
        if name == 'log1p':
            return self.call('log', [self.bin('fadd', x, XR(Fraction(1)), ty)], ty)
        if name in ('exp', 'expm1'):
            lim = Fraction(0) if name == 'exp' else Fraction(-1)
            if fin and isc(x.r) and x.r == 0:
                return XR(Fraction(1) if name == 'exp' else Fraction(0))
            t = self.uf(name, [x.r])
            over = under = False
            if self.expmax is not None:
                # magnitudes matter: arguments beyond the range of the type overflow
                over = band(x.finite(), rlt(self.expmax[ty], x.r))
                under = band(x.finite(), rlt(x.r, -self.expmax[ty] * Fraction(6, 5)))
            return XR(rite(bor(x.ninf, under), lim, t), x.nan, bor(x.pinf, over), False)
        if name in ('log', 'log1p'):
            z0 = Fraction(0) if name == 'log' else Fraction(-1)
            if fin and isc(x.r) and x.r == z0 + 1:
                return XR(Fraction(0))
            t = self.uf(name, [x.r])
            nan = bor(x.nan, x.ninf, band(x.finite(), rlt(x.r, z0)))
            return XR(t, nan, x.pinf, band(x.finite(), req(x.r, z0)))
        if name == 'pow':
            y = args[1]
            yfin = y.special() is False
            if yfin and isc(y.r):
                if y.r == 0:
                    return XR(Fraction(1))
                if y.r == 1:
                    return x
                if y.r == 2:
                    return self.bin('fmul', x, x, ty)
                if y.r == Fraction(1, 2):
                    q = self.call('sqrt', [XR(x.r, x.nan, bor(x.pinf, x.ninf), False)], ty)
                    return q
                if y.r == 3:
                    return self.bin('fmul', self.bin('fmul', x, x, ty), x, ty)
                if y.r == -1:
                    return self.bin('fdiv', XR(Fraction(1)), x, ty)
            if fin and isc(x.r) and x.r > 0 and x.r != 1:
                return self.call('exp', [self.bin('fmul', y, self.call('log', [x], ty), ty)], ty)
            t = self.uf('pow', [x.r, y.r])
            # Finite arguments with x > 0 are the modelled region.  Elsewhere C99 rules
            # for the cases that the code can reach.
            one = bor(band(y.finite(), req(y.r, 0)), band(x.finite(), req(x.r, 1)))
            x0 = band(x.finite(), req(x.r, 0))
            yneg = bor(y.ninf, band(y.finite(), rlt(y.r, 0)))
            ypos = bor(y.pinf, band(y.finite(), rlt(0, y.r)))
            xneg = band(x.finite(), rlt(x.r, 0))
            ax = self.abs(x, ty)
            gt1 = bor(ax.pinf, band(ax.finite(), rlt(1, ax.r)))
            yint = False
            if yfin and isc(y.r):
                yint = Fraction(y.r).denominator == 1
            elif yfin:
                yint = z3.IsInt(rz(y.r))
            nan = band(bnot(one), bor(x.nan, y.nan, band(xneg, y.finite(), bnot(yint))))
            pinf = band(bnot(one), bnot(nan), bor(band(x0, yneg), band(x.pinf, ypos),
                                                  band(y.pinf, gt1),
                                                  band(y.ninf, bnot(gt1), bnot(x0))))
            ninf = False
            if x.ninf is not False:
                nan = bor(nan, band(bnot(one), x.ninf))   # not modelled: see DESIGN
            zero = band(bnot(one), bnot(nan), bor(band(x0, ypos), band(x.pinf, yneg),
                                                  band(y.ninf, gt1), band(y.pinf, bnot(gt1))))
            r = rite(one, Fraction(1), rite(zero, Fraction(0), t))
            return XR(r, nan, pinf, ninf)
        if name == 'copysign':
            ax = self.abs(x, ty)
            return self.ite(self.signbit(args[1]), self.neg(ax, ty), ax)
        if name == 'hypot':
            y = args[1]
            inf = bor(x.isinf(), y.isinf())
            q = self.call('sqrt', [XR(radd(rmul(x.r, x.r), rmul(y.r, y.r)))], ty)
            return XR(q.r, band(bnot(inf), bor(x.nan, y.nan)), inf, False)
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint'):
            return XR(rround(name, x.r), x.nan, x.pinf, x.ninf)
        if name in ('fmin', 'fmax'):
            y = args[1]
            c = self.fcmp('ole' if name == 'fmin' else 'oge', x, y)
            return self.ite(x.nan, y, self.ite(y.nan, x, self.ite(c, x, y)))
        if name == 'fma':
            return self.bin('fadd', self.bin('fmul', x, args[1], ty), args[2], ty)
        if name == 'fdim':
            return self.ite(self.fcmp('ole', x, args[1]), XR(Fraction(0)), self.bin('fsub', x, args[1], ty))
        if name in ('fmod', 'remainder'):
            y = args[1]
            q = self.bin('fdiv', x, y, ty)
            n = XR(rround('trunc' if name == 'fmod' else 'rint', q.r))
            r = self.bin('fsub', x, self.bin('fmul', XR(y.r), n, ty), ty)
            nan = bor(x.nan, y.nan, x.pinf, x.ninf, band(y.finite(), req(y.r, 0)))
            return XR(rite(bor(y.pinf, y.ninf), x.r, r.r), nan, False, False)
        if name == 'cbrt':
            if fin and isc(x.r) and x.r in (0, 1, -1):
                return x
            t = self.uf('cbrt', [x.r])
            return XR(t, x.nan, x.pinf, x.ninf)
        if name == 'exp2':
            return self.call('exp', [self.bin('fmul', x, self.call('log', [XR(Fraction(2))], ty), ty)], ty)
        if name in ('log2', 'log10'):
            d = self.call('log', [XR(Fraction(2 if name == 'log2' else 10))], ty)
            return self.bin('fdiv', self.call('log', [x], ty), d, ty)
        # generic: nan in -> nan out; finite in -> finite out
        t = self.uf(name, [a.r for a in args])
        sp = bor(*[a.special() for a in args])
        if sp is False:
            return XR(t)
        # unspecified for infinities: fresh nan flag shared by congruence is not available
        nan = bor(*[a.nan for a in args])
        return XR(t, nan, False, False)
