"""The vocabulary in which properties are written.  The same specification function is
evaluated on symbolic values (solver query) and on concrete values (replay)."""
from fractions import Fraction
import z3
from .dom import (FPDom, RealDom, XR, bnot, band, bor, bite, b2z, isc, rz, req, FSORT, NAN, PINF,
                  NINF, simplest_between, ZI, Unsupported)  # noqa: F401
from .num import NumDom
from .engine import sgn, mask, tobv

LT = {'e': 'half', 'f': 'float', 'd': 'double', 'g': 'x86_fp80', 'F': 'float', 'D': 'double',
      'G': 'x86_fp80'}


class F:
    """A floating point value in the environment's domain."""
    __slots__ = ('E', 'v', 't')

    def __init__(self, E, v, t):
        self.E, self.v, self.t = E, v, t

    def _c(self, o):
        if isinstance(o, F):
            return o.v
        if isinstance(o, (int, float, Fraction)):
            return self.E.litv(o, self.t)
        if isinstance(o, I):
            return o.tof(self.t).v
        return NotImplemented

    def _b(self, op, o, rev=False):
        v = self._c(o)
        if v is NotImplemented:
            return v
        a, b = (v, self.v) if rev else (self.v, v)
        return F(self.E, self.E.dom.bin(op, a, b, self.t), self.t)

    def __add__(self, o):
        return self._b('fadd', o)

    def __radd__(self, o):
        return self._b('fadd', o, True)

    def __sub__(self, o):
        return self._b('fsub', o)

    def __rsub__(self, o):
        return self._b('fsub', o, True)

    def __mul__(self, o):
        return self._b('fmul', o)

    def __rmul__(self, o):
        return self._b('fmul', o, True)

    def __truediv__(self, o):
        return self._b('fdiv', o)

    def __rtruediv__(self, o):
        return self._b('fdiv', o, True)

    def __neg__(self):
        return F(self.E, self.E.dom.neg(self.v, self.t), self.t)

    def __abs__(self):
        return F(self.E, self.E.dom.abs(self.v, self.t), self.t)

    def _cmp(self, p, o):
        return self.E.dom.fcmp(p, self.v, self._c(o))

    def __lt__(self, o):
        return self._cmp('olt', o)

    def __le__(self, o):
        return self._cmp('ole', o)

    def __gt__(self, o):
        return self._cmp('ogt', o)

    def __ge__(self, o):
        return self._cmp('oge', o)

    def __eq__(self, o):
        return self._cmp('oeq', o)

    def __ne__(self, o):
        return self._cmp('une', o)

    __hash__ = None

    def isnan(self):
        return self.E.dom.isnan(self.v)

    def isinf(self):
        return self.E.dom.isinf(self.v)

    def isfin(self):
        return bnot(bor(self.isnan(), self.isinf()))

    def signbit(self):
        return self.E.dom.signbit(self.v)


class I:
    """A machine integer (also NumPy bool as an unsigned byte)."""
    __slots__ = ('E', 'v', 'w', 'sg')

    def __init__(self, E, v, w, sg):
        self.E, self.v, self.w, self.sg = E, v, w, sg

    def z(self):
        """Mathematical value: Python int or z3 Int."""
        if isinstance(self.v, ZI):
            return self.v.e
        if isinstance(self.v, int):
            return sgn(self.v, self.w) if self.sg else self.v
        return z3.BV2Int(self.v, self.sg)

    def bv(self):
        return tobv(self.v, self.w)

    def ext(self, w):
        """Value-preserving extension to w bits (BV or int)."""
        if isinstance(self.v, int):
            return (sgn(self.v, self.w) if self.sg else self.v) & mask(w)
        v = tobv(self.v, self.w)
        if w == self.w:
            return v
        return z3.SignExt(w - self.w, v) if self.sg else z3.ZeroExt(w - self.w, v)

    def tof(self, t):
        return F(self.E, self.E.dom.from_int(self.v, self.w, self.sg, t), t)

    def _two(self, o):
        if isinstance(o, int):
            return self.z(), o, True
        if isinstance(self.v, ZI) or isinstance(o.v, ZI):
            return self.z(), o.z(), True
        if isinstance(self.v, int) and isinstance(o.v, int):
            return self.z(), o.z(), True
        w = max(self.w, o.w) + (1 if self.sg != o.sg else 0)
        return tobv(self.ext(w), w), tobv(o.ext(w), w), False

    def _cmp(self, p, o):
        if isinstance(o, F):
            return {'lt': lambda: o > self, 'le': lambda: o >= self, 'gt': lambda: o < self,
                    'ge': lambda: o <= self, 'eq': lambda: o == self, 'ne': lambda: o != self}[p]()
        if isinstance(o, int):
            if isinstance(self.v, int):
                x = self.z()
                return {'lt': x < o, 'le': x <= o, 'gt': x > o, 'ge': x >= o, 'eq': x == o,
                        'ne': x != o}[p]
            if not isinstance(self.v, ZI):
                lo, hi = (-(1 << (self.w - 1)), (1 << (self.w - 1)) - 1) if self.sg else \
                    (0, (1 << self.w) - 1)
                if not lo <= o <= hi:
                    big = o > hi
                    return {'lt': big, 'le': big, 'gt': not big, 'ge': not big, 'eq': False,
                            'ne': True}[p]
                o = I(self.E, o & mask(self.w), self.w, self.sg)
            else:
                x = self.z()
                return _m(p, x, o)
        x, y, math = self._two(o)
        if math:
            if isinstance(x, int) and isinstance(y, int):
                return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y,
                        'ne': x != y}[p]
            return _m(p, x, y)
        if p == 'eq':
            return True if x.eq(y) else x == y
        if p == 'ne':
            return False if x.eq(y) else z3.Not(x == y)
        if self.sg or o.sg:
            return _m(p, x, y)
        return {'lt': z3.ULT, 'le': z3.ULE, 'gt': z3.UGT, 'ge': z3.UGE}[p](x, y)

    def __lt__(self, o):
        return self._cmp('lt', o)

    def __le__(self, o):
        return self._cmp('le', o)

    def __gt__(self, o):
        return self._cmp('gt', o)

    def __ge__(self, o):
        return self._cmp('ge', o)

    def __eq__(self, o):
        return self._cmp('eq', o)

    def __ne__(self, o):
        return self._cmp('ne', o)

    __hash__ = None

    def isnan(self):
        return False

    def isinf(self):
        return False

    def isfin(self):
        return True

    def _ar(self, op, o):
        """Wrapping machine arithmetic in this width."""
        b = o & mask(self.w) if isinstance(o, int) else o.v
        a = self.v
        if isinstance(a, int) and isinstance(b, int):
            r = {'+': a + b, '-': a - b, '*': a * b}[op] & mask(self.w)
        else:
            a, b = tobv(a, self.w), tobv(b, self.w)
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()
        return I(self.E, r, self.w, self.sg)

    def __add__(self, o):
        return o + self if isinstance(o, F) else self._ar('+', o)

    def __sub__(self, o):
        return self._ar('-', o)

    def __mul__(self, o):
        return o * self if isinstance(o, F) else self._ar('*', o)

    def __neg__(self):
        return I(self.E, 0, self.w, self.sg)._ar('-', self)


def _m(p, x, y):
    return {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
            'eq': lambda: x == y, 'ne': lambda: x != y}[p]()


class C:
    """A complex value: real and imaginary F."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im


class Claim:
    __slots__ = ('kind', 'label', 'a', 'b', 'scale', 'cond')

    def __init__(self, kind, label, a=None, b=None, scale=None, cond=None):
        self.kind, self.label, self.a, self.b, self.scale, self.cond = kind, label, a, b, scale, cond


class Env:
    def __init__(self, dom, ty='double', concrete=False):
        self.dom = dom
        self.ty = ty
        self.claims = []
        self.concrete = concrete
        self.real = isinstance(dom, RealDom)
        self.tol = None
        self.dims = {}

    # ---- values
    def litv(self, x, t=None):
        t = t or self.ty
        if self.real:
            return XR(Fraction(x) if not isinstance(x, float) else self._fl(x))
        if isinstance(x, Fraction):
            return z3.simplify(z3.fpRealToFP(z3.RNE(), z3.RealVal(str(x)), FSORT[t]))
        return z3.FPVal(x, FSORT[t]) if not isinstance(x, int) or abs(x) < 2 ** 53 else \
            z3.simplify(z3.fpRealToFP(z3.RNE(), z3.RealVal(x), FSORT[t]))

    @staticmethod
    def _fl(x):
        return Fraction(x)

    def lit(self, x, t=None):
        return F(self, self.litv(x, t), t or self.ty)

    def nan(self, t=None):
        t = t or self.ty
        return F(self, NAN if self.real else z3.fpNaN(FSORT[t]), t)

    def inf(self, t=None):
        t = t or self.ty
        return F(self, PINF if self.real else z3.fpPlusInfinity(FSORT[t]), t)

    def call(self, name, *args):
        t = next(a.t for a in args if isinstance(a, F))
        vs = [a.v if isinstance(a, F) else self.litv(a, t) for a in args]
        return F(self, self.dom.call(name, vs, t), t)

    def conv(self, x, t):
        return F(self, self.dom.convert(x.v, x.t, t), t) if x.t != t else x

    # ---- booleans
    And = staticmethod(lambda *a: band(*a))
    Or = staticmethod(lambda *a: bor(*a))
    Not = staticmethod(bnot)
    Implies = staticmethod(lambda a, b: bor(bnot(a), b))

    @staticmethod
    def Iff(a, b):
        if isinstance(a, bool):
            return b if a else bnot(b)
        if isinstance(b, bool):
            return a if b else bnot(a)
        return a == b

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, (int, float, Fraction)) and not isinstance(a, bool):
            if isinstance(b, (F, I)):
                a = self.lift(a, b)
            elif isinstance(a, int) and isinstance(b, int):
                return z3.If(c, z3.IntVal(a), z3.IntVal(b))
        if isinstance(b, (int, float, Fraction)) and not isinstance(b, bool) and isinstance(a, (F, I)):
            b = self.lift(b, a)
        if isinstance(a, F):
            return F(self, self.dom.ite(c, a.v, b.v), a.t)
        if isinstance(a, I):
            if isinstance(a.v, ZI) or isinstance(b.v, ZI):
                return I(self, ZI(z3.If(c, a.z(), b.z()), a.w, a.sg), a.w, a.sg)
            return I(self, z3.If(c, a.bv(), b.bv()), a.w, a.sg)
        if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
            return bite(c, a, b)
        if z3.is_expr(a) or z3.is_expr(b):
            return z3.If(c, a, b)
        return bite(c, a, b)

    def lift(self, x, like):
        if isinstance(like, F):
            return self.lit(x, like.t)
        return I(self, x & mask(like.w), like.w, like.sg)

    # ---- min / max and friends
    def fmax(self, a, b):
        return self.ite(a >= b, a, b)

    def fmin(self, a, b):
        return self.ite(a <= b, a, b)

    def same(self, a, b):
        """Equal as values: nan is the same as nan, 0.0 as -0.0."""
        if isinstance(a, F) or isinstance(b, F):
            if not isinstance(a, F):
                a = self.lift(a, b)
            if not isinstance(b, F):
                b = self.lift(b, a)
            return bor(band(a.isnan(), b.isnan()), a == b)
        if isinstance(a, C):
            return band(self.same(a.re, b.re), self.same(a.im, b.im))
        return a == b

    def bitsame(self, a, b):
        """Identical up to the payload of a nan (the sign of zero counts, except over the reals)."""
        if self.real or not isinstance(a, F):
            return self.same(a, b)
        return bor(band(a.isnan(), b.isnan()), band(a == b, self.Iff(a.signbit(), b.signbit())))

    # ---- claims
    def claim(self, label, cond):
        self.claims.append(Claim('bool', label, cond=cond))

    def claim_eq(self, label, a, b, scale=None, when=True):
        """a is the value produced, b the specified one.  Over the reals a replay compares with
        a tolerance relative to `scale` (default: max(1, |b|))."""
        if not isinstance(b, (F, I)) and isinstance(a, (F, I)):
            b = self.lift(b, a)
        if self.real and isinstance(a, F):
            self.claims.append(Claim('eq', label, a, b, scale, when))
        else:
            self.claims.append(Claim('bool', label, cond=bor(bnot(when), self.same(a, b))))

    def claim_le(self, label, a, b, scale=None, when=True):
        if self.real:
            self.claims.append(Claim('le', label, a, b, scale, when))
        else:
            self.claims.append(Claim('bool', label, cond=bor(bnot(when), a <= b)))

    def good(self, c):
        """The claim as a formula."""
        if c.kind == 'bool':
            return c.cond
        w = c.cond
        if c.kind == 'le':
            return bor(bnot(w), c.a <= c.b)
        return bor(bnot(w), self.same(c.a, c.b))

    def bad_margin(self, c, eps):
        """The claim fails by more than eps (reals), or fails outright (booleans)."""
        if c.kind == 'bool':
            return bnot(c.cond)
        a, b = c.a.v, c.b.v
        m = Fraction(eps)
        if c.kind == 'le':
            fin = band(a.finite(), b.finite())
            far = self.lit(m) < (c.a - c.b)
            return band(c.cond, bor(band(bnot(fin), bnot(c.a <= c.b)), band(fin, far)))
        fin = band(a.finite(), b.finite())
        d = abs(c.a - c.b)
        sc = abs(c.b) + 1
        far = (sc * m) < d
        return band(c.cond, bor(band(bnot(fin), bnot(self.same(c.a, c.b))), band(fin, far)))

    def judge(self, c):
        """Concrete verdict for a claim: True (holds) / False.  Over the reals with tolerance."""
        if c.kind == 'bool':
            v = c.cond
            if isinstance(v, bool):
                return v
            v = z3.simplify(v)
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            raise Unsupported(f'claim {c.label} does not evaluate: {v}')
        w = c.cond
        assert isinstance(w, bool), w
        if not w:
            return True
        a, b = c.a.v, c.b.v
        sc = Fraction(1) if c.scale is None else abs(c.scale.v.r if isinstance(c.scale, F) else Fraction(c.scale))
        if c.kind == 'le':
            if a.nan or b.nan:
                return False
            if a.ninf or b.pinf:
                return True
            if a.pinf or b.ninf:
                return False
            return a.r <= b.r + self.tol * max(sc, abs(b.r))
        if (a.nan, a.pinf, a.ninf) != (b.nan, b.pinf, b.ninf):
            # the specified number is beyond the range of the type
            return bool(b.finite() and ((a.pinf and b.r >= FMAX[c.a.t]) or (a.ninf and b.r <= -FMAX[c.a.t])))
        if a.nan or a.pinf or a.ninf:
            return True
        if c.scale is None:
            sc = max(Fraction(1), abs(b.r))
        else:
            sc = max(sc, abs(b.r))
        return abs(a.r - b.r) <= self.tol * sc


FMAX = {'half': 65000, 'float': Fraction(2) ** 127, 'double': Fraction(2) ** 1023, 'x86_fp80': Fraction(2) ** 16383}
TOL = {'half': Fraction(1, 2 ** 6), 'float': Fraction(1, 2 ** 14), 'double': Fraction(1, 2 ** 36),
       'x86_fp80': Fraction(1, 2 ** 40)}
