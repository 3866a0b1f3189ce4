"""Complex log1p"""
from fractions import Fraction as Fr
import z3
from symex import num
from symex.dom import band, decode, rz
from .common import Task

MODULES = ['_log1p']
BOUNDS = ('one and two elements, contiguous, strided and negative layouts, D and F; over the reals all finite arguments except -1, and the special values; '
          'cancellation in exact IEEE arithmetic (D and F): windows of 4 x 4 (D), 16 x 16 (F) neighbouring points (thorough: 8 x 8, 32 x 32) near eight points of the circle |1 + z| = 1, '
          'on a grid whose squares need up to 80 bits; the precision elsewhere is outside')
ASSUME = ['over the reals: log and atan2 uninterpreted, log1p(x) = log(1 + x); log1p_theorem4: its correction factor is 1 over the reals and not covered',
          'windows: log1p uninterpreted; its argument has to be the exact value of x^2 + 2 x + y^2']
STUBS = ['log1p', 'log', 'atan2', 'hypot']


def formula(E, z, out):
    """Re = log|1 + z| as half the logarithm of the square, Im = the argument."""
    x, y = z.re, z.im
    fin = E.And(x.isfin(), y.isfin())
    one = E.And(fin, E.Or(x != -1, y != 0))
    E.claim('nan stays (both parts)', E.Implies(E.Or(x.isnan(), y.isnan()), E.And(out.re.isnan(), out.im.isnan())))
    s = (x + 1) * (x + 1) + y * y
    if not E.concrete or bool(one):
        h = E.call('sqrt', s)
        l = E.call('log', s)
        lh = E.call('log', h)
        if not E.concrete:
            E.dom.axioms.append(z3.Implies(z3.And(rz(y.v.r) == 0, rz(x.v.r) > -1), rz(E.call('atan2', y, x + 1).v.r) == 0))
            # log of a square root is half the logarithm
            E.dom.axioms.append(z3.Implies(_z(one), 2 * lh.v.r == l.v.r))
        E.claim_eq('real part: log|1 + z|', out.re * 2, l, scale=abs(l) + 1, when=one)
        E.claim_eq('imaginary part: the argument of 1 + z', out.im, E.call('atan2', y, x + 1), when=one, scale=E.lit(1))


def _z(b):
    from symex.dom import b2z
    return b2z(b)


def special(E, z, out):
    x, y = z.re, z.im
    nan = E.Or(x.isnan(), y.isnan())
    E.claim('nan stays (both parts)', E.Implies(nan, E.And(out.re.isnan(), out.im.isnan())))
    E.claim('an infinite part: the real part is inf', E.Implies(E.And(E.Not(nan), E.Or(x.isinf(), y.isinf())), E.And(out.re.isinf(), out.re > 0)))
    E.claim('-1: the real part is -inf', E.Implies(E.And(x == -1, y == 0), E.And(out.re.isinf(), out.re < 0)))


# points near the circle |1 + z| = 1, and the exponent of the grid
POINTS = {
    'D': [(Fr(-2, 5), Fr(4, 5), 40), (Fr(-2, 5), Fr(-4, 5), 40), (Fr(-1, 13), Fr(5, 13), 40), (Fr(-18, 13), Fr(12, 13), 40), (Fr(-49, 25), Fr(7, 25), 40)],
    'F': [(Fr(-2, 5), Fr(4, 5), 22), (Fr(-1, 13), Fr(-5, 13), 22), (Fr(-18, 13), Fr(12, 13), 22)],
}


def bits(v, p, K, ty, name):
    """(float bits with K free bits, integer v 2^p as an expression of width 2p + 8)"""
    eb, mb = {'D': (11, 52), 'F': (8, 23)}[ty]
    n = round(abs(v) * 2 ** p) >> K << K
    w = 2 * p + 8
    k = z3.BitVec(name, K)
    e = n.bit_length() - 1                    # value = 2^(e - p) (1 + m / 2^e)
    top = z3.BitVecVal((n ^ (1 << e)) >> K, e - K)
    f = z3.Concat(z3.BitVecVal(v < 0, 1), z3.BitVecVal(e - p + (1 << (eb - 1)) - 1, eb), top, k, z3.BitVecVal(0, mb - e))
    i = z3.BitVecVal(n, w) | z3.ZeroExt(w - K, k)
    return z3.simplify(f), (-i if v < 0 else i)


def window(pt, K, ty):
    from symex.dom import FPDom
    lt = {'D': 'double', 'F': 'float'}[ty]

    def values(i, l, q, tc):
        return tuple(FPDom().from_bits(bits(v, pt[2], K, ty, nm)[0], lt) for v, nm in zip(pt, ('kx', 'ky')))
    return values


def gen(pt, K, ty):
    def f(rng, task):
        r = []
        for v, nm in zip(pt, ('kx', 'ky')):
            b = bits(v, pt[2], K, ty, nm)[0]
            r.append(z3.simplify(z3.substitute(b, (z3.BitVec(nm, K), z3.BitVecVal(rng.getrandbits(K), K)))).as_long())
        return [[[tuple(r)]]]
    return f


def exact(pt, K, ty):
    def spec(E, z, out):
        if E.concrete:
            import mpmath
            x, y = frac(z.re), frac(z.im)
            t = mpmath.log1p(num.mpf(x * x + 2 * x + y * y)) / 2
            o = frac(out.re)
            tol = Fr(1, 2 ** (46 if ty == 'D' else 21))
            E.claim(CLAIM, o is not None and abs(o - num.tofrac(t)) <= abs(num.tofrac(t)) * tol)
            return
        p = pt[2]
        w = 2 * p + 8
        X, Y = (bits(v, p, K, ty, nm)[1] for v, nm in zip(pt, ('kx', 'ky')))
        e = X * X + (X << (p + 1)) + Y * Y
        s = E.lit(0, 'double')
        v = type(s)(E, z3.fpMul(z3.RNE(), z3.fpSignedToFP(z3.RNE(), e, z3.Float64()), z3.FPVal(2.0 ** (-2 * p), z3.Float64())), 'double')
        apps = logs(out.re.v, 'log1p_')
        ang = logs(out.re.v, 'atan2_')          # CMPLX adds 0 * angle
        im = z3.FP('angle', out.im.v.sort())
        t = z3.FP('log1p', z3.Float64())
        E.claim(CLAIM, band(bool(apps), *[z3.fpEQ(a.arg(0), v.v) for a in apps]))
        r = type(s)(E, z3.substitute(out.re.v, *[(a, t) for a in apps], *[(a, im) for a in ang]), out.re.t)
        h = type(s)(E, t, 'double') * Fr(1, 2)
        E.claim('there it is half of log1p', E.Implies(z3.fpLEQ(z3.fpAbs(im), z3.FPVal(4, im.sort())), E.same(r, E.conv(h, out.re.t))))
    return spec


def logs(t, name):
    """the applications of a function in a term"""
    seen, todo, found = set(), [t], []
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().name().startswith(name):
            found.append(u)
        todo += u.children()
    return found


CLAIM = 'near the circle |1 + z| = 1 the real part has full precision'


def frac(f):
    b = z3.simplify(z3.fpToIEEEBV(f.v)).as_long()
    d = decode(b, f.t)
    return d[2] if len(d) > 2 else None


def tasks(tier):
    out = []
    for t in ('DD', 'FF'):
        for attr in ('log1p_doubledouble', 'log1p_theorem4'):
            for k, nl in (('contig', 1), ('strided', 2), ('neg', 2)):
                out.append(Task(attr, '_log1p', attr, t, {}, formula, mode='real', kind=k, nloops=nl))
        out.append(Task('log1p_doubledouble', '_log1p', 'log1p_doubledouble', t, {}, special, mode='realx', kind='contig', nloops=1))
        for pt in POINTS[t[0]]:
            K = {'D': 2, 'F': 4}[t[0]] + (tier != 'quick')
            out.append(Task(f'log1p_doubledouble near {pt[0]} + {pt[1]}i', '_log1p', 'log1p_doubledouble', t, {}, exact(pt, K, t[0]), mode='fp', kind='contig',
                            values=window(pt, K, t[0]), free=True, gen=gen(pt, K, t[0]), obligations=False, timeout=200, budget=500))
            out[-1].pure = True
    return out
