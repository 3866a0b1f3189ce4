"""vnorm, rms, vdot"""
from .common import gu, ns, const

MODULES = ['_vnorm']
BOUNDS = 'n <= 3 (quick) / 4 elements, two loop iterations, contiguous / strided / negative / transposed layouts; ' \
         'real and complex f, d, g over mathematical reals; orders: <= 0, 1, 2, inf and symbolic'
ASSUME = ['finite elements', 'mathematical reals; pow is uninterpreted except pow(x,1), pow(x,2), pow(x,1/2)']
STUBS = ['pow', 'sqrt', 'hypot']


def mod(E, z):
    return E.call('hypot', z.re, z.im) if hasattr(z, 're') else abs(z)


def big(E, a):
    m = E.lit(0)
    for v in a:
        m = E.fmax(m, v)
    return m


def vnorm(E, x, p, out):
    a = [mod(E, z) for z in x]
    s1 = E.lit(0)
    for v in a:
        s1 = s1 + v
    M = big(E, a)
    E.claim('order <= 0 -> nan', E.Implies(p <= 0, out.isnan()))
    E.claim_eq('order 1: sum of absolute values', out, s1, scale=s1 + 1, when=p == 1)
    E.claim_eq('order inf: largest absolute value', out, M, when=E.And(p > 0, p.isinf()))
    E.claim_eq('zero vector', out, E.lit(0), when=E.And(p > 0, M == 0))


def vnorm_p(E, x, p, out):
    vnorm(E, x, p, out)
    a = [mod(E, z) for z in x]
    M = big(E, a)
    s = E.lit(0)
    for v in a:
        s = s + E.call('pow', v / M, p)
    E.claim_eq('order p: (sum |x|^p)^(1/p), scaled by the largest', out, M * E.call('pow', s, 1 / p), scale=M + 1,
               when=E.And(p.isfin(), p > 0, p != 1, p != 2, M > 0))


def vnorm2(E, x, p, out):
    s = E.lit(0)
    for z in x:
        s = s + (z.re * z.re + z.im * z.im if hasattr(z, 're') else z * z)
    E.claim_eq('order 2: the square is the sum of squares', out * out, s, scale=s + 1)
    E.claim_le('nonnegative', E.lit(0), out)


def fixed(*vals):
    def pre(E, x, p):
        return [E.Or(*[(p.isinf() if v == 'inf' else p == v) for v in vals]), *[E.Not(y.isnan()) for y in [p]], p > 0 if 'inf' in vals else True]
    return pre


def rms(E, x, out):
    s = E.lit(0)
    for z in x:
        s = s + (z.re * z.re + z.im * z.im if hasattr(z, 're') else z * z)
    E.claim_eq('root of the mean square', out, E.call('sqrt', s / len(x)), scale=1)


def vdot(E, x, y, out):
    s, sc = E.lit(0), E.lit(1)
    for a, b in zip(x, y):
        s = s + a * b
        sc = sc + abs(a) * abs(b)
    E.claim_eq('sum of products', out, s, scale=sc)


def tasks(tier):
    out = []
    n = 3 if tier == 'quick' else 4
    for t in ('fff', 'ddd', 'ggg', 'Fff', 'Ddd', 'Ggg'):
        out += gu('vnorm', '_vnorm', vnorm_p, 'real', [t], ns('n', 0, 1, 2), nloops=1)
        out += gu('vnorm', '_vnorm', vnorm, 'real', [t], ns('n', n), nloops=2, pre=fixed(1))
        out += gu('vnorm', '_vnorm', vnorm, 'realx', [t], ns('n', n), nloops=1,
                  pre=lambda E, x, p: [p.isinf(), p > 0] + [c.isfin() for z in x for c in ((z.re, z.im) if hasattr(z, 're') else (z,))])
        out += gu('vnorm', '_vnorm', vnorm2, 'real', [t], ns('n', 1, 2, 3), nloops=1, values=const(_1=2))
    for t in ('ddd', 'Ddd'):
        out += gu('vnorm', '_vnorm', vnorm_p, 'real', [t], ns('n', 2), layouts=('contig', 'neg', 'axis0', 'bcastscalar'), nloops=1)
        out += gu('vnorm', '_vnorm', vnorm, 'real', [t], ns('n', 2), layouts=('contig', 'neg', 'axis0', 'bcastscalar'), nloops=2, pre=fixed(1))
    for t in ('ff', 'dd', 'gg', 'Ff', 'Dd', 'Gg'):
        out += gu('rms', '_vnorm', rms, 'real', [t], ns('n', 1, n), layouts=('contig', 'strided'))
        out += gu('rms', '_vnorm', rms, 'real', [t], ns('n', 2), layouts=('neg', 'axis0'))
    for t in ('fff', 'ddd', 'ggg'):
        out += gu('vdot', '_vnorm', vdot, 'real', [t], ns('n', 0, 1, n), layouts=('contig', 'strided'))
        out += gu('vdot', '_vnorm', vdot, 'real', [t], ns('n', 2), layouts=('neg', 'axis0', ('contig', 'strided', 'contig'),
                                                                          ('strided', 'contig', 'contig')))
    return out
