"""meanvar, pearson_corr"""
from .common import gu, ns, loops_of, const

MODULES = ['_meanvar', '_corr']
BOUNDS = 'meanvar: n = 1..4, pearson_corr: n = 2, 3 elements, contiguous / strided / negative / transposed layouts, two loop iterations; ' \
         'every loop; arithmetic over mathematical reals, |ddof| < 2^31'
ASSUME = ['finite elements', '|ddof| < 2^31']
STUBS = ['sqrt', 'pow(x, 2)']


def tof(E, v, ty):
    return v.tof(ty) if hasattr(v, 'tof') else v


def mean_of(E, xs):
    s = xs[0]
    for v in xs[1:]:
        s = s + v
    return s / len(xs)


def mv_pre(E, x, ddof):
    return [ddof > -2**31, ddof < 2**31]


def mv(E, x, ddof, out):
    n = len(x)
    ty = out[0].t
    xs = [tof(E, v, ty) for v in x]
    m = mean_of(E, xs)
    sc = E.lit(1, ty)
    ss = E.lit(0, ty)
    for v in xs:
        ss = ss + (v - m) * (v - m)
        sc = sc + abs(v)
    E.claim_eq('mean', out[0], m, scale=sc)
    d = tof(E, ddof, ty)
    E.claim_eq('variance times (n - ddof) is the sum of squared deviations', out[1] * (n - d), ss, scale=sc * sc, when=ddof != n)
    E.claim('n == ddof: no finite value', E.Implies(ddof == n, E.Not(out[1].isfin())))


def corr(E, x, y, out):
    n = len(x)
    ty = out.t
    xs, ys = [tof(E, v, ty) for v in x], [tof(E, v, ty) for v in y]
    mx, my = mean_of(E, xs), mean_of(E, ys)
    sxx = syy = sxy = E.lit(0, ty)
    for a, b in zip(xs, ys):
        sxx = sxx + (a - mx) * (a - mx)
        syy = syy + (b - my) * (b - my)
        sxy = sxy + (a - mx) * (b - my)
    constx = E.And(*[v == x[0] for v in x[1:]])
    consty = E.And(*[v == y[0] for v in y[1:]])
    ok = E.Not(E.Or(constx, consty))
    E.claim('constant data -> nan', E.Implies(E.Not(ok), out.isnan()))
    if n == 2:
        up = E.Iff(x[0] < x[1], y[0] < y[1])
        E.claim_eq('two points, same direction: 1', out, E.lit(1, ty), when=E.And(ok, up))
        E.claim_eq('two points, opposite direction: -1', out, E.lit(-1, ty), when=E.And(ok, E.Not(up)))
    else:
        E.claim_eq('square of the normalised covariance', out * out * (sxx * syy), sxy * sxy, scale=sxx * syy, when=ok)
        E.claim('sign of the covariance', E.Implies(ok, E.And(E.Iff(out > 0, sxy > 0), E.Iff(out < 0, sxy < 0))))


def corr_def(E, x, y, out):
    """The definition with the two norms (square roots as the code's)."""
    ty = out.t
    xs, ys = [tof(E, v, ty) for v in x], [tof(E, v, ty) for v in y]
    mx, my = mean_of(E, xs), mean_of(E, ys)
    sxx = syy = sxy = E.lit(0, ty)

    def top(zs, m):
        t = abs(zs[0] - m)
        for z in zs[1:]:
            t = E.ite(abs(z - m) > t, abs(z - m), t)
        return t
    ax, ay = top(xs, mx), top(ys, my)
    for a, b in zip(xs, ys):
        sxx = sxx + ((a - mx) / ax) * ((a - mx) / ax)
        syy = syy + ((b - my) / ay) * ((b - my) / ay)
        sxy = sxy + (a - mx) * (b - my)
    ok = E.And(ax != 0, ay != 0)
    nx, ny = ax * E.call('sqrt', sxx), ay * E.call('sqrt', syy)
    E.claim_eq('normalised covariance', out, sxy / (nx * ny), scale=1, when=ok)
    E.claim('constant data -> nan', E.Implies(E.Not(ok), out.isnan()))


def gen(rng, task):
    from symex.check import rand_elem
    from symex.harness import TC
    n = task.dims['n']
    out = []
    for tc in task.types[:2]:
        w = 8 * TC[tc][1]
        if TC[tc][3] in 'iu':
            out.append([[rng.choice([0, 1, 2, 5, 40, 100]) & ((1 << w) - 1) for _ in range(n)] for _ in range(task.nloops)])
        else:
            out.append([[rand_elem(rng, tc, False) for _ in range(n)] for _ in range(task.nloops)])
    return out


def tasks(tier):
    out = []
    n = 4 if tier == 'quick' else 6
    for t in loops_of('_meanvar', 'meanvar'):
        ty = {'f': 'float', 'd': 'double', 'g': 'x86_fp80'}[t[2]]
        kw = dict(pre=mv_pre, ty=ty, zimode=True)
        fl = t[0] in 'fdg'
        out += gu('meanvar', '_meanvar', mv, 'real', [t], ns('n', 1, 2), **kw)
        out += gu('meanvar', '_meanvar', mv, 'real', [t], ns('n', n), nloops=1, **kw)
        out += gu('meanvar', '_meanvar', mv, 'real', [t], ns('n', 2), layouts=('contig', 'neg', 'axis0') if fl or t[0] in 'bL' else ('contig',), **kw)
    for t in loops_of('_corr', 'pearson_corr'):
        ty = {'f': 'float', 'd': 'double', 'g': 'x86_fp80'}[t[2]]
        kw = dict(ty=ty, zimode=True)
        out += gu('pearson_corr', '_corr', corr, 'real', [t], ns('n', 2), layouts=('contig', 'strided', 'neg', 'axis0', ('contig', 'strided', 'contig')), **kw)
        for v in (const(_1=(1, 2, 4)), const(_0=(3, 1, 7))):
            out += gu('pearson_corr', '_corr', corr_def, 'real', [t], ns('n', 3), nloops=1, first=3, gen=gen, values=v, free=True,
                      layouts=('strided', 'contig', 'neg', 'axis0') if t[0] in 'fdg' else ('strided',), concord=0, **kw)
    return out
