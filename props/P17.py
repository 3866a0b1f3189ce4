"""tri_area, tri_area_indexed"""
import itertools
import z3
from .common import gu, Task

MODULES = ['_tri_area']
BOUNDS = 'points in n = 1..3 dimensions (direct), n = 2, m = 3 points (indexed), four layouts; f, d, g over mathematical reals; ' \
         'every index value (quick: triples of distinct points; thorough: all 27), counted from either end, and out of range'
ASSUME = ['finite coordinates']


def dist(E, p, q):
    s = E.lit(0)
    for a, b in zip(p, q):
        s = s + (b - a) * (b - a)
    return E.call('sqrt', s)


def heron(E, p, q, r):
    a, b, c = dist(E, p, q), dist(E, p, r), dist(E, q, r)
    prod = (a + b + c) * (b + c - a) * (a + c - b) * (a + b - c)
    return E.call('sqrt', prod) / 4


def sc(E, *pts):
    s = E.lit(1)
    for p in pts:
        for x in p:
            s = s + x * x
    return s


def tri(E, p, out):
    n = E.dims['n']
    pts = [p[k * n:(k + 1) * n] for k in range(3)]
    E.claim_eq('area of the triangle', out, heron(E, *pts), scale=sc(E, *pts))


def oob(E, p, i, out):
    m = E.dims['m']
    inb = [E.And(i[q] >= -m, i[q] < m) for q in range(3)]
    E.claim('index out of range -> nan', E.Implies(E.Not(E.And(*inb)), out.isnan()))


def choose(tr, m):
    """Index values: element k of the array, counted from the front or from the end (free choice)."""
    def values(i, l, q, tc):
        if i != 1:
            return None
        return z3.If(z3.Bool(f'front_{l}_{q}'), z3.BitVecVal(tr[q], 64), z3.BitVecVal(tr[q] - m, 64))
    return values


def indexed(tr):
    def f(E, p, i, out):
        n = E.dims['n']
        pts = [p[k * n:(k + 1) * n] for k in tr]
        E.claim_eq(f'triangle of the points {tr}', out, heron(E, *pts), scale=sc(E, *pts))
    return f


def tasks(tier):
    dims = [{'n': 1}, {'n': 2}, {'n': 3}]
    out = gu('tri_area', '_tri_area', tri, 'real', ['ff', 'dd', 'gg'], dims, nloops=1, first=2)
    out += gu('tri_area', '_tri_area', tri, 'real', ['dd'], [{'n': 2}], layouts=('contig', 'strided', 'neg', 'axis0'),
              nloops=2, first=2)
    out += gu('tri_area', '_tri_area', tri, 'real', ['ff', 'gg'], [{'n': 2}], layouts=('contig', 'axis0'), nloops=2, first=2)
    for t in ('flf', 'dld', 'glg'):
        out += gu('tri_area_indexed', '_tri_area', oob, 'real', [t], [{'n': 1, 'm': 0}, {'n': 1, 'm': 2}, {'n': 2, 'm': 3}], nloops=1, first=2)
        trs = [tr for tr in itertools.product(range(3), repeat=3) if tier != 'quick' or len(set(tr)) == 3]
        if tier == 'quick' and t != 'dld':
            trs = [(0, 1, 2), (2, 0, 1)]
        for tr in trs:
            for lay in (('contig', 'strided', 'neg', 'axis0') if t == 'dld' and tr in ((0, 2, 1), (2, 0, 1)) else ('strided',)):
                out.append(Task(f'indexed{tr}', '_tri_area', 'tri_area_indexed', t, {'n': 2, 'm': 3}, indexed(tr), mode='real',
                                kind=lay, nloops=1 if lay == 'strided' else 2, values=choose(tr, 3), concord=0, first=2))
    return out
