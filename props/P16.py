"""cross2, cross3"""
from .common import gu, loops_of

MODULES = ['_cross']
BOUNDS = 'two loop iterations, contiguous / strided / negative / transposed / broadcast layouts; integers modulo 2^w, ' \
         'floating point over mathematical reals'
ASSUME = ['finite floating point values', 'object loops are decided by P35']


def comp(E, label, got, terms):
    want, sc = None, E.lit(1)
    a, b, c, d = terms
    want = a * d - b * c
    if E.isfloat:
        E.claim_eq(label, got, want, scale=abs(a) * abs(d) + abs(b) * abs(c) + sc)
    else:
        E.claim(label, got == want)


def cross3(E, u, v, o):
    E.isfloat = E.types[0] in 'fdg'
    comp(E, 'first component', o[0], (u[1], u[2], v[1], v[2]))
    comp(E, 'second component', o[1], (u[2], u[0], v[2], v[0]))
    comp(E, 'third component', o[2], (u[0], u[1], v[0], v[1]))


def cross2(E, u, v, o):
    E.isfloat = E.types[0] in 'fdg'
    comp(E, 'u0*v1 - u1*v0', o, (u[0], u[1], v[0], v[1]))


def tasks(tier):
    out = []
    for attr, spec in (('cross3', cross3), ('cross2', cross2)):
        for t in loops_of('_cross', attr):
            if t[0] == 'O':
                continue
            out += gu(attr, '_cross', spec, 'real' if t[0] in 'fdg' else 'fp', [t], [{}],
                      layouts=('contig', 'strided', 'neg', 'axis0', 'bcast', ('contig', 'strided', 'strided')))
    return out
