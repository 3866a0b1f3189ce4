"""Every type combination computes the same function"""
from symex.rel import Rel
from . import P28
from .shapes import all_ufuncs, dims_of, arg_pre, CONTIG_ONLY

MODULES = None
BOUNDS = 'core dimensions 0..3; one element per batch, strided; narrow against 64 bit integers, unsigned against signed 64 bit, signed 64 bit ' \
         'against double, float and long double against double, complex likewise'
ASSUME = ['integers whose intermediate results fit the narrower type; floating point values over the mathematical reals',
          'next_greater, next_less and their sequences, and issnan, depend on the type by definition; excluded, as are '
          'convert_to_base (P14) and tri_area_indexed (P17), whose own checks cover every type, half precision, and pmean in long double']

# what depends on the type by definition, has different approximations per type (P29, P30), or is decided for every type
# elsewhere (convert_to_base: P14, tri_area_indexed: P17); pmean in long double: thresholds beyond the exponents encoded
OWN = {'next_greater', 'next_less', 'nextn_greater', 'nextn_less', 'issnan', 'erfcx', 'cdf', 'logcdf', 'sf', 'logsf', 'expint1', 'logexpint1', 'convert_to_base', 'tri_area_indexed'}

STEP = [{**{c: 'd' for c in 'fge'}, **{c: 'D' for c in 'FG'}, **{c: 'l' for c in 'bhiq'}, **{c: 'L' for c in 'BHIQ'}, '?': 'L'},
        {c: 'l' for c in 'BHILQ'}, {c: 'd' for c in 'bhilq'}]


def reference(t, loops):
    for m in STEP:
        best = None
        for t2 in loops:
            if t2 != t and all(b == a or b == m.get(a) for a, b in zip(t, t2)):
                n = sum(a != b for a, b in zip(t, t2))
                best = max(best or (0, ''), (n, t2))
        if best:
            return best[1]
    return None


def tasks(tier):
    out = []
    for mod, attr, uf in all_ufuncs():
        if attr in OWN:
            continue
        loops = [t for t, _, _ in uf.loops if 'O' not in t and 'e' not in t]
        for t in loops:
            r = reference(t, loops)
            if not r or (attr in ('pmean', 'pmeanw') and t[0] == 'g'):
                continue
            dims = dims_of(attr, uf)
            if tier == 'quick':
                dims = [max(dims, key=lambda d: sum(d.values()))]
            if attr == 'bincountw' and tier == 'quick':
                dims = [dict(n=1, m=2)]
            if attr == 'tri_area_indexed':
                dims = [dict(m=2, n=1)]
            for d in dims:
                pre = P28.pre if attr == 'linear_interp1d' else arg_pre(attr)
                out.append(Rel('types', mod, attr, t, d, 'contig' if attr in CONTIG_ONLY else 'strided', nloops=1, mode='realx', zimode=True, other=r,
                               accumulate=attr in ('bincount', 'bincountw'), pre=pre))
    return out
