"""Batching and memory layout"""
from symex.rel import Rel
from . import P28
from .shapes import all_ufuncs, dims_of, arg_pre, CONTIG_ONLY, kind_of

MODULES = None
BOUNDS = 'two elements per batch; core dimensions 0..3 (the largest only, strided, for all but one loop per kind of type); layouts ' \
         'with gaps, reversed, transposed (core axis first) and broadcast inputs (stride 0)'
ASSUME = ['floating point operations are uninterpreted functions of their operands (equal operands give equal results); '
          'comparisons, classification and integer arithmetic are exact',
          'linear_interp1d: finite strictly increasing knots, mathematical reals (its path for one shared argument groups the '
          'same formula differently)', 'bincount adds to what the output holds: both calls start from the same counts']


def one(attr, mod, t, d, lay):
    if attr == 'linear_interp1d':
        return Rel('batch', mod, attr, t, d, lay, mode='real', pre=P28.pre, gen=P28.gen, tol=None)
    return Rel('batch', mod, attr, t, d, lay, accumulate=attr in ('bincount', 'bincountw'), pre=arg_pre(attr))


def tasks(tier):
    out = []
    for mod, attr, uf in all_ufuncs():
        kinds = set()
        loops = [t for t, _, _ in uf.loops if 'O' not in t]
        for i, t in enumerate(loops):
            k = kind_of(attr, t)
            dims = [d for d in dims_of(attr, uf) if not d or max(d.values()) > 0]
            lays = ('contig', 'bcast') if attr in CONTIG_ONLY else ('strided', 'neg', 'axis0', 'bcast')
            if uf.sig is None:
                lays = [x for x in lays if x != 'axis0']
            if (tier == 'quick' and k in kinds) or (attr == 'bincountw' and k in kinds):
                if attr == 'bincountw' and tier == 'quick' and i % 4:
                    continue
                dims = [max(dims, key=lambda d: sum(d.values()))]
                lays = lays[:1] if i % 2 else lays[-1:] if attr in CONTIG_ONLY else [lays[2 % len(lays)]]
            if attr in ('pmean', 'pmeanw') and tier == 'quick':
                dims, lays = dims[:1 + (i == 1)], lays if i == 1 else lays[i:i + 1]
            kinds.add(k)
            out += [one(attr, mod, t, d, lay) for d in dims for lay in lays]
    return out
