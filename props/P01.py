"""Memory safety, faults and uninitialised results"""
from symex.check import Task
from symex.rel import Rel
from . import P28
from .shapes import all_ufuncs, dims_of, arg_pre, CONTIG_ONLY, kind_of

MODULES = None
BOUNDS = 'two elements per batch; core dimensions 0..3 (the largest and the empty ones only, for all but one loop per kind of type); ' \
         'layouts with gaps, reversed, transposed (core axis first) and broadcast inputs (stride 0)'
ASSUME = ['floating point operations are uninterpreted functions of their operands; comparisons, classification, conversions to '
          'integer and integer arithmetic are exact', 'bincount adds to what the output holds (its Python wrapper clears it)']


def nothing(E, *a):
    pass


def safe(ex, st, r):
    ex.summarise = 'safe'


def tasks(tier):
    out = []
    for mod, attr, uf in all_ufuncs():
        kinds = set()
        loops = [t for t, _, _ in uf.loops if 'O' not in t]
        for i, t in enumerate(loops):
            k = kind_of(attr, t)
            dims = dims_of(attr, uf)
            lays = ('contig',) if attr in CONTIG_ONLY else ('strided', 'neg', 'axis0', 'bcast')
            if uf.sig is None:
                lays = [x for x in lays if x != 'axis0']
            if tier == 'quick' and k in kinds:
                if attr == 'bincountw' and i % 4:
                    continue
                big = max(dims, key=lambda d: sum(d.values()))
                dims = [d for d in dims if d is big or (d and min(d.values()) == 0)]
                lays = [lays[i % len(lays)]]
            if attr in ('pmean', 'pmeanw', 'hmean', 'hmeanw', 'unwrap') and tier == 'quick':
                dims = [d for d in dims if d['n'] < (3 if i == 1 else 2)]
            kinds.add(k)
            for d in dims:
                for lay in lays:
                    out.append(Task(f'{attr} accesses', mod, attr, t, d, nothing, mode='opaque', kind=lay, nloops=2, concord=0,
                                    pre=arg_pre(attr), setup=safe))
                    if attr not in ('bincount', 'bincountw'):
                        out.append(Rel('fresh', mod, attr, t, d, lay, pre=arg_pre(attr)))
    return out
