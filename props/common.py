from symex.check import Task, FnTask  # noqa: F401
from symex import registry

FDG = 'fdg'
LAYG = ('contig', 'strided', 'neg', 'axis0')   # gufuncs


def elementwise(attr, modname, nargs, spec, mode, types=FDG, layouts=('contig',), nloops=1, **kw):
    """Tasks for an element-wise ufunc whose operands all have one type."""
    out = []
    for t in types:
        for lay in layouts:
            out.append(Task(f'{attr}', modname, attr, t * nargs, {}, spec, mode=mode, kind=lay,
                            nloops=nloops, **kw))
    return out


def loops_of(modname, attr):
    return [t for t, f, d in registry.get(modname).ufuncs[attr].loops]


def gu(attr, modname, spec, mode, types, dims, layouts=('strided',), nloops=(2,), **kw):
    """types: list of type strings; dims: list of dicts."""
    out = []
    for t in types:
        for d in dims:
            for lay in layouts:
                for nl in (nloops if isinstance(nloops, (tuple, list)) else (nloops,)):
                    out.append(Task(attr, modname, attr, t, d, spec, mode=mode, kind=lay, nloops=nl, **kw))
    return out


def ns(sym, *vals):
    return [{sym: v} for v in vals]


def nonan(E, *a):
    out = []
    for x in a:
        for y in (x if isinstance(x, list) else [x]):
            out.append(E.Not(y.isnan()))
    return out


def fin(E, *a):
    out = []
    for x in a:
        for y in (x if isinstance(x, list) else [x]):
            out.append(y.isfin())
    return out


def const(**kw):
    """values= provider: operand number i (given as _i=value) is the constant (real domain)."""
    from symex.dom import XR
    from fractions import Fraction
    tab = {int(k[1:]): v for k, v in kw.items()}

    def values(i, l, q, tc):
        if i not in tab:
            return None
        v = tab[i][q] if isinstance(tab[i], (list, tuple)) else tab[i]
        return XR(Fraction(v)) if tc in 'efdg' else v
    return values


def fpconst(tab):
    """values= provider for exact arithmetic: {operand: [constant or None per element]}."""
    from fractions import Fraction
    from symex.dom import FPDom
    from symex.num import frac_to_bits
    from symex.spec import LT

    def values(i, l, q, tc):
        if i not in tab or tab[i][q] is None:
            return None
        return FPDom().from_bits(frac_to_bits(Fraction(tab[i][q]), LT[tc]), LT[tc])
    return values
