"""Core dimensions, preconditions and encodings under which every ufunc is exercised as a whole (P01, P02)."""
import os
from symex import registry, build

# attribute -> list of core dimensions; default: n = 1, 3 (n = 0 where the shape check allows it)
DIMS = {
    'pmean': [dict(n=1), dict(n=2)], 'pmeanw': [dict(n=1), dict(n=2)],
    'fillnan1d': [dict(n=0), dict(n=1), dict(n=2)],
    'backlash_sum': [dict(n=2, m=2), dict(n=3, m=1), dict(n=1, m=0), dict(n=0, m=1)],
    'bincount': [dict(n=2, m=2), dict(n=0, m=2), dict(n=1, m=0)],
    'bincountw': [dict(n=2, m=2), dict(n=0, m=2), dict(n=1, m=0)],
    'tri_area_indexed': [dict(m=2, n=2), dict(m=0, n=1)],
    'sosfilter': [dict(m=2, n=2), dict(m=1, n=3), dict(m=0, n=2), dict(m=1, n=0)],
    'sosfilter_ic': [dict(m=2, n=2), dict(m=1, n=3), dict(m=0, n=2), dict(m=1, n=0)],
    'sosfilter_ic_contig': [dict(m=2, n=2), dict(m=1, n=3), dict(m=0, n=2), dict(m=1, n=0)],
}
NONEMPTY = {'pearson_corr': 2, 'mad': 1, 'rmad': 1, 'gini': 1, 'meanvar': 1, 'rms': 1, 'wjaccard': 1, 'argmin': 1, 'argmax': 1, 'minmax': 1,
            'argminmax': 1, 'min_argmin': 1, 'max_argmax': 1}


def all_ufuncs():
    d = os.path.join(build.SITE, 'ufunclab')
    for f in sorted(os.listdir(d)):
        m = f.split('.')[0]
        if f.endswith('.so') and m not in ('_ufunc_inspector', '_gendot'):
            info = registry.get(m)
            for a, u in info.ufuncs.items():
                yield m, a, u


def dims_of(attr, uf):
    if attr in DIMS:
        return DIMS[attr]
    sig = uf.sig
    if sig is None:
        return [{}]
    for s in ('n', 'm'):
        if '(' + s in sig.replace(' ', '') or ',' + s in sig.replace(' ', ''):
            low = NONEMPTY.get(attr, 0)
            return [{s: k} for k in (0, 1, 2, 3) if k >= low]
    return [{}]


CONTIG_ONLY = {'sosfilter_ic_contig'}     # documented as a tool that requires contiguous arguments


def arg_pre(attr):
    """Condition under which the function is specified at all (None: always)."""
    return None


def kind_of(attr, t):
    """Kind of the types of a loop: the code of loops of one kind comes from one template."""
    k = ''.join('f' if c in 'fdg' else 'c' if c in 'FDG' else 'b' if c == '?' else 'u' if c.isupper() else 'i' for c in t)
    return k[0] if attr != 'bincountw' else k[0] + k[-1]
