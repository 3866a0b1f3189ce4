"""convert_to_base"""
import z3
from symex.engine import tobv
from .common import gu, loops_of

MODULES = ['_convert_to_base']
BOUNDS = 'n <= 3 digits for 8 and 16 bit types, n <= 2 for 32 bit, n = 1 and quotient recurrence for 64 bit types; two loop ' \
         'iterations; all k >= 0 and base >= 2'
ASSUME = ['k >= 0', 'base >= 2']


def pre(E, k, base):
    return [k >= 0, base >= 2]


def wide(x, w):
    return x.ext(w) if not isinstance(x.v, int) else x.z()


def spec(E, k, base, out):
    """Every digit is in [0, base), and the digits (least significant first) give k modulo base^n."""
    for i, d in enumerate(out):
        E.claim(f'digit {i} in range', E.And(d >= 0, d < base))
    q = k.z() if E.concrete else k.bv()
    b = base.z() if E.concrete else base.bv()
    for i, d in enumerate(out):
        if E.concrete:
            E.claim(f'digit {i}', d.z() == q % b)
            q = q // b
        else:
            # k >= 0 and base >= 2: signed and unsigned division agree
            E.claim(f'digit {i}', d.bv() == (z3.SRem(q, b) if k.sg else z3.URem(q, b)))
            q = q / b if k.sg else z3.UDiv(q, b)


def tasks(tier):
    out = []
    for t in loops_of('_convert_to_base', 'convert_to_base'):
        ns = {'b': 3, 'B': 3, 'h': 3, 'H': 3}.get(t[0], 2)
        for n in sorted({0, 1, ns}):
            out += gu('convert_to_base', '_convert_to_base', spec, 'fp', [t], [{'n': n}], pre=pre)
        out += gu('convert_to_base', '_convert_to_base', spec, 'fp', [t], [{'n': 2}],
                  layouts=('contig', 'neg', 'axis0'), pre=pre)
    return out
