"""bincount, bincountw, one_hot"""
from .common import gu, loops_of
from symex.dom import ZI  # noqa: F401

MODULES = ['_bincount', '_one_hot']
BOUNDS = 'n <= 3, m <= 3 (and n = 1 with 130 / 259 bins for 8-bit indices), two loop iterations, contiguous / strided / negative / transposed layouts; every loop; all index ' \
         'values (negative and out of range ones included); counts and integer weights modulo 2^w, float weights over reals'
ASSUME = ['float weights: finite']


def count(E, x, out):
    o0 = E.out0[0]
    for j in range(len(out)):
        want = o0[j]
        for v in x:
            want = E.ite(v == j, want + 1, want)
        E.claim(f'count of {j} is added to the output', out[j] == want)


def count_many(E, x, out):
    """More bins than a narrow index type can count: the first, the last and those around the ends of the type."""
    o0, m = E.out0[0], len(out)
    for j in sorted({j for j in (0, 1, 5, 126, 127, 128, m - 2, m - 1) if j < m}):
        want = o0[j]
        for v in x:
            want = E.ite(v == j, want + 1, want)
        E.claim(f'count of {j} of {m} is added to the output', out[j] == want)


def icountw(E, x, w, out):
    o0 = E.out0[0]
    for j in range(len(out)):
        want = o0[j]
        for v, a in zip(x, w):
            want = E.ite(v == j, want + a, want)
        E.claim(f'weights of {j} are added to the output', out[j] == want)


def fcountw(E, x, w, out):
    o0 = E.out0[0]
    for j in range(len(out)):
        for part in (('re', 'im') if hasattr(out[j], 're') else (None,)):
            g = (lambda c: getattr(c, part)) if part else (lambda c: c)
            want = g(o0[j])
            sc = abs(want) + 1
            for v, a in zip(x, w):
                want = E.ite(v == j, want + g(a), want)
                sc = sc + abs(g(a))
            E.claim_eq(f'weights of {j} are added to the output {part or ""}', g(out[j]), want, scale=sc)


def one_hot(E, k, out):
    for j, y in enumerate(out):
        E.claim(f'one at k, zero elsewhere ({j})', E.ite(k == j, y == 1, y == 0))


def tasks(tier):
    out = []
    big = [{'n': 3, 'm': 3}] if tier == 'quick' else [{'n': 4, 'm': 4}]
    for t in loops_of('_bincount', 'bincount'):
        out += gu('bincount', '_bincount', count, 'fp', [t], big + [{'n': 0, 'm': 2}, {'n': 2, 'm': 0}])
        out += gu('bincount', '_bincount', count, 'fp', [t], [{'n': 2, 'm': 2}], layouts=('contig', 'neg', 'axis0'))
        out += gu('bincount', '_bincount', count, 'fp', [t], [{'n': 2, 'm': 2}], layouts=(('contig', 'strided'),
                                                                                         ('strided', 'contig')))
        if t[0] in 'bB':
            for lay in ((('contig', 'contig'), ('contig', 'strided'), ('strided', 'strided')) if tier == 'quick' else
                        (('contig', 'contig'), ('contig', 'strided'), ('strided', 'contig'), ('strided', 'strided'), ('neg', 'neg'))):
                out += gu('bincount', '_bincount', count_many, 'fp', [t], [{'n': 1, 'm': 130 if t[0] == 'b' else 259}],
                          layouts=(lay,), nloops=1)
    for t in loops_of('_bincount', 'bincountw'):
        fl = t[1] in 'fdFD'
        d = [{'n': 2, 'm': 2}]
        out += gu('bincountw', '_bincount', fcountw if fl else icountw, 'real' if fl else 'fp', [t], d)
        if t[0] in 'bL' or tier != 'quick':
            out += gu('bincountw', '_bincount', fcountw if fl else icountw, 'real' if fl else 'fp', [t],
                      [{'n': 2, 'm': 2}], layouts=('contig', 'neg', 'axis0'), nloops=1)
    out += gu('one_hot', '_one_hot', one_hot, 'fp', ['ll'], [{'n': n} for n in (0, 1, 4)],
              layouts=('contig', 'strided', 'neg', 'axis0'))
    return out
