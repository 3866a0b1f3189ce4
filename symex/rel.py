"""Tasks that relate several symbolic runs of loops on shared symbols."""
import random
import sys
import time
from fractions import Fraction
import z3
from . import registry
from .check import (Result, Stats, mkdom, solve, b2z, conc, conc_value, real_call, render, refine, TOL, LT, Env, F, C, I,
                    wrap, rand_elem, run_loop, TC, bits_to_xr, decode, apply_spec, layout, parse_sig, pre_holds, query,
                    cases, Unsupported, fixed_bits)
from .dom import bor, band, bnot, XR, ZI, isc, RealDom, FPDom


sys.set_int_max_str_digits(0)


def same_bits(tc, a, b, tol=None):
    """Equality of two concrete elements (nan payloads do not count); tol: reals compare with a tolerance."""
    lt, ssz, item, knd = TC[tc]
    if knd == 'c':
        return all(same_bits({'F': 'f', 'D': 'd', 'G': 'g'}[tc], x, y, tol) for x, y in zip(a, b))
    if knd != 'f':
        return a == b
    x, y = decode(a, lt), decode(b, lt)
    if x[0] != y[0]:
        return False
    if x[0] == 'nan':
        return True
    if tol is None:
        return a == b
    u, v = bits_to_xr(a, lt), bits_to_xr(b, lt)
    if not (isc(u.r) and isc(v.r)) or u.pinf or u.ninf or v.pinf or v.ninf:
        return (u.pinf, u.ninf) == (v.pinf, v.ninf)
    return abs(u.r - v.r) <= tol * max(1, abs(u.r), abs(v.r))


class Rel:
    """relation 'batch': a call on `nloops` elements in layout `kind` gives for each of them what a call on that element
    alone (contiguous) gives.
    relation 'types': the loops `types` and `other` give equal results on values both can represent.
    relation 'fresh': the result does not depend on what the output memory held before."""

    def __init__(self, relation, modname, attr, types, dims, kind, nloops=2, mode='opaque', pre=None, values=None,
                 timeout=40, budget=150, max_iter=400, zimode=False, axioms=None, gen=None, free=True, feas_ms=5000, setup=None, tol=None,
                 inplace=None, accumulate=False, other=None):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})
        self.name = attr
        self.vt = types
        self.expmax = self.wide = self.points = False
        self.ty = None
        self.first = 12

    def describe(self):
        k = self.kind if isinstance(self.kind, str) else '/'.join(self.kind)
        t = self.types + (f'~{self.other}' if self.other else '')
        return f'{self.relation} {self.attr}[{t}] {self.dims or ""} {k} loops={self.nloops} {self.mode}'

    def execute(self, dom, kind, nloops, values, tag, init0=None, types=None):
        types = types or self.types

        def setup(ex, st, r):
            ex.zimode = self.zimode
            ex.summarise = self.mode == 'opaque'
            if self.setup:
                self.setup(ex, st, r)

        def init(j, l, k, tc):
            lt = TC[tc][0]
            if TC[tc][3] == 'c':
                return (dom.fresh(f'{tag}{j}_{l}_{k}r', lt), dom.fresh(f'{tag}{j}_{l}_{k}i', lt))
            if TC[tc][3] == 'f':
                return dom.fresh(f'{tag}{j}_{l}_{k}', lt)
            return None if TC[tc][3] == 'b' or self.zimode else z3.BitVec(f'{tag}{j}_{l}_{k}', int(lt[1:]))
        return run_loop(self.modname, self.attr, types, self.dims, kind, nloops, dom=dom, values=values, setup=setup,
                        init_out=init0 or init, max_iter=self.max_iter, timeout_ms=self.feas_ms)

    def run(self, seed):
        res = Result(self)
        S = res.stats
        t0 = time.time()
        dom = mkdom(self.mode)
        ra = self.execute(dom, self.kind, self.nloops, self.values, 'o')
        runs = [ra]
        uf = ra.uf
        E = Env(dom, next((LT[c] for c in self.types if c in LT), 'double'))
        pres = apply_spec(E, lambda *a: None, self.pre, uf, self.types, ra.dims, ra.vals, ra.outs, ra.out0, self.nloops)
        E.claims = []
        if self.relation == 'batch':
            want = []
            for l in range(self.nloops):
                rb = self.execute(dom, 'contig', 1, lambda i, l2, q, tc, l=l: ra.vals[i][l][q], f'p{l}_',
                                  (lambda j, l2, k, tc, l=l: ra.out0[j][l][k]) if self.accumulate else None)
                runs.append(rb)
                want.append([o[0] for o in rb.outs])
            alone = bor(*[band(*c) for r in runs[1:] for c in r.ex.raised])
        elif self.relation == 'types':
            rb = self.execute(dom, self.kind, self.nloops, lambda i, l, q, tc: recast(ra.vals[i][l][q], self.types[i], tc, pres), 'p',
                              (lambda j, l, k, tc: recast(ra.out0[j][l][k], self.types[uf.nin + j], tc, pres)) if self.accumulate else None,
                              types=self.other)
            runs.append(rb)
            want = [[rb.outs[j][l] for j in range(uf.nout)] for l in range(self.nloops)]
            alone = bor(*[band(*c) for c in rb.ex.raised])
            # values whose intermediate and final results fit the narrower type
            for r in runs:
                pres += [bnot(band(*o.conds)) for o in r.ex.obls if o.kind == 'int-overflow']
        else:
            sub = []
            for j, op in enumerate(ra.out0):
                tc = self.types[uf.nin + j]
                for l, row in enumerate(op):
                    for k, x in enumerate(row):
                        for c, y in enumerate(x if isinstance(x, tuple) else (x,)):
                            for part in parts(y):
                                sub.append((part, z3.Const(f'{part}!other', part.sort())))
            want = [[[subst(x, sub) for x in ra.outs[j][l]] for j in range(uf.nout)] for l in range(self.nloops)]
        # an exception makes the outputs meaningless; it is raised by the batch exactly if by one of its elements
        raised = bor(*[band(*c) for c in ra.ex.raised])
        if self.relation != 'fresh':
            E.claim('exceptions', bor(band(raised, alone), band(bnot(raised), bnot(alone))))
        for j in range(uf.nout):
            tc = self.types[uf.nin + j]
            for l in range(self.nloops):
                for q, (a, b) in enumerate(zip(ra.outs[j][l], want[l][j])):
                    wa, wb = wrap(E, tc, a), wrap(E, self.other[uf.nin + j] if self.other else tc, b)
                    if type(wa) is not type(wb) and isinstance(wa, (F, I)) and isinstance(wb, (F, I)):
                        wa, wb = [x if isinstance(x, F) else F(E, XR(z3.ToReal(x.z()) if z3.is_expr(x.z()) else Fraction(x.z()), False, False, False), 'double') for x in (wa, wb)]
                    E.claim(f'output {j} element {q} of call {l}', bor(raised, self.eq(E, wa, wb)))
        S.claims += len(E.claims)
        for r in runs:
            S.queries += r.ex.feas_queries
            S.qtime += r.ex.feas_time
            S.instr += r.ex.ninstr
            S.states += r.ex.nstates
            S.functions |= {f'{self.modname}:{f}' for f in r.ex.encoded}
        extra = self.axioms(E, ra) if self.axioms else []

        def base():
            out = [*dom.axioms, *pres, *extra]
            for r in runs:
                out += [*r.ex.assumptions, *r.pc]
            return out
        v, m0 = solve(base(), S, timeout=5, seed=seed)
        S.vacuity += 1
        if v == z3.unsat:
            res.status, res.detail = 'inconclusive', 'vacuous: no input reaches the end of the loop'
            res.wall = time.time() - t0
            return res
        bads = [(c, bnot(c.cond)) for c in E.claims if c.cond is not True]
        tried = []
        for _ in range(6):
            if not bads:
                break
            q, m = query(self, base(), [bor(*[b2z(b) for _, b in bads])], S, seed)
            if q == z3.unsat:
                break
            if q != z3.sat:
                unk = []
                for c, b in bads:
                    if isinstance(dom, RealDom):
                        ids = {a.get_id() for a in dom.axioms if not isinstance(a, bool)}
                        noax = [x for x in base() if isinstance(x, bool) or x.get_id() not in ids]
                        q, m = cases.case_prove(noax, [a for a in dom.axioms if not isinstance(a, bool)], z3.And(b2z(b)), S,
                                                budget=self.timeout, seed=seed)
                    else:
                        q, m = query(self, base(), [b2z(b)], S, seed)
                    if q == z3.sat:
                        break
                    if q != z3.unsat:
                        unk.append(c.label)
                if q != z3.sat:
                    if unk:
                        res.status, res.detail = 'inconclusive', 'solver gave no answer: ' + '; '.join(unk[:4])
                    break
            try:
                ins = [[[conc(dom, m, x, self.types[i]) for x in row] for row in ra.vals[i]] for i in range(uf.nin)]
                S.replays += 1
                w = self.compare(ins)
            except Unsupported as e:
                w, ins = None, str(e)
            if w:
                res.status, res.detail, res.witness = 'violation', w['what'], w
                break
            if not refine(self, dom, m, ra, E, S, tried):
                res.status = 'inconclusive'
                res.detail = f'counterexample does not reproduce: {ins if isinstance(ins, str) else render(self.types, ins)}'
                break
        else:
            res.status, res.detail = 'inconclusive', 'refinement did not converge'
        if res.status == 'inconclusive':
            self.hunt(res, seed, ra)
        elif res.status == 'ok':
            # the relation holds on the built module for a model of the assumptions
            try:
                ins = [[[conc(dom, m0, x, self.types[i]) for x in row] for row in ra.vals[i]] for i in range(uf.nin)]
                w = self.compare(ins)
                if w:
                    res.status, res.detail, res.witness = 'violation', w['what'], w
                else:
                    S.traces += 1
                    S.samples.append({'task': self.describe(), 'trace': render(self.types, ins), 'encoding_agrees': True})
            except (Unsupported, AttributeError):
                pass
        res.wall = time.time() - t0
        return res

    @staticmethod
    def eq(E, a, b):
        if isinstance(a, C):
            return band(E.bitsame(a.re, b.re), E.bitsame(a.im, b.im))
        if isinstance(a, F):
            if not E.real and a.v.eq(b.v):
                return True
            return E.bitsame(a, b)
        return a == b

    def compare(self, ins):
        """The relation on the real code; None or a witness of its failure."""
        uf = registry.get(self.modname).ufuncs[self.attr]
        nin = uf.nin
        cores, sym = parse_sig(uf.sig, uf.nin, uf.nout)
        dims = {d: (int(d) if d.isdigit() else self.dims[d]) for d in sym}
        ops = [layout(self.types[nin + j], [dims[d] for d in cores[nin + j]], 1, 'contig', True) for j in range(uf.nout)]
        tol = None
        if self.mode in ('real', 'realx'):
            tol = self.tol or TOL[next((LT[c] for c in self.types if c in LT), 'double')]

        def out0(n, b):
            def e(tc):
                lt, ssz, item, knd = TC[tc]
                v = 0 if knd == 'b' else int.from_bytes(bytes([b]) * ssz, 'little')
                if knd in 'fc' and b:
                    v = fixed_bits(XR(Fraction(b)), 'fdg'['fdg'.index(tc)] if knd == 'f' else {'F': 'f', 'D': 'd', 'G': 'g'}[tc])
                return (v, v) if knd == 'c' else v
            return [[[e(self.types[nin + j]) for _ in ops[j].offsets(0)] for _ in range(n)] for j in range(uf.nout)]
        base = {'task': self.describe(), 'module': self.modname, 'ufunc': self.attr, 'types': self.types, 'dims': self.dims,
                'layout': self.kind, 'inputs': render(self.types, ins), 'input_bits': ins}

        def failed(info, what):
            if 'crash' in info:
                return {**base, 'what': f'{self.attr}: the call dies with {info["crash"]} on {base["inputs"]} ({what})'}
            return None
        if self.relation == 'fresh':
            got = []
            for b in (0, 0x55):
                outs, info = real_call(self.modname, self.attr, self.types, self.dims, self.kind, self.nloops, ins,
                                       out0(self.nloops, b), mode='direct')
                if outs is None:
                    return failed(info, 'direct')
                got.append(outs)
            for j in range(uf.nout):
                for l in range(self.nloops):
                    for q, (x, y) in enumerate(zip(got[0][j][l], got[1][j][l])):
                        if not same_bits(self.types[nin + j], x, y):
                            return {**base, 'outputs': [render(self.types[nin:], g) for g in got],
                                    'what': f'{self.attr}: output {j} element {q} of call {l} is what the memory held before, on '
                                            f'{base["inputs"]} ({self.types}, {self.kind})'}
            return None
        if self.relation == 'types':
            got = []
            for t in (self.types, self.other):
                v = [[[recast_bits(x, self.types[i], t[i]) for x in row] for row in op] for i, op in enumerate(ins)]
                z = [[[zero_bits(t[nin + j]) for _ in ops[j].offsets(0)] for _ in range(self.nloops)] for j in range(uf.nout)]
                outs, info = real_call(self.modname, self.attr, t, self.dims, self.kind, self.nloops, v, z, mode='direct')
                if outs is None:
                    return failed(info, t)
                got.append(outs)
            for j in range(uf.nout):
                ta, tb = self.types[nin + j], self.other[nin + j]
                for l in range(self.nloops):
                    for q, (x, y) in enumerate(zip(got[0][j][l], got[1][j][l])):
                        if not near(value(x, ta), value(y, tb), tol or Fraction(1, 2 ** 10)):
                            return {**base, 'outputs': render(self.types[nin:], got[0]), 'other': render(self.other[nin:], got[1]),
                                    'what': f'{self.attr}: the loops {self.types} and {self.other} disagree on '
                                            f'{base["inputs"]}: {render(self.types[nin:], got[0])} vs {render(self.other[nin:], got[1])}'}
            return None
        for mode in ('public', 'direct'):
            outs, info = real_call(self.modname, self.attr, self.types, self.dims, self.kind, self.nloops, ins,
                                   out0(self.nloops, 0), mode=mode)
            if outs is None:
                w = failed(info, mode)
                if w:
                    return w
                continue
            for l in range(self.nloops):
                one, info = real_call(self.modname, self.attr, self.types, self.dims, 'contig', 1,
                                      [[op[l]] for op in ins], out0(1, 0), mode=mode)
                if one is None:
                    w = failed(info, mode)
                    if w:
                        return w
                    continue
                for j in range(uf.nout):
                    for q, (x, y) in enumerate(zip(outs[j][l], one[j][0])):
                        if not same_bits(self.types[nin + j], x, y, tol):
                            return {**base, 'outputs': render(self.types[nin:], outs), 'alone': render(self.types[nin:], one),
                                    'what': f'{self.attr}: element {q} of output {j} differs between the call on the batch '
                                            f'({self.kind}) and the call on element {l} alone: inputs {base["inputs"]}: '
                                            f'{render(self.types[nin:], outs)} vs {render(self.types[nin:], one)}'}
        return None

    def hunt(self, res, seed, ra=None, n=25):
        """Concrete search after an undecided query; finding nothing decides nothing."""
        if self.relation == 'types':
            return
        rng = random.Random(f'hunt/{seed}/{self.describe()}')
        uf = registry.get(self.modname).ufuncs[self.attr]
        cores, sym = parse_sig(uf.sig, uf.nin, uf.nout)
        dims = {d: (int(d) if d.isdigit() else self.dims[d]) for d in sym}
        ops = [layout(self.types[i], [dims[d] for d in cores[i]], self.nloops,
                      self.kind[i] if isinstance(self.kind, (list, tuple)) else self.kind, False, i) for i in range(uf.nin)]
        end = time.time() + 30
        for _ in range(n):
            if time.time() > end:
                return
            if self.gen:
                ins = self.gen(rng, self)
            else:
                ins = [[[rand_elem(rng, self.types[i], self.mode != 'real') for _ in ops[i].offsets(l)] for l in range(self.nloops)]
                       for i in range(uf.nin)]
            for i in range(uf.nin):
                by = {}
                for l in range(self.nloops):
                    for q, off in enumerate(ops[i].offsets(l)):
                        if self.values:
                            v = fixed_bits(self.values(i, l, q, self.types[i]), self.types[i])
                            if v is not None:
                                ins[i][l][q] = v
                        ins[i][l][q] = by.setdefault(off, ins[i][l][q])
            try:
                if self.pre and not pre_holds(self, uf, ins):
                    continue
                w = self.compare(ins)
            except (Unsupported, AssertionError):
                continue
            if w:
                w['found_by'] = 'concrete search after an undecided query'
                res.status, res.detail, res.witness = 'violation', w['what'], w
                return


def parts(y):
    if isinstance(y, XR):
        return [p for p in (y.r, y.nan, y.pinf, y.ninf) if z3.is_expr(p)]
    return [y] if z3.is_expr(y) else []


def subst(x, sub):
    if isinstance(x, tuple):
        return tuple(subst(y, sub) for y in x)
    if isinstance(x, XR):
        f = [z3.substitute(p, *sub) if z3.is_expr(p) else p for p in (x.r, x.nan, x.pinf, x.ninf)]
        return XR(*f)
    if z3.is_expr(x) and sub:
        return z3.substitute(x, *sub)
    return x


def signed(x, tc):
    w = 8 * TC[tc][1]
    return x - (1 << w) if tc.islower() and x >> (w - 1) else x


def recast(v, tc, t2, pres):
    """The same value as an operand of another type."""
    k, k2 = TC[tc][3], TC[t2][3]
    if k in 'fc' and k2 == k:
        return v
    if k == 'b':
        if k2 == 'b':
            return v
        b = v.arg(0) if z3.is_app_of(v, z3.Z3_OP_ITE) else v == 1
        e = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    elif isinstance(v, (int, ZI)):
        e = v if isinstance(v, int) else v.e
    else:
        raise Unsupported(f'value of type {tc} as {t2}')
    if not isinstance(e, int) and tc != t2:
        w = 8 * TC[t2][1] - t2.islower() if k2 != 'f' else 24
        pres += [e < (1 << w), e >= (-(1 << w) if t2.islower() else 0)]
    if k2 == 'f':
        return XR(Fraction(e) if isinstance(e, int) else z3.ToReal(e), False, False, False)
    if k2 == 'b':
        raise Unsupported('number as bool')
    return ZI(e, 8 * TC[t2][1], t2.islower())


def value(x, tc):
    """Concrete element as XR / pair / int."""
    lt, ssz, item, knd = TC[tc]
    if knd == 'c':
        return tuple(bits_to_xr(y, lt) for y in x)
    if knd == 'f':
        return bits_to_xr(x, lt)
    return XR(Fraction(x if knd == 'b' else signed(x, tc)), False, False, False)


def near(a, b, tol):
    if isinstance(a, tuple):
        return all(near(x, y, tol) for x, y in zip(a, b))
    if (a.nan, a.pinf, a.ninf) != (b.nan, b.pinf, b.ninf):
        return False
    return a.nan or a.pinf or a.ninf or abs(a.r - b.r) <= tol * max(1, abs(a.r), abs(b.r))


def zero_bits(tc):
    return (0, 0) if TC[tc][3] == 'c' else 0


def recast_bits(x, tc, t2):
    lt, ssz, item, knd = TC[t2]
    if tc == t2:
        return x
    v = value(x, tc)
    if knd == 'c':
        return tuple(fixed_bits(y, {'F': 'f', 'D': 'd', 'G': 'g'}[t2]) for y in v)
    if knd == 'f':
        return fixed_bits(v, t2)
    return int(v.r) & ((1 << (8 * ssz)) - 1)
