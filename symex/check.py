"""Deciding a property: symbolic run, solver queries, replay, evidence."""
import copy
import json
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction
import z3
from . import build, real, cases
from .dom import (FPDom, RealDom, XR, Unsupported, bnot, band, bor, b2z, FBITS, decode, ZI, rz, isc)
from .num import (NumDom, frac_to_bits, special_bits, bits_to_xr, show, mpcall)
from .harness import run_loop, parse_sig, TC, layout
from . import registry
from .engine import BoundExceeded, mask, tobv
from .spec import Env, F, I, C, LT, TOL

VERIF = build.VERIF


class Ctx:
    """What a specification sees beside inputs and outputs."""


def mkdom(mode):
    if mode == 'fp':
        return FPDom()
    if mode == 'opaque':
        return FPDom(opaque=True)
    if mode == 'real':
        return RealDom(finite_inputs=True)
    if mode == 'realx':
        return RealDom(finite_inputs=False)
    raise ValueError(mode)


class Stats:
    def __init__(self):
        self.queries = 0
        self.qtime = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.states = 0
        self.instr = 0
        self.traces = 0
        self.replays = 0
        self.functions = set()
        self.claims = 0
        self.obligations = 0
        self.samples = []
        self.vacuity = 0

    def add(self, o):
        for k in ('queries', 'qtime', 'unsat', 'sat', 'unknown', 'states', 'instr', 'traces', 'replays',
                  'claims', 'obligations', 'vacuity'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.functions |= o.functions
        self.samples += o.samples


def solve(conds, stats, timeout=60, seed=1, tactic=None):
    """check-sat of the conjunction -> (z3 result, model)."""
    cs = []
    for c in conds:
        if c is True:
            continue
        if c is False:
            stats.queries += 1
            stats.unsat += 1
            return z3.unsat, None
        cs.append(c)
    s = z3.Solver() if tactic is None else tactic.solver()
    s.set('timeout', int(timeout * 1000))
    try:
        s.set('random_seed', seed)
    except z3.Z3Exception:
        pass
    s.add(*cs)
    t = time.time()
    r = s.check()
    stats.qtime += time.time() - t
    stats.queries += 1
    if r == z3.unsat:
        stats.unsat += 1
    elif r == z3.sat:
        stats.sat += 1
    else:
        stats.unknown += 1
    return r, (s.model() if r == z3.sat else None)


# ------------------------------------------------------------------ concrete images
def model_frac(m, r):
    if isc(r):
        return Fraction(r)
    v = m.eval(r, model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f'model value {v}')


def model_bool(m, b):
    if isinstance(b, bool):
        return b
    return z3.is_true(m.eval(b, model_completion=True))


def fp_bits(v, lt):
    """Bits of a concrete z3 FP value."""
    if v.isNaN():
        return special_bits('nan', lt)
    if v.isInf():
        return special_bits('-inf' if v.isNegative() else 'inf', lt)
    b = z3.simplify(z3.fpToIEEEBV(v))
    x = b.as_long()
    if lt == 'x86_fp80':
        s = x >> 78 & 1
        e = x >> 63 & 0x7fff
        mm = x & ((1 << 63) - 1)
        j = 1 if e else 0
        return s << 79 | e << 64 | j << 63 | mm
    return x


def conc(dom, m, v, tc):
    """Concrete bit pattern (int, or pair for complex) of symbolic element v."""
    lt, ssz, item, knd = TC[tc]
    if knd == 'c':
        return tuple(conc1(dom, m, x, lt) for x in v)
    if knd == 'f':
        return conc1(dom, m, v, lt)
    if isinstance(v, int):
        return v
    if isinstance(v, ZI):
        x = v.e if isinstance(v.e, int) else m.eval(v.e, model_completion=True).as_long()
        return x & mask(v.w)
    return m.eval(v, model_completion=True).as_long()


def conc1(dom, m, v, lt):
    if isinstance(dom, RealDom):
        if model_bool(m, v.nan):
            return special_bits('nan', lt)
        if model_bool(m, v.pinf):
            return special_bits('inf', lt)
        if model_bool(m, v.ninf):
            return special_bits('-inf', lt)
        f = model_frac(m, v.r)
        lim = getattr(dom, 'limit', None)
        if lim and f and not 1 / lim <= abs(f) <= lim:
            raise Unsupported(f'model value {float(f):.3g} outside the range of replays')
        return frac_to_bits(f, lt)
    if z3.is_fp_value(v):
        return fp_bits(v, lt)
    if lt != 'x86_fp80':
        b = dom.to_bits(v, lt)
        if not isinstance(b, int):
            b = m.eval(b, model_completion=True)
            if z3.is_bv_value(b):
                return b.as_long()
        else:
            return b
    return fp_bits(m.eval(v, model_completion=True), lt)


def elem_bytes(tc, x):
    lt, ssz, item, knd = TC[tc]
    if knd == 'c':
        return b''.join(v.to_bytes(ssz, 'little') + bytes(item // 2 - ssz) for v in x)
    return x.to_bytes(ssz, 'little') + bytes(item - ssz)


def elem_from(tc, b):
    lt, ssz, item, knd = TC[tc]
    if knd == 'c':
        h = item // 2
        return tuple(int.from_bytes(b[k:k + ssz], 'little') for k in (0, h))
    return int.from_bytes(b[:ssz], 'little')


def image(op, rows):
    buf = bytearray(b'\xcc' * op.size)
    for l, row in enumerate(rows):
        for off, x in zip(op.offsets(l), row):
            e = elem_bytes(op.tc, x)
            buf[off:off + len(e)] = e
    return bytes(buf)


def real_call(modname, attr, types, dims, kind, nloops, ins, out0, mode='direct', inplace=None, guard=0xA5,
              timeout=20, vt=None, page=None):
    """Call the built ufunc on concrete elements.  ins/out0: per operand, per loop, rows of bit
    patterns.  Returns (outs, info)."""
    uf = registry.get(modname).ufuncs[attr]
    cores, sym = parse_sig(uf.sig, uf.nin, uf.nout)
    dv = {d: (int(d) if d.isdigit() else dims[d]) for d in sym}
    ops = []
    objs = []
    for i in range(uf.nin + uf.nout):
        is_out = i >= uf.nin
        op = layout((vt or types)[i], [dv[d] for d in cores[i]], nloops,
                    kind[i] if isinstance(kind, (list, tuple)) else kind, is_out, i)
        alias = inplace.get(i - uf.nin) if (inplace and is_out) else None
        if alias is not None:
            op = ops[alias]
            objs.append({**objs[alias], 'alias': alias, 'is_out': True})
            ops.append(op)
            continue
        rows = out0[i - uf.nin] if is_out else ins[i]
        ops.append(op)
        objs.append({'size': op.size, 'base': op.base, 'outer': op.outer, 'core': list(op.core),
                     'shape': list(op.shape), 'is_out': is_out, 'image': image(op, rows).hex()})
    steps = [op.outer for op in ops]
    for op in ops:
        steps += list(op.core)
    res = real.request({'mode': mode, 'module': modname, 'attr': attr, 'types': types, 'nloops': nloops,
                        'ops': objs, 'dimlist': [nloops] + [dv[d] for d in sym], 'steps': steps,
                        'guard': guard, 'timeout': timeout, 'page': page})
    if 'images' not in res or page:
        return None, res
    outs = []
    for j in range(uf.nout):
        i = uf.nin + j
        b = bytes.fromhex(res['images'][i])
        op = ops[i]
        item = TC[op.tc][2]
        outs.append([[elem_from(op.tc, b[o:o + item]) for o in op.offsets(l)] for l in range(nloops)])
    return outs, res


# ------------------------------------------------------------------ wrapping for specs
def wrap(E, tc, v):
    lt, ssz, item, knd = TC[tc]
    if knd == 'c':
        return C(F(E, v[0], lt), F(E, v[1], lt))
    if knd == 'f':
        return F(E, v, lt)
    if knd == 'o':
        return v
    return I(E, v, 8 * ssz, knd == 'i')


def conc_value(dom, tc, x):
    lt, ssz, item, knd = TC[tc]

    def one(b):
        if isinstance(dom, RealDom):
            return bits_to_xr(b, lt)
        return dom.from_bits(b, lt)
    if knd == 'c':
        return tuple(one(b) for b in x)
    if knd == 'f':
        return one(x)
    return x


def shaped(core, rows, E, tc):
    w = [wrap(E, tc, v) for v in rows]
    return w[0] if core == () else w


def apply_spec(E, spec, pre, uf, types, dims, ins, outs, out0, nloops):
    """Evaluate pre and spec for each loop; returns the list of preconditions."""
    cores, sym = parse_sig(uf.sig, uf.nin, uf.nout)
    pres = []
    E.dims = dims
    for l in range(nloops):
        a = [shaped(cores[i], ins[i][l], E, types[i]) for i in range(uf.nin)]
        b = [shaped(cores[uf.nin + j], outs[j][l], E, types[uf.nin + j]) for j in range(uf.nout)]
        E.out0 = [shaped(cores[uf.nin + j], out0[j][l], E, types[uf.nin + j]) for j in range(uf.nout)]
        E.types = types
        E.loop = l
        if pre is not None:
            p = pre(E, *a)
            pres += list(p) if isinstance(p, (list, tuple)) else [p]
        n = len(E.claims)
        spec(E, *a, *b)
        for c in E.claims[n:]:
            c.label = f'{c.label}[loop {l}]' if nloops > 1 else c.label
    return pres


class Task:
    """One symbolic run with its claims."""

    def __init__(self, name, modname, attr, types, dims, spec, mode='fp', kind='contig', nloops=1, pre=None,
                 ty=None, values=None, timeout=60, budget=240, obligations=True, inplace=None, concord=2,
                 gen=None, init_out=None, known=None, real_replay='auto', setup=None, tol=None, max_iter=400,
                 zimode=False, axioms=None, fallback=None, feas_ms=5000, points=False, vtypes=None, wide=False, first=12, free=False, expmax=False):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})
        self.vt = vtypes or types

    def describe(self):
        k = self.kind if isinstance(self.kind, str) else '/'.join(self.kind)
        return f'{self.name if self.name.startswith(self.attr + chr(32)) else self.attr}[{self.types}] {self.dims or ""} {k} loops={self.nloops} {self.mode}'


class Result:
    def __init__(self, task):
        self.name = task.name
        self.desc = task.describe() if hasattr(task, 'describe') else task.name
        self.status = 'ok'
        self.detail = ''
        self.stats = Stats()
        self.witness = None
        self.wall = 0.0


def setup_exec(task):
    def f(ex, st, r):
        ex.zimode = task.zimode
        if task.setup:
            task.setup(ex, st, r)
    return f


def run_task(task, seed=1):
    res = Result(task)
    S = res.stats
    t0 = time.time()
    dom = mkdom(task.mode)
    if task.mode in ('real', 'realx') and not task.wide:
        # claims over the reals say nothing about overflow, underflow and rounding
        dom.limit = Fraction(2) ** (16 if any(LT.get(c) == 'float' for c in task.vt) else 40)
    if task.expmax:
        dom.expmax = {'float': 89, 'double': 710, 'x86_fp80': 11357, 'half': 12}
    r = run_loop(task.modname, task.attr, task.types, task.dims, task.kind, task.nloops, dom=dom, vtypes=task.vt,
                 values=task.values, init_out=task.init_out, inplace=task.inplace, setup=setup_exec(task),
                 max_iter=task.max_iter, timeout_ms=task.feas_ms, seed=seed)
    ex = r.ex
    S.queries += ex.feas_queries
    S.qtime += ex.feas_time
    S.instr += ex.ninstr
    S.states += ex.nstates
    S.functions |= {f'{task.modname}:{f}' for f in ex.encoded}
    ty = task.ty or next((LT[c] for c in task.vt if c in LT), 'double')
    E = Env(dom, ty)
    pres = apply_spec(E, task.spec, task.pre, r.uf, task.vt, r.dims, r.vals, r.outs, r.out0, task.nloops)
    extra = task.axioms(E, r) if task.axioms else []
    if task.points:
        extra = extra + point_constraints(r)
    S.claims += len(E.claims)

    def base():
        return [*ex.assumptions, *dom.axioms, *pres, *extra]
    bads = []
    for c in E.claims:
        g = E.good(c)
        if g is True:
            continue
        bads.append((c, bnot(g)))
    obls = []
    if task.obligations:
        for o in ex.obls:
            k = band(*o.conds)
            if k is not False:
                obls.append((o, k))
        S.obligations += len(ex.obls)
    # vacuity: the assumptions are satisfiable and the end of the loop is reached
    v, m0 = solve(base() + r.pc, S, timeout=3 if task.mode in ('real', 'realx') or not bads else 20, seed=seed)
    S.vacuity += 1
    if v == z3.unsat:
        if not obls:
            res.status = 'inconclusive'
            res.detail = 'vacuous: no input reaches the end of the loop'
            res.wall = time.time() - t0
            return res
    tried = []
    for rounds in range(6 if task.mode == 'opaque' else 12):
        goal = [band(b2z(b)) for _, b in bads]
        items = []
        if goal:
            items.append(band(*r.pc, bor(*goal)))
        items += [k for _, k in obls]
        if not items:
            break
        q, m = query(task, base(), [bor(*items)], S, seed, task.mode in ('real', 'realx'))
        if q == z3.unsat:
            break
        if q != z3.sat:
            # try the claims one by one before giving up
            q2 = one_by_one(task, base(), r, bads, obls, S, seed, dom.axioms)
            if q2 is None:
                break
            if isinstance(q2, str):
                res.status = 'inconclusive'
                res.detail = q2
                break
            m = q2
        # replay
        w = witnesses(task, E, r, dom, base(), bads, obls, m, S, seed, res)
        if w is not None:
            res.status = 'violation'
            res.detail = w['what']
            res.witness = w
            break
        if not refine(task, dom, m, r, E, S, tried):
            res.status = 'inconclusive'
            res.detail = 'counterexample does not reproduce: ' + res.detail
            break
    else:
        res.status = 'inconclusive'
        res.detail = 'refinement did not converge'
    if res.status == 'inconclusive' and task.mode == 'opaque':
        return exact_fallback(task, res, seed, t0)
    if res.status == 'inconclusive':
        hunt(task, res, seed)
    if res.status == 'ok' and task.concord:
        concordance(task, r, E, S, seed, res)
    if res.status == 'ok' and m0 is not None and len(S.samples) < 1:
        try:
            ins = [[[conc(dom, m0, x, task.vt[i]) for x in row] for row in r.vals[i]]
                   for i in range(r.uf.nin)]
            S.samples.append({'task': task.describe(), 'witness_of_assumptions': render(task.vt, ins)})
        except (Unsupported, AttributeError):
            pass
    res.wall = time.time() - t0
    return res


def fixed_bits(v, tc):
    """Bit pattern of a fixed element of a task, None if it is not fixed."""
    lt, ssz, item, knd = TC[tc]
    if isinstance(v, int):
        return v & mask(8 * ssz)
    if isinstance(v, XR) and isc(v.r):
        for k, x in (('nan', v.nan), ('inf', v.pinf), ('-inf', v.ninf)):
            if x is True:
                return special_bits(k, lt)
        return frac_to_bits(Fraction(v.r), lt)
    if z3.is_fp_value(v):
        return fp_bits(v, lt)
    return None


def hunt(task, res, seed, n=80):
    """The solver gave no answer.  Look for a concrete counterexample on the real code; finding none
    decides nothing."""
    from .registry import get
    rng = random.Random(f'hunt/{seed}/{task.describe()}')
    uf = get(task.modname).ufuncs[task.attr]
    cores, sym = parse_sig(uf.sig, uf.nin, uf.nout)
    dims = {d: (int(d) if d.isdigit() else task.dims[d]) for d in sym}
    ops = [layout(task.vt[i], [dims[d] for d in cores[i]], task.nloops,
                  task.kind[i] if isinstance(task.kind, (list, tuple)) else task.kind, i >= uf.nin, i)
           for i in range(uf.nin + uf.nout)]
    if 'O' in task.vt or (task.values and not task.free):
        return
    t2 = copy.copy(task)
    if task.mode in ('real', 'realx'):
        ty = task.ty or next((LT[c] for c in task.vt if c in LT), 'double')
        t2.tol = max((task.tol or TOL[ty]) * 64, Fraction(1, 2 ** 20))
    end = time.time() + 60
    for _ in range(n):
        if time.time() > end:
            return
        if task.gen:
            ins = task.gen(rng, task)
        else:
            ins = [[[rand_elem(rng, task.vt[i], task.mode in ('fp', 'opaque', 'realx'))
                     for _ in ops[i].offsets(l)] for l in range(task.nloops)] for i in range(uf.nin)]
        if task.values:
            for i in range(uf.nin):
                for l in range(task.nloops):
                    for q in range(len(ins[i][l])):
                        v = fixed_bits(task.values(i, l, q, task.vt[i]), task.vt[i])
                        if v is not None:
                            ins[i][l][q] = v
        for i in range(uf.nin):
            by = {}
            for l in range(task.nloops):
                for q, off in enumerate(ops[i].offsets(l)):
                    ins[i][l][q] = by.setdefault(off, ins[i][l][q])
        try:
            if task.pre and not pre_holds(task, uf, ins):
                continue
            out0 = [[[0 if TC[task.vt[uf.nin + j]][3] != 'c' else (0, 0) for _ in ops[uf.nin + j].offsets(l)]
                     for l in range(task.nloops)] for j in range(uf.nout)]
            outs, info = real_call(task.modname, task.attr, task.types, task.dims, task.kind, task.nloops, ins,
                                   out0, mode='public' if not task.inplace else 'direct', inplace=task.inplace, vt=task.vt)
            w = {'task': task.describe(), 'inputs': render(task.vt, ins), 'input_bits': ins,
                 'call': 'public', 'found_by': 'concrete search after an undecided query'}
            if outs is None:
                if 'crash' in info:
                    w['what'] = f'{task.attr}: the call dies with {info["crash"]} on {w["inputs"]}'
                    res.status, res.detail, res.witness = 'violation', w['what'], w
                    return
                continue
            failed = decide_concrete(t2, ins, outs, out0)
        except (Unsupported, AssertionError):
            continue
        if failed:
            w['outputs'] = render(task.vt[uf.nin:], outs)
            w['failed'] = [x.label for x in failed]
            w['what'] = f'{task.attr}: "{failed[0].label}" fails on {w["inputs"]}: outputs {w["outputs"]}'
            res.status, res.detail, res.witness = 'violation', w['what'], w
            return


POINTS = [0, 1, -1, 2, -3, Fraction(1, 2), 'inf', '-inf', 'huge']


def exact_fallback(task, res, seed, t0):
    """The opaque encoding was too weak: use exact arithmetic.  First a search among special
    values, then the full query."""
    t2 = copy.copy(task)
    t2.mode = 'fp'
    t2.concord = 0
    t2.timeout = 150
    for points in (True, False):
        t2.points = points
        r2 = run_task(t2, seed)
        r2.stats.add(res.stats)
        if r2.status == 'violation' or (r2.status == 'ok' and not points):
            r2.wall = time.time() - t0
            return r2
    r2.detail = res.detail + '; exact: ' + r2.detail
    if r2.status == 'inconclusive':
        hunt(task, r2, seed)
    r2.wall = time.time() - t0
    return r2


def point_constraints(r):
    out = []
    for i in range(r.uf.nin):
        lt, ssz, item, knd = TC[r.types[i]]
        if knd != 'f':
            continue
        s = {'half': z3.FPSort(5, 11), 'float': z3.Float32(), 'double': z3.Float64(),
             'x86_fp80': z3.FPSort(15, 64)}[lt]
        for row in r.vals[i]:
            for x in row:
                if z3.is_fp_value(x):
                    continue
                alts = []
                for p in POINTS:
                    if p == 'inf':
                        v = z3.fpPlusInfinity(s)
                    elif p == '-inf':
                        v = z3.fpMinusInfinity(s)
                    elif p == 'huge':
                        v = FPDom().from_bits(frac_to_bits(Fraction(2) ** {'half': 15, 'float': 127, 'double': 1023,
                                              'x86_fp80': 16383}[lt], lt), lt)
                    else:
                        v = FPDom().from_bits(frac_to_bits(Fraction(p), lt), lt)
                    alts.append(x == v)
                out.append(z3.Or(*alts))
    return out


def query(task, base, goal, S, seed, short=False):
    if getattr(task, 'pure', False):        # exact arithmetic only: one call of the bit-blaster
        return solve(base + goal, S, timeout=task.timeout, seed=seed, tactic=z3.Tactic('qffp'))
    if short:
        return solve(base + goal, S, timeout=task.first, seed=seed)
    q, m = solve(base + goal, S, timeout=task.timeout if task.mode in ('fp', 'opaque') else min(task.timeout, 20),
                 seed=seed)
    if q == z3.unknown and task.mode in ('real', 'realx'):
        for tac in ('qfnra-nlsat', 'smt2'):
            try:
                if tac == 'qfnra-nlsat':
                    t = z3.Then('simplify', 'purify-arith', 'solve-eqs', 'ackermannize_bv', 'qfufnra') \
                        if False else z3.Tactic('qfufnra')
                else:
                    t = z3.Then('simplify', 'solve-eqs', 'smt')
                q, m = solve(base + goal, S, timeout=task.timeout, seed=seed, tactic=t)
            except z3.Z3Exception:
                continue
            if q != z3.unknown:
                break
    return q, m


def one_by_one(task, base, r, bads, obls, S, seed, axioms=()):
    """None: all unsat.  model: sat.  str: unknown."""
    unk = []
    ids = {a.get_id() for a in axioms if not isinstance(a, bool)}
    noax = [b for b in base if isinstance(b, bool) or b.get_id() not in ids]
    for c, b in bads:
        if task.mode in ('real', 'realx'):
            q, m = cases.case_prove(noax + [x for x in r.pc], [a for a in axioms if not isinstance(a, bool)], z3.And(b2z(b)),
                                    S, budget=task.timeout, seed=seed)
            if q == z3.sat:
                return m
            if q == z3.unsat:
                continue
        q, m = query(task, base, [*r.pc, b2z(b)], S, seed)
        if q == z3.sat:
            return m
        if q != z3.unsat:
            unk.append(c.label)
    for o, k in obls:
        q, m = query(task, base, [k], S, seed)
        if q == z3.sat:
            return m
        if q != z3.unsat:
            unk.append(o.info)
    if unk:
        return 'solver gave no answer: ' + '; '.join(unk[:4])
    return None


def render(types, rows):
    out = []
    for tc, op in zip(types, rows):
        lt, ssz, item, knd = TC[tc]

        def one(x):
            if knd == 'f':
                return show(x, lt)
            if knd == 'c':
                return [show(y, lt) for y in x]
            return x - (1 << 8 * ssz) if knd == 'i' and x >> (8 * ssz - 1) else x
        out.append([[one(x) for x in row] for row in op])
    return out


def witnesses(task, E, r, dom, base, bads, obls, m, S, seed, res):
    """Look for a model whose replay on the real code shows the violation."""
    cands = []
    if isinstance(dom, RealDom) and bads:
        # prefer round inputs and a large discrepancy
        reals = []
        for i in range(r.uf.nin):
            for row in r.vals[i]:
                for x in row:
                    for y in (x if isinstance(x, tuple) else (x,)):
                        if isinstance(y, XR) and not isc(y.r):
                            reals.append(y)
        margin = bor(*[E.bad_margin(c, Fraction(1, 16)) for c, _ in bads])
        small = bor(*[E.bad_margin(c, Fraction(1, 2 ** 12)) for c, _ in bads])
        grid = []
        for k, y in enumerate(reals):
            iv = z3.Int(f'grid!{k}')
            grid.append(z3.And(y.r * 4 == z3.ToReal(iv), iv <= 64, iv >= -64))
        box = [z3.And(y.r <= 32, y.r >= -32) for y in reals]
        for cs, to in ((grid + [margin], 6), (box + [margin], 6), ([margin], 6), (grid + [small], 4),
                       ([small], 6)):
            q, m2 = solve(base + r.pc + [c if c is not True else z3.BoolVal(True) for c in cs], S, timeout=to,
                          seed=seed)
            if q == z3.sat:
                cands.append(m2)
                if len(cands) >= 2:
                    break
    cands.append(m)
    why = ''
    for mm in cands:
        try:
            w, why = replay(task, E, r, dom, mm, bads, obls, S)
        except Unsupported as e:
            w, why = None, f'replay not possible: {e}'
        if w is not None:
            return w
    res.detail = why
    return None


def decide_concrete(task, ins, outs, out0):
    """Evaluate the specification on concrete elements.  -> list of failed labels, or None when the
    precondition does not hold."""
    dom = NumDom() if task.mode in ('real', 'realx') else FPDom()
    uf = registry.get(task.modname).ufuncs[task.attr]
    ty = task.ty or next((LT[c] for c in task.vt if c in LT), 'double')
    E = Env(dom, ty, concrete=True)
    E.tol = task.tol or TOL[ty]
    nin = uf.nin

    def cv(tcs, rows):
        return [[[conc_value(dom, tc, x) for x in row] for row in op] for tc, op in zip(tcs, rows)]
    cores, sym = parse_sig(uf.sig, uf.nin, uf.nout)
    dims = {d: (int(d) if d.isdigit() else task.dims[d]) for d in sym}
    pres = apply_spec(E, task.spec, task.pre, uf, task.vt, dims, cv(task.vt[:nin], ins),
                      cv(task.vt[nin:], outs), cv(task.vt[nin:], out0), task.nloops)
    for p in pres:
        if isinstance(p, bool):
            ok = p
        else:
            ok = z3.is_true(z3.simplify(p))
        if not ok:
            return None
    return [c for c in E.claims if not E.judge(c)]


def replay(task, E, r, dom, m, bads, obls, S):
    nin = r.uf.nin
    ins = [[[conc(dom, m, x, task.vt[i]) for x in row] for row in r.vals[i]] for i in range(nin)]
    out0 = [[[conc(dom, m, x, task.vt[nin + j]) for x in row] for row in r.out0[j]]
            for j in range(r.uf.nout)]
    S.replays += 1
    why = ''
    hit = [o for o, k in obls if model_bool(m, b2z(k))]
    for mode in ('public', 'direct'):
        if mode == 'public' and task.inplace:
            continue
        outs, info = real_call(task.modname, task.attr, task.types, task.dims, task.kind, task.nloops, ins, out0,
                               mode=mode, inplace=task.inplace, vt=task.vt)
        w = {'task': task.describe(), 'module': task.modname, 'ufunc': task.attr, 'types': task.types,
             'dims': task.dims, 'layout': task.kind, 'nloops': task.nloops, 'call': mode,
             'inputs': render(task.vt, ins), 'input_bits': ins,
             'initial_output': render(task.vt[nin:], out0)}
        if outs is None:
            if 'crash' in info:
                w['what'] = f'{task.attr}: the call dies with {info["crash"]} on {w["inputs"]}'
                w['observed'] = info
                return w, ''
            why = f'{mode}: {info}'
            continue
        w['outputs'] = render(task.vt[nin:], outs)
        if info['bad']:
            w['what'] = f'{task.attr}: {info["bad"][0]} on inputs {w["inputs"]}'
            w['observed'] = info['bad']
            return w, ''
        failed = decide_concrete(task, ins, outs, out0)
        if failed is None:
            why = 'rounded inputs leave the precondition'
            continue
        if failed:
            c = failed[0]
            w['failed'] = [x.label for x in failed]
            w['what'] = f'{task.attr}: "{c.label}" fails on {w["inputs"]}: outputs {w["outputs"]}'
            return w, ''
        if hit:
            # memory error without visible damage: vary what lies outside the arrays
            o2, i2 = real_call(task.modname, task.attr, task.types, task.dims, task.kind, task.nloops, ins, out0,
                               mode=mode, inplace=task.inplace, guard=0x00, vt=task.vt)
            if o2 is None or o2 != outs or i2['bad']:
                w['what'] = f'{task.attr}: {hit[0].kind}: {hit[0].info} on {w["inputs"]}: result depends on ' \
                            'memory outside the arrays'
                return w, ''
            if mode == 'direct' and any(o.kind.startswith('oob') for o in hit):
                # arrays bordering on inaccessible pages
                for page in ('end', 'start'):
                    _, i2 = real_call(task.modname, task.attr, task.types, task.dims, task.kind, task.nloops, ins, out0,
                                      mode=mode, inplace=task.inplace, vt=task.vt, page=page)
                    if i2.get('crash') in ('SIGSEGV', 'SIGBUS'):
                        w['what'] = f'{task.attr}: {hit[0].kind}: {hit[0].info} on {w["inputs"]}: {i2["crash"]} when the ' \
                                    f'array is the {page} of accessible memory'
                        w['observed'] = i2
                        return w, ''
        why = f'{mode}: real code satisfies the claims on {w["inputs"]} -> {w["outputs"]}' + \
            (f' (expected {hit[0].kind}: {hit[0].info})' if hit else '')
    return None, why


def refine(task, dom, m, r, E, S, tried):
    """Add facts about uninterpreted functions at the points of the spurious model."""
    n = 0
    if isinstance(dom, RealDom):
        for name, args, t in list(dom.ufapps):
            vals = []
            try:
                vals = [model_frac(m, a) for a in args]
            except Unsupported:
                continue
            key = (name, tuple(vals))
            if key in tried:
                continue
            f = mpcall(name, vals)
            tried.append(key)
            if f is None:
                continue
            eps = max(abs(f), Fraction(1, 10 ** 30)) / 10 ** 12
            cond = z3.And(*[a == rz(v) for a, v in zip(args, vals)])
            dom.axioms.append(z3.Implies(cond, z3.And(t >= rz(f - eps), t <= rz(f + eps))))
            # a constant application takes part in the monotonicity axioms
            if len(vals) == 1:
                t0 = dom.uf(name, vals)
                dom.axioms.append(z3.And(t0 >= rz(f - eps), t0 <= rz(f + eps)))
            n += 1
    elif dom.opaque or dom.ufs:
        for (key, app) in uf_apps(dom, r, E):
            vals = []
            for a in app.children():
                vals.append(m.eval(a, model_completion=True))
            k = (str(key), tuple(str(v) for v in vals))
            if k in tried:
                continue
            tried.append(k)
            v = fp_apply(dom, key, vals)
            if v is None:
                continue
            dom.axioms.append(z3.Implies(z3.And(*[a == x for a, x in zip(app.children(), vals)]), app == v))
            n += 1
    return n > 0


def uf_apps(dom, r, E):
    names = {f.name(): k for k, f in dom.ufs.items()}
    seen = set()
    out = []
    stack = []
    for c in E.claims:
        g = E.good(c)
        if not isinstance(g, bool):
            stack.append(g)
    stack += [c for c in r.pc if not isinstance(c, bool)]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().name() in names and x.num_args() > 0:
                out.append((names[x.decl().name()], x))
            stack.extend(x.children())
    return out


def fp_apply(dom, key, vals):
    """Concrete value of an opaque operation."""
    lt = key[1]
    srt = vals[0].sort()
    if key[0] in ('fadd', 'fsub', 'fmul', 'fdiv'):
        f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[key[0]]
        return z3.simplify(f(z3.RNE(), *vals))
    if key[0] == 'sqrt':
        return z3.simplify(z3.fpSqrt(z3.RNE(), vals[0]))
    try:
        bits = [fp_bits(v, lt) for v in vals]
    except Exception:
        return None
    d = [decode(b, lt) for b in bits]
    if any(x[0] != 'fin' for x in d):
        return None
    f = mpcall(key[0], [x[2] for x in d])
    if f is None:
        return None
    del srt
    return FPDom().from_bits(frac_to_bits(f, lt), lt)


# ------------------------------------------------------------------ concordance
SPEC_F = [0, 1, -1, Fraction(1, 2), 2, -2, Fraction(5, 2), 3, Fraction(-3, 4), 7, Fraction(1, 8), -5]


def rand_elem(rng, tc, special):
    lt, ssz, item, knd = TC[tc]
    if knd == 'c':
        return (rand_elem(rng, {'F': 'f', 'D': 'd', 'G': 'g'}[tc], special),
                rand_elem(rng, {'F': 'f', 'D': 'd', 'G': 'g'}[tc], special))
    if knd == 'f':
        if special and rng.random() < 0.15:
            return special_bits(rng.choice(['nan', 'inf', '-inf']), lt)
        if rng.random() < 0.7:
            return frac_to_bits(Fraction(rng.choice(SPEC_F)), lt)
        return frac_to_bits(Fraction(rng.randrange(-4000, 4000), rng.choice([1, 3, 16, 1000])), lt)
    if knd == 'b':
        return rng.randrange(2)
    w = 8 * ssz
    x = rng.choice([0, 1, 2, 3, -1, 5, rng.getrandbits(w), 1 << (w - 1), (1 << (w - 1)) - 1])
    return x & mask(w)


def concordance(task, r, E, S, seed, res):
    """The encoding and the real loop agree on concrete inputs."""
    rng = random.Random(f'{seed}/{task.describe()}')
    real_mode = task.mode in ('real', 'realx')
    uf = r.uf
    for k in range(task.concord):
        ins = None
        for _ in range(30):
            if task.gen:
                ins = task.gen(rng, task)
            else:
                ins = [[[rand_elem(rng, task.vt[i], task.mode in ('fp', 'opaque', 'realx')) for _ in row]
                        for row in r.vals[i]] for i in range(uf.nin)]
            # stride-0 operands share elements
            for i in range(uf.nin):
                op = r.ops[i]
                by = {}
                for l in range(task.nloops):
                    for q, off in enumerate(op.offsets(l)):
                        ins[i][l][q] = by.setdefault(off, ins[i][l][q])
            if not task.pre:
                break
            if pre_holds(task, uf, ins):
                break
            ins = None
        if ins is None:
            continue
        dom = NumDom() if real_mode else FPDom()
        out0 = [[[0 if TC[task.vt[uf.nin + j]][3] != 'c' else (0, 0) for _ in row] for row in r.out0[j]]
                for j in range(uf.nout)]
        try:
            r2 = run_loop(task.modname, task.attr, task.types, task.dims, task.kind, task.nloops, dom=dom, vtypes=task.vt,
                          values=lambda i, l, q, tc: conc_value(dom, tc, ins[i][l][q]),
                          init_out=lambda j, l, q, tc: conc_value(dom, tc, out0[j][l][q]),
                          inplace=task.inplace, max_iter=5000)
        except (Unsupported, BoundExceeded):
            continue
        if any(all(c is True for c in o.conds) for o in r2.ex.obls):
            continue
        outs, info = real_call(task.modname, task.attr, task.types, task.dims, task.kind, task.nloops, ins, out0,
                               inplace=task.inplace, vt=task.vt)
        if outs is None:
            continue
        ok = True
        usable = True
        for j in range(uf.nout):
            tc = task.vt[uf.nin + j]
            lt, ssz, item, knd = TC[tc]
            for ra, rb in zip(r2.outs[j], outs[j]):
                for a, b in zip(ra, rb):
                    pa = a if isinstance(a, tuple) else (a,)
                    pb = b if isinstance(b, tuple) else (b,)
                    for x, y in zip(pa, pb):
                        g = agree(dom, x, y, lt, knd)
                        if g is None:
                            usable = False
                        elif not g:
                            ok = False
        if not usable:
            continue
        S.traces += 1
        if len(S.samples) < 2:
            S.samples.append({'task': task.describe(), 'trace': render(task.vt, ins),
                              'real_outputs': render(task.vt[uf.nin:], outs), 'encoding_agrees': ok})
        if not ok and not real_mode:
            res.status = 'inconclusive'
            res.detail = f'encoding disagrees with the real code on {render(task.vt, ins)}: ' \
                         f'{render(task.vt[uf.nin:], outs)} vs {r2.outs}'
            return


def pre_holds(task, uf, ins):
    dom = NumDom() if task.mode in ('real', 'realx') else FPDom()
    ty = task.ty or next((LT[c] for c in task.vt if c in LT), 'double')
    E = Env(dom, ty, concrete=True)
    cores, sym = parse_sig(uf.sig, uf.nin, uf.nout)
    E.dims = {d: (int(d) if d.isdigit() else task.dims[d]) for d in sym}
    for l in range(task.nloops):
        a = [shaped(cores[i], [conc_value(dom, task.vt[i], x) for x in ins[i][l]], E, task.vt[i])
             for i in range(uf.nin)]
        p = task.pre(E, *a)
        for c in (p if isinstance(p, (list, tuple)) else [p]):
            if not (c if isinstance(c, bool) else z3.is_true(z3.simplify(c))):
                return False
    return True


def agree(dom, x, y, lt, knd):
    """x: value of the encoding, y: bits from the real code."""
    if knd in ('f', 'c'):
        if isinstance(dom, RealDom):
            v = bits_to_xr(y, lt)
            if not isinstance(x, XR) or not isc(x.r):
                return None
            if (x.nan, x.pinf, x.ninf) != (v.nan, v.pinf, v.ninf):
                return False
            if x.nan or x.pinf or x.ninf:
                return True
            return abs(x.r - v.r) <= TOL[lt] * 64 * max(1, abs(v.r))
        if not z3.is_fp_value(x):
            x = z3.simplify(x)
            if not z3.is_fp_value(x):
                return None
        if x.isNaN():
            return decode(y, lt)[0] == 'nan'
        return fp_bits(x, lt) == y
    if isinstance(x, ZI):
        if not isinstance(x.e, int) and not z3.is_int_value(z3.simplify(x.e)):
            return None
        return z3.simplify(x.e).as_long() & mask(x.w) == y
    if not isinstance(x, int):
        x = z3.simplify(x)
        if not z3.is_bv_value(x):
            return None
        x = x.as_long()
    return x == y


# ------------------------------------------------------------------ driver
class _Alarm(BaseException):
    pass


def _alarm(*a):
    raise _Alarm()


TASKS = []


HUNT_S = 90          # seconds of concrete search after an undecided task
GRACE_S = 30         # a worker that ignores its alarm for this long is killed


def timer(s):
    # repeats: an exception raised inside a destructor is swallowed by Python
    signal.setitimer(signal.ITIMER_REAL, s, 3 if s else 0)


def rehunt(task, res, seed):
    if hasattr(task, 'run'):
        return
    try:
        timer(HUNT_S)
        hunt(task, res, seed)
    except (_Alarm, Exception):
        pass
    finally:
        timer(0)


def _work(k, hunt_only=False):
    task = TASKS[k]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    res = None
    try:
        if hunt_only:
            raise Unsupported('the solver did not stop')
        timer(int(task.budget))
        if hasattr(task, 'run'):
            res = task.run(seed)
        else:
            res = run_task(task, seed)
    except _Alarm:
        timer(0)
        res = Result(task)
        res.status, res.detail = 'inconclusive', f'no answer within {task.budget} s'
        rehunt(task, res, seed)
    except (Unsupported, BoundExceeded, MemoryError) as e:
        timer(0)
        res = Result(task)
        res.status, res.detail = 'inconclusive', f'{type(e).__name__}: {e}'
        rehunt(task, res, seed)
    except Exception as e:
        timer(0)
        res = Result(task)
        res.status = 'error'
        res.detail = f'{type(e).__name__}: {e}\n' + traceback.format_exc(limit=-6)
        rehunt(task, res, seed)
    finally:
        timer(0)
    res.wall = time.time() - t0
    return k, res


def _serve(conn):
    while True:
        job = conn.recv()
        if job is None:
            return
        try:
            conn.send(_work(*job))
        except _Alarm:
            os._exit(3)


class Farm:
    """Worker processes, one task at a time; a worker that hangs or dies costs only its task."""

    def __init__(self, ctx, jobs):
        self.ctx, self.jobs = ctx, jobs
        self.live = {}

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_serve, args=(b,), daemon=True)
        p.start()
        b.close()
        return [p, a, 0]

    def run(self, njobs, deadline):
        from multiprocessing.connection import wait
        todo = [(k, False) for k in range(njobs)]
        todo.reverse()
        idle, busy = [], {}
        stop = deadline
        while todo or busy:
            now = time.time()
            if now > stop:
                break
            while todo and len(busy) < self.jobs:
                w = idle.pop() if idle else self.spawn()
                job = todo.pop()
                w[1].send(job)
                w[2] += 1
                task = TASKS[job[0]]
                limit = (0 if job[1] else task.budget) + (0 if hasattr(task, 'run') else HUNT_S) + GRACE_S
                busy[w[1]] = (w, job, now + limit)
            ready = wait(list(busy), timeout=1.0)
            for c in ready:
                w, job, lim = busy.pop(c)
                try:
                    k, res = c.recv()
                except (EOFError, OSError):
                    w[0].join()
                    res = Result(TASKS[job[0]])
                    res.status, res.detail = 'inconclusive', f'the worker ended ({w[0].exitcode})'
                    yield job[0], res
                    continue
                if res.status == 'violation':
                    # confirmed on the real code: give the rest a little longer, then report
                    stop = min(stop, time.time() + (45 if 'VERIF_ALL' not in os.environ else 1e6))
                if w[2] >= 40:
                    c.send(None)
                    w[0].join(5)
                else:
                    idle.append(w)
                yield k, res
            now = time.time()
            for c, (w, job, lim) in list(busy.items()):
                if now > lim:
                    w[0].kill()
                    w[0].join()
                    del busy[c]
                    if not job[1] and not hasattr(TASKS[job[0]], 'run'):
                        todo.append((job[0], True))
                        continue
                    res = Result(TASKS[job[0]])
                    res.status, res.detail = 'inconclusive', 'killed: no answer'
                    yield job[0], res
        for w, job, lim in busy.values():
            w[0].kill()
            res = Result(TASKS[job[0]])
            res.status, res.detail = 'inconclusive', 'stopped: out of time'
            yield job[0], res
        for k, _ in todo:
            res = Result(TASKS[k])
            res.status, res.detail = 'inconclusive', 'not run: out of time'
            yield k, res
        for w in idle:
            w[0].kill()


class FnTask:
    """A task with its own procedure: fn(result, stats, seed)."""

    def __init__(self, name, fn, budget=300):
        self.name, self.fn, self.budget = name, fn, budget

    def describe(self):
        return self.name

    def run(self, seed):
        res = Result(self)
        self.fn(res, seed)
        return res


def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                out.append(json.loads(line))
    return out


def run_property(pid, tasks, tier, seed, bounds, assumptions=(), stubs=(), jobs=None, verbose=False):
    import multiprocessing as mp
    t0 = time.time()
    TASKS[:] = tasks
    results = []
    ctx = mp.get_context('fork')
    jobs = jobs or min(8, os.cpu_count() or 8)
    deadline = t0 + float(os.environ.get('VERIF_DEADLINE', '760' if tier == 'quick' else '1e9'))
    for k, res in Farm(ctx, jobs).run(len(tasks), deadline):
        results.append((k, res))
        if verbose:
            print(f'{res.status:12s} {res.wall:6.1f}s {res.desc} {res.detail[:300]}', flush=True)
    results.sort(key=lambda x: x[0])
    total = Stats()
    viol, inc = [], []
    for k, res in results:
        total.add(res.stats)
        if res.status == 'violation':
            viol.append((k, res))
        elif res.status != 'ok':
            inc.append(res)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rng = random.Random(seed)
    samples = total.samples
    if len(samples) > 12:
        samples = rng.sample(samples, 12)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total.states, 'transitions': total.instr,
            'traces_validated_against_impl': total.traces,
            'samples': samples or [{'task': r.desc} for _, r in results[:5]],
            'tasks': len(tasks), 'tasks_ok': sum(r.status == 'ok' for _, r in results),
            'claims': total.claims, 'memory_and_arithmetic_obligations': total.obligations,
            'queries': total.queries, 'queries_unsat': total.unsat, 'queries_sat': total.sat,
            'queries_unknown': total.unknown, 'solver_time_s': round(total.qtime, 2),
            'reachability_witnesses': total.vacuity, 'replays': total.replays,
            'functions_encoded': sorted(total.functions), 'bounds': bounds,
            'explanation': 'states: basic blocks executed symbolically (each covers a set of inputs); '
                           'transitions: IR instructions executed symbolically; traces_validated_against_impl: '
                           'concrete runs on which the encoding and the built extension module agreed.',
            'inconclusive': [f'{r.desc}: {r.detail[:300]}' for r in inc],
        },
        'assumptions': list(assumptions) + ['stub: ' + s for s in stubs],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for kf in known_findings():
        if kf.get('property') == pid:
            st = kf_status(kf)
            if st:
                print(f'KNOWN-FINDING: property={pid} {kf["what"]}')
    if viol:
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + '.json')
        with open(path, 'w') as f:
            json.dump([r.witness or {'what': r.detail} for _, r in viol], f, indent=1, default=str)
        for _, r in viol[:5]:
            print('  ' + r.detail[:600])
        for r in inc[:5]:
            print(f'  (inconclusive: {r.desc}: {r.detail[:200]})')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    for r in inc[:20]:
        print(f'UNDECIDED {r.desc}: {r.detail[:1500]}')
    if 2 * len(inc) > len(tasks):
        return 2
    print(f'{pid}: held on {len(tasks) - len(inc)} of {len(tasks)} tasks, {total.claims} claims, {total.queries} queries, '
          f'{total.qtime:.1f} s solver, {time.time() - t0:.1f} s')
    return 0


def kf_status(kf):
    """Does the recorded finding still fail on the real code?  (kf['code'] sets result True/False.)"""
    if 'code' not in kf:
        return True
    r = real.py(kf['code'])
    return bool(r.get('result')) or 'crash' in r
