"""Symbolic executor for LLVM IR with state merging.

A function is executed over its control flow graph in weak-topological order; states that
reach the same block in the same iteration of every enclosing loop are merged.  Integers
are Python ints (concrete) or z3 bit-vectors, i1 is bool / z3 Bool, pointers are guarded
(object, offset) sets, floats live in a domain of dom.py.  Every load and store is checked
against the bounds of its object: violations become obligations that the caller discharges.
"""
import heapq
import re
import itertools
import time
import z3
from .llparse import Module, ParseError  # noqa: F401
from .dom import (bnot, band, bor, bite, b2z, Unsupported, ZI, FBITS, XR, RealDom, isc, rz, canonical)

FT = ('half', 'float', 'double', 'x86_fp80')


class BoundExceeded(Exception):
    pass


class Stuck(Exception):
    """Every path ended (unreachable / abort)."""


class DeadPath(Exception):
    """The current path was shown to be infeasible."""


class Ptr:
    """Pointer: list of (guard, base, offset).  base None = null, ('fn', name) = function,
    int = object id.  Guards of the alternatives are exhaustive and mutually exclusive."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f'Ptr{self.alts}'


NULL = Ptr([(True, None, 0)])


def mkptr(base, off=0):
    return Ptr([(True, base, off)])


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class MObj:
    __slots__ = ('id', 'name', 'size', 'cells', 'raw', 'ro', 'kind', 'init')

    def __init__(self, oid, name, size, kind='', raw=None, ro=False, init='undef'):
        self.id = oid
        self.name = name
        self.size = size
        self.cells = {}       # offset -> (nbytes, type, value)
        self.raw = raw        # background bytes
        self.ro = ro
        self.kind = kind
        self.init = init      # 'undef' | 'zero' (background when raw is None)

    def copy(self):
        o = MObj(self.id, self.name, self.size, self.kind, self.raw, self.ro, self.init)
        o.cells = dict(self.cells)
        return o


class State:
    __slots__ = ('pc', 'regs', 'mem', 'own')

    def __init__(self, pc, regs, mem, own=None):
        self.pc = pc          # tuple of elements: ('s', cond, split_id, branch, n) | ('o', cond)
        self.regs = regs
        self.mem = mem        # dict oid -> MObj
        self.own = own if own is not None else set()   # oids this state may mutate in place

    def fork(self, regs):
        # both copies lose ownership
        self.own = set()
        return State(self.pc, regs, dict(self.mem), set())

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o


def pc_conds(pc):
    return [e[1] for e in pc]


class Obligation:
    """Something that must not happen: cond under pc must be unsatisfiable."""
    __slots__ = ('kind', 'conds', 'info')

    def __init__(self, kind, conds, info):
        self.kind = kind
        self.conds = conds
        self.info = info


# ------------------------------------------------------------------ CFG analysis
def succs(instr):
    op = instr[0]
    if op == 'br':
        return [instr[3]] if instr[2] is None else [instr[3], instr[4]]
    if op == 'switch':
        return [instr[4]] + [l for _, l in instr[5]]
    if op == 'invoke':
        return [instr[5]]
    return []


class CFG:
    def __init__(self, fn):
        self.fn = fn
        blocks = fn.blocks
        self.entry = fn.order[0]
        self.succ = {b: list(dict.fromkeys(succs(ins[-1]))) for b, ins in blocks.items()}
        self._wto()
        self._live()

    def _wto(self):
        """Bourdoncle's weak topological order."""
        num = 0
        dfn = {}
        stack = []
        order = []
        nest = {}

        import sys
        sys.setrecursionlimit(20000)
        INF = 10 ** 9

        def visit(v, part):
            nonlocal num
            stack.append(v)
            num += 1
            dfn[v] = num
            head = num
            loop = False
            for w in self.succ[v]:
                m = visit(w, part) if dfn.get(w, 0) == 0 else dfn[w]
                if m <= head:
                    head = m
                    loop = True
            if head == dfn[v]:
                dfn[v] = INF
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    sub = []
                    for w in self.succ[v]:
                        if dfn.get(w, 0) == 0:
                            visit(w, sub)
                    sub.append(v)
                    part.append(('c', v, sub))
                else:
                    part.append(('v', v))
            return head
        part = []
        visit(self.entry, part)

        pos = 0
        self.pos = {}
        self.nest = {}

        def flat(part, heads):
            nonlocal pos
            for x in reversed(part):
                if x[0] == 'v':
                    self.pos[x[1]] = pos
                    self.nest[x[1]] = heads
                    pos += 1
                else:
                    h = heads + (x[1],)
                    self.pos[x[1]] = pos
                    self.nest[x[1]] = h
                    pos += 1
                    flat(x[2][:-1], h)
        flat(part, ())

    def _live(self):
        blocks = self.fn.blocks
        use = {}
        defs = {}
        phiuse = {b: {} for b in blocks}     # pred -> set of regs used by phis of successor
        for b, ins in blocks.items():
            u = set()
            d = set()
            for i in ins:
                if i[0] == 'phi':
                    for v, l in i[3]:
                        if v[0] == 'loc':
                            phiuse[l].setdefault(b, set()).add(v[1])
                    d.add(i[1])
                    continue
                for r in used_regs(i):
                    if r not in d:
                        u.add(r)
                if i[1] is not None:
                    d.add(i[1])
            use[b] = u
            defs[b] = d
        live = {b: set(use[b]) for b in blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(list(blocks)):
                if b not in self.succ:
                    continue
                o = set()
                for s in self.succ[b]:
                    if s in live:
                        o |= live[s]
                    o |= phiuse[b].get(s, set())
                n = use[b] | (o - defs[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live

    def key(self, u, ukey, v):
        """Key of block v when entered over the edge u -> v (ukey: iterations of u's nest)."""
        nu = self.nest[u] if u is not None else ()
        nv = self.nest[v]
        it = []
        for k, c in enumerate(nv):
            if k < len(nu) and nu[k] == c:
                if v == c and k == len(nv) - 1:
                    it.append(ukey[k] + 1)
                else:
                    it.append(ukey[k])
            else:
                it.append(0)
        return tuple(it)

    def sortkey(self, b, it):
        out = []
        for c, i in zip(self.nest[b], it):
            out.append(self.pos[c])
            out.append(i)
        out.append(self.pos[b])
        return tuple(out)


def used_regs(i):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'loc' and isinstance(x[1], str):
                out.append(x[1])
                return
            for e in x:
                walk(e)
        elif isinstance(x, list):
            for e in x:
                walk(e)
    # skip dest (index 1); labels are plain strings and never walked as registers
    walk(tuple(i[2:]))
    return out


# ------------------------------------------------------------------ integer helpers
def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def tobv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, ZI):
        return z3.Int2BV(v.e, w)
    return v


def simp_bv(v):
    if z3.is_bv_value(v):
        return v.as_long()
    return v


PURE = {n + x for x in ('', 'f', 'l') for n in (
    'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sqrt', 'cbrt', 'pow', 'sin', 'cos', 'tan', 'atan', 'atan2', 'sinh', 'cosh',
    'tanh', 'erf', 'erfc', 'lgamma', 'tgamma', 'hypot', 'fabs', 'floor', 'ceil', 'round', 'rint', 'trunc', 'nextafter', 'fmin', 'fmax',
    'fmod', 'remainder', 'copysign', 'fma', 'fdim', 'nearbyint', 'ldexp')}


class Executor:
    def __init__(self, mod, dom, timeout_ms=20000, max_iter=300, seed=1):
        self.mod = mod
        self.dom = dom
        self.cfgs = {}
        self.handlers = {}
        self.obls = []
        self.assumptions = []
        self.prune = False      # test every branch for feasibility
        self.n = itertools.count(1)
        self.splits = itertools.count(1)
        self.dead = set()
        self.max_iter = max_iter
        self.globals = {}
        self.ninstr = 0
        self.nstates = 0
        self.encoded = set()
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms
        self.solver.set('timeout', timeout_ms)
        self.nasserted = 0
        self.feas_queries = 0
        self.feas_time = 0.0
        self.mem0 = {}
        self.trace_calls = []
        self.loopcap = None
        self.stack = []
        self.zimode = False
        self.summarise = False
        self.raised = []      # path conditions under which a Python exception is set

    # ------------------------------------------------------------ objects
    def new_obj(self, mem, name, size, kind='', **kw):
        oid = next(self.n)
        mem[oid] = MObj(oid, name, size, kind, **kw)
        return oid

    def global_ptr(self, name):
        if name in self.mod.functions and name not in self.mod.globals:
            return mkptr(('fn', name))
        if name not in self.globals:
            g = self.mod.globals.get(name)
            if g is None:
                raise Unsupported('unknown global ' + name)
            if g[0] == 'alias':
                p = self.const(g[1], 'ptr')
                self.globals[name] = p.alts[0][1]
                return p
            t, init, const = g
            oid = next(self.n)
            o = MObj(oid, '@' + name, self.mod.size(t), 'global', ro=const,
                     init='zero' if init is not None else 'undef')
            self.globals[name] = oid
            self.mem0[oid] = o
            if init is not None:
                self._fill(o, 0, t, init)
        oid = self.globals[name]
        return mkptr(oid, 0)

    def _fill(self, o, off, t, v):
        t = self.mod.resolve(t)
        if v[0] == 'zero':
            return
        if v[0] == 'undef':
            return
        if v[0] == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, 'i8', b)
            return
        if v[0] == 'agg':
            if isinstance(t, tuple) and t[0] == 'struct':
                offs, es = self.mod.struct_layout(t)
                for k, (et, ev) in enumerate(v[1]):
                    self._fill(o, off + offs[k], et, ev)
            else:
                sz = self.mod.size(t[2])
                for k, (et, ev) in enumerate(v[1]):
                    self._fill(o, off + k * sz, et, ev)
            return
        o.cells[off] = (self.mod.store_size(t), t, self.const(v, t))

    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.mem0[oid]
            st.mem[oid] = o
        return o

    # ------------------------------------------------------------ constants
    def const(self, v, t):
        k = v[0]
        if k == 'int':
            t = self.mod.resolve(t)
            if t == 'i1':
                return bool(v[1] & 1)
            return v[1] & mask(int(t[1:]))
        if k == 'fp':
            return self.dom.const(v[1], t)
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(v[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(t)
        if k == 'agg':
            return tuple(self.const(x, et) for et, x in v[1])
        if k == 'bytes':
            return tuple(v[1])
        if k == 'gep':
            _, bt, (pt, pv), idx = v
            p = self.const(pv, pt)
            return self.gep(p, bt, [(it, self.const(iv, it)) for it, iv in idx])
        if k == 'cast':
            _, op, t1, x, t2 = v
            return self.cast(op, self.const(x, t1), t1, t2, None)
        if k == 'cbin':
            _, op, t1, a, b = v
            return self.binop(op, t1, self.const(a, t1), self.const(b, t1), None)
        raise Unsupported(f'const {v}')

    def zero(self, t):
        t = self.mod.resolve(t)
        if isinstance(t, str):
            if t == 'ptr':
                return NULL
            if t == 'i1':
                return False
            if t in FT:
                return self.dom.zero(t)
            return 0
        if t[0] == 'struct':
            return tuple(self.zero(e) for e in t[1])
        return tuple(self.zero(t[2]) for _ in range(t[1]))

    def fresh(self, name, t):
        t = self.mod.resolve(t)
        nm = f'{name}!{next(self.n)}'
        if isinstance(t, str):
            if t == 'i1':
                return z3.Bool(nm)
            if t == 'ptr':
                raise Unsupported('fresh pointer')
            if t in FT:
                return self.dom.fresh(nm, t)
            return z3.BitVec(nm, int(t[1:]))
        if t[0] == 'struct':
            return tuple(self.fresh(name, e) for e in t[1])
        return tuple(self.fresh(name, t[2]) for _ in range(t[1]))

    # ------------------------------------------------------------ ite
    def ite(self, c, a, b, t):
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        t = self.mod.resolve(t)
        if a is UNDEF and b is UNDEF:
            return a
        if a is UNDEF or b is UNDEF:
            # one path leaves the value undefined: unconstrained there
            if not isinstance(t, str) or t == 'ptr':
                return b if a is UNDEF else a
            if a is UNDEF:
                a = self.fresh('undef', t)
            else:
                b = self.fresh('undef', t)
        if isinstance(t, str):
            if t == 'i1':
                return bite(c, a, b)
            if t == 'ptr':
                return self.ite_ptr(c, a, b)
            if t in FT:
                return self.dom.ite(c, a, b)
            w = int(t[1:])
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            if isinstance(a, ZI) or isinstance(b, ZI):
                return self.ite_zi(c, a, b, w)
            if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
                return a
            return z3.If(c, tobv(a, w), tobv(b, w))
        if t[0] == 'struct':
            return tuple(self.ite(c, x, y, e) for x, y, e in zip(a, b, t[1]))
        return tuple(self.ite(c, x, y, t[2]) for x, y in zip(a, b))

    def ite_zi(self, c, a, b, w):
        a, b = self.tozi(a, w), self.tozi(b, w)
        if a.e.eq(b.e):
            return a
        if a.sg != b.sg:
            raise Unsupported('ite of ZI with different signedness')
        return ZI(z3.If(c, a.e, b.e), w, a.sg)

    def tozi(self, a, w, sg=True):
        if isinstance(a, ZI):
            return a
        if isinstance(a, int):
            return ZI(z3.IntVal(sgn(a, w)), w, True)
        return ZI(z3.BV2Int(a, sg), w, sg)

    def ite_ptr(self, c, a, b):
        out = []
        for g, base, off in a.alts:
            out.append((band(c, g), base, off))
        for g, base, off in b.alts:
            g2 = band(bnot(c), g)
            for k, (h, base2, off2) in enumerate(out):
                if base2 == base and self._offeq(off, off2):
                    h2 = bor(h, g2)
                    if len(a.alts) == 1 and len(b.alts) == 1:
                        h2 = True
                    out[k] = (h2, base, off)
                    break
                if base2 == base and base is not None and not isinstance(base, tuple):
                    # same object, different offset: symbolic offset
                    out[k] = (True if len(a.alts) == 1 and len(b.alts) == 1 else bor(h, g2), base,
                              z3.If(b2z(h), tobv(off2, 64), tobv(off, 64)))
                    break
            else:
                out.append((g2, base, off))
        if len(out) == 1:
            out[0] = (True, out[0][1], out[0][2])
        return Ptr(out)

    @staticmethod
    def _offeq(x, y):
        if isinstance(x, int) or isinstance(y, int):
            return isinstance(x, int) and isinstance(y, int) and x == y
        return x.eq(y)

    # ------------------------------------------------------------ solver
    def sync(self):
        for a in self.assumptions[self.nasserted:]:
            self.solver.add(a)
        self.nasserted = len(self.assumptions)
        ax = self.dom.axioms
        k = getattr(self, '_nax', 0)
        for a in ax[k:]:
            self.solver.add(a)
        self._nax = len(ax)

    def fptoint(self, v, t1, w, signed, st):
        r = self.dom.to_int(v, t1, w, signed)
        if self.prune and isinstance(r, ZI) and not isinstance(r.e, int) and not isc(v.r):
            k = self.only_value(r.e, pc_conds(st.pc))
            if k is not None:
                return k & mask(w) if abs(k) < 1 << (w - 1) else r
        if isinstance(r, ZI) and not isinstance(r.e, int) and isinstance(self.dom, RealDom):
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            e = r.e
            for c in (e < lo, e > hi):
                if self.feasible(pc_conds(st.pc) + [c]):
                    # what x86 delivers for 32 and 64 bits
                    e = z3.If(c, z3.IntVal(lo) if signed and w >= 32 else z3.FreshInt('unspec'), e)
            r = ZI(e, w, signed)
        return r

    def feasible(self, conds):
        """False only when proved unsatisfiable."""
        cs = [c for c in conds if c is not True]
        if any(c is False for c in cs):
            return False
        if self.prune:
            # without the axioms of the domain
            sol = z3.Solver()
            sol.set('timeout', self.timeout_ms)
            sol.add(*self.assumptions)
        else:
            self.sync()
            sol = self.solver
            sol.push()
        for c in cs:
            sol.add(c)
        t = time.time()
        r = sol.check()
        self.feas_time += time.time() - t
        self.feas_queries += 1
        if not self.prune:
            sol.pop()
        return r != z3.unsat

    def fabs(self, v, ty, st):
        if self.prune and isinstance(v, XR) and not isc(v.r) and v.special() is False:
            if not self.feasible(pc_conds(st.pc) + [v.r < 0]):
                return v
            if not self.feasible(pc_conds(st.pc) + [v.r > 0]):
                return self.dom.neg(v, ty)
        return self.dom.abs(v, ty)

    def only_value(self, e, conds):
        """The value of the integer term e when the conditions leave just one, else None."""
        sol = z3.Solver()
        sol.set('timeout', self.timeout_ms)
        sol.add(*self.assumptions)
        t = time.time()
        try:
            for c in conds:
                if c is not True:
                    sol.add(c)
            self.feas_queries += 1
            if sol.check() != z3.sat:
                return None
            k = sol.model().eval(e, model_completion=True)
            if not z3.is_int_value(k):
                return None
            sol.add(e != k)
            self.feas_queries += 1
            return k.as_long() if sol.check() == z3.unsat else None
        finally:
            self.feas_time += time.time() - t

    def assume(self, c):
        if c is True:
            return
        self.assumptions.append(b2z(c))

    def oblige(self, kind, st, cond, info):
        if cond is False:
            return
        conds = pc_conds(st.pc)
        if cond is not True:
            conds = conds + [cond]
        self.obls.append(Obligation(kind, conds, info))

    # ------------------------------------------------------------ merging
    def merge(self, states, live, types):
        if len(states) == 1:
            return states[0]
        n = 0
        p0 = states[0].pc
        while True:
            if any(len(s.pc) <= n for s in states):
                break
            e = p0[n]
            if all(s.pc[n] is e or (s.pc[n][0] == e[0] and s.pc[n][1].eq(e[1]))
                   for s in states[1:]):
                n += 1
                continue
            break
        prefix = p0[:n]
        if all(len(s.pc) > n and s.pc[n][0] == 's' for s in states) and \
                len({s.pc[n][2] for s in states}) == 1:
            sid = p0[n][2]
            nb = p0[n][4]
            groups = {}
            for s in states:
                groups.setdefault(s.pc[n][3], []).append(s)
            if len(groups) > 1:
                items = []
                for br in sorted(groups):
                    g = groups[br]
                    elem = g[0].pc[n]
                    m = self.merge(g, live, types)
                    items.append((elem, m, len(m.pc) == n + 1))
                full = all(f for _, _, f in items)
                covered = all((br in groups) or ((sid, br) in self.dead) for br in range(nb))
                acc = items[-1][1]
                for elem, m, _ in reversed(items[:-1]):
                    acc = self.merge2(elem[1], m, acc, live, types)
                if full and covered:
                    acc.pc = prefix
                elif full:
                    c = bor(*[e[1] for e, _, _ in items])
                    acc.pc = prefix + (('o', b2z(c)),)
                else:
                    c = bor(*[band(*pc_conds(m.pc[n:])) for _, m, _ in items])
                    acc.pc = prefix if c is True else prefix + (('o', b2z(c)),)
                return acc
        # generic
        acc = states[-1]
        rests = [band(*pc_conds(s.pc[n:])) for s in states]
        for s, r in list(zip(states, rests))[-2::-1]:
            acc = self.merge2(r, s, acc, live, types)
        c = bor(*rests)
        if c is not True:
            c2 = z3.simplify(b2z(c))
            c = True if z3.is_true(c2) else c
        acc.pc = prefix if c is True else prefix + (('o', b2z(c)),)
        return acc

    def merge2(self, c, a, b, live, types):
        """ite(c, a, b) on registers and memory."""
        if isinstance(c, bool):
            return a if c else b
        regs = {}
        for r in live:
            if r in a.regs and r in b.regs:
                x, y = a.regs[r], b.regs[r]
                regs[r] = x if x is y else self.ite(c, x, y, types[r])
            elif r in a.regs:
                regs[r] = a.regs[r]
            elif r in b.regs:
                regs[r] = b.regs[r]
        mem = dict(a.mem)
        for oid, ob in b.mem.items():
            oa = mem.get(oid)
            if oa is None:
                mem[oid] = ob
            elif oa is not ob:
                mem[oid] = self.merge_obj(c, oa, ob)
        return State(a.pc, regs, mem, set())

    def _whole(self, o):
        """A Python object's reference count as one cell (parts of it are loaded and stored separately)."""
        if o.kind != 'object' or 0 not in o.cells or o.cells[0][0] == 8:
            return o
        v = self._compose(None, True, o, 0, 8, 'i64')
        o = o.copy()
        o.cells.pop(4, None)
        o.cells[0] = (8, 'i64', v)
        return o

    def merge_obj(self, c, oa, ob):
        oa, ob = self._whole(oa), self._whole(ob)
        o = oa.copy()
        for off, cb in ob.cells.items():
            ca = oa.cells.get(off)
            if ca is cb:
                continue
            if ca is None:
                ca = (cb[0], cb[1], self._background(oa, off, cb[0], cb[1]))
            if ca[0] != cb[0]:
                raise Unsupported(f'merge of cells with different sizes in {o.name}')
            t = ca[1]
            if ca[1] != cb[1]:
                vb = self.retype(cb[2], cb[1], ca[1])
            else:
                vb = cb[2]
            o.cells[off] = (ca[0], t, self.ite(c, ca[2], vb, t))
        for off, ca in oa.cells.items():
            if off not in ob.cells:
                v = self._background(ob, off, ca[0], ca[1])
                o.cells[off] = (ca[0], ca[1], self.ite(c, ca[2], v, ca[1]))
        return o

    def _background(self, o, off, n, t):
        if o.init == 'zero':
            return self.zero(t)
        return UNDEF

    def retype(self, v, t1, t2):
        """Reinterpret a stored value of type t1 as t2 (same size)."""
        t1 = self.mod.resolve(t1)
        t2 = self.mod.resolve(t2)
        if t1 == t2 or v is UNDEF:
            return v
        i1 = isinstance(t1, str) and t1[0] == 'i'
        i2 = isinstance(t2, str) and t2[0] == 'i'
        if t1 in FT and i2:
            if self.dom.name == 'real':
                if isinstance(v, XR) and v.special() is False and isinstance(v.r, (int,)) \
                        or (isinstance(v, XR) and v.special() is False and v.r == 0 and not z3.is_expr(v.r)):
                    return 0
                raise Unsupported('real float read as integer')
            return self.dom.to_bits(v, t1)
        if i1 and t2 in FT:
            return self.dom.from_bits(v, t2)
        if i1 and i2:
            return v
        if t1 == 'ptr' and i2:
            return self.ptrtoint(v)
        if i1 and t2 == 'ptr':
            if v == 0:
                return NULL
            return self.inttoptr(v)
        raise Unsupported(f'retype {t1} -> {t2}')

    def ptrtoint(self, p):
        out = None
        for g, base, off in reversed(p.alts):
            a = 0 if base is None else (base if isinstance(base, int) else hash(base) % 10 ** 6) << 36
            v = (a + off) & mask(64) if isinstance(off, int) else z3.BitVecVal(a, 64) + off
            out = v if out is None else self.ite(g, v, out, 'i64')
        return out

    def inttoptr(self, v):
        if isinstance(v, int):
            if v == 0:
                return NULL
            base = (v + (1 << 35)) >> 36
            return mkptr(base, v - (base << 36))
        raise Unsupported('symbolic inttoptr')

    # ------------------------------------------------------------ memory
    def load(self, st, p, t):
        t = self.mod.resolve(t)
        if isinstance(t, tuple):
            if t[0] == 'struct':
                offs, es = self.mod.struct_layout(t)
                return tuple(self.load(st, self.padd(p, offs[k]), e) for k, e in enumerate(es))
            if t[0] == 'vec':
                sz = self.mod.store_size(t[2])
            else:
                sz = self.mod.size(t[2])
            return tuple(self.load(st, self.padd(p, k * sz), t[2]) for k in range(t[1]))
        n = self.mod.store_size(t)
        res = None
        for g, base, off in reversed(p.alts):
            if base is None or isinstance(base, tuple):
                self.oblige('null-deref', st, g, f'load {t} through null/function pointer')
                continue
            o = self.getobj(st, base)
            v = self.load_obj(st, g, o, off, n, t)
            res = v if res is None else self.ite(g, v, res, t)
        if res is None:
            return self.fresh('bad', t)
        return res

    def load_obj(self, st, g, o, off, n, t):
        if o.kind == 'freed':
            self.oblige('use-after-free', st, g, f'load from freed {o.name}')
            return self.fresh('bad', t)
        if isinstance(off, int):
            off = sgn(off & mask(64), 64)
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                if c[2] is UNDEF:
                    self.oblige('uninit', st, g, f'load {t} at {o.name}+{off}: uninitialised')
                    return self.fresh('uninit', t)
                return c[2] if c[1] == t else self.retype(c[2], c[1], t)
            if off < 0 or off + n > o.size:
                self.oblige('oob-read', st, g, f'load {t} at {o.name}[{off}:{off+n}] size {o.size}')
                return self.fresh('oob', t)
            ov = [x for x in range(off - 31, off + n) if x in o.cells and x + o.cells[x][0] > off]
            if not ov:
                if o.kind == 'array':
                    # inside the object but in a gap between elements
                    self.oblige('oob-read', st, g, f'load {t} at {o.name}[{off}:{off+n}]: not an element')
                    return self.fresh('oob', t)
                v = self._background(o, off, n, t)
                if v is UNDEF and o.name.startswith('@PyExc_') and t == 'ptr':
                    return mkptr(('fn', o.name[1:]))
                if v is UNDEF:
                    self.oblige('uninit', st, g, f'load {t} at {o.name}+{off}: uninitialised')
                    return self.fresh('uninit', t)
                return v
            return self._compose(st, g, o, off, n, t)
        # symbolic offset
        cand = sorted(k for k, c in o.cells.items() if c[0] == n)
        if not cand:
            self.oblige('oob-read', st, g, f'load {t} at {o.name}[symbolic]: no such element')
            return self.fresh('oob', t)
        off_s = z3.simplify(off)
        if z3.is_bv_value(off_s):
            return self.load_obj(st, g, o, off_s.as_long(), n, t)
        off = off_s
        conds = [off == z3.BitVecVal(k, 64) for k in cand]
        self.oblige('oob-read', st, band(g, bnot(bor(*conds))),
                    f'load {t} at {o.name}[symbolic offset]')
        res = None
        for k, c in reversed(list(zip(cand, conds))):
            cell = o.cells[k]
            v = cell[2] if cell[1] == t else self.retype(cell[2], cell[1], t)
            if v is UNDEF:
                self.oblige('uninit', st, band(g, c), f'load {t} at {o.name}+{k}: uninitialised')
                v = self.fresh('uninit', t)
            res = v if res is None else self.ite(c, v, res, t)
        return res

    def _compose(self, st, g, o, off, n, t):
        """Load n bytes assembled from cells of other sizes (concrete offset)."""
        byts = []
        k = off
        w8 = []
        while k < off + n:
            hit = None
            for x in range(k - 31, k + 1):
                c = o.cells.get(x)
                if c is not None and x + c[0] > k:
                    hit = (x, c)
            if hit is None:
                if o.init == 'zero':
                    w8.append(0)
                    k += 1
                    continue
                self.oblige('uninit', st, g, f'load {t} at {o.name}+{off}: partly uninitialised')
                return self.fresh('uninit', t)
            x, c = hit
            it = 'i' + str(8 * c[0])
            v = self.retype(c[2], c[1], it)
            if v is UNDEF:
                self.oblige('uninit', st, g, f'load {t} at {o.name}+{off}: partly uninitialised')
                return self.fresh('uninit', t)
            end = min(x + c[0], off + n)
            while k < end:
                b = k - x
                if isinstance(v, int):
                    w8.append((v >> (8 * b)) & 255)
                elif isinstance(v, ZI):
                    raise Unsupported('bytes of ZI')
                else:
                    w8.append(z3.Extract(8 * b + 7, 8 * b, v))
                k += 1
        del byts
        if all(isinstance(x, int) for x in w8):
            v = 0
            for b, x in enumerate(w8):
                v |= x << (8 * b)
        else:
            parts = [tobv(x, 8) for x in reversed(w8)]
            v = parts[0] if len(parts) == 1 else z3.simplify(z3.Concat(*parts))
        if t == 'x86_fp80':
            return self.dom.from_bits(v, t)
        return self.retype(v, 'i' + str(8 * n), t)

    def store(self, st, p, t, v):
        t = self.mod.resolve(t)
        if isinstance(t, tuple):
            if t[0] == 'struct':
                offs, es = self.mod.struct_layout(t)
                for k, e in enumerate(es):
                    self.store(st, self.padd(p, offs[k]), e, UNDEF if v is UNDEF else v[k])
                return
            sz = self.mod.store_size(t[2]) if t[0] == 'vec' else self.mod.size(t[2])
            for k in range(t[1]):
                self.store(st, self.padd(p, k * sz), t[2], UNDEF if v is UNDEF else v[k])
            return
        n = self.mod.store_size(t)
        for g, base, off in p.alts:
            if base is None or isinstance(base, tuple):
                self.oblige('null-deref', st, g, f'store {t} through null/function pointer')
                continue
            o = self.getobj(st, base)
            if o.kind == 'freed':
                self.oblige('use-after-free', st, g, f'store to freed {o.name}')
                continue
            if o.ro:
                self.oblige('write-readonly', st, g, f'store {t} to read-only {o.name}')
                continue
            o = st.wobj(base)
            if not isinstance(off, int):
                off = z3.simplify(off)
                if z3.is_bv_value(off):
                    off = off.as_long()
            if isinstance(off, int):
                off = sgn(off & mask(64), 64)
                if off < 0 or off + n > o.size or (o.kind == 'array' and (
                        off not in o.cells or o.cells[off][0] != n)):
                    if o.kind == 'array' and 0 <= off and off + n <= o.size and \
                            self._covers(o, off, n):
                        pass
                    else:
                        self.oblige('oob-write', st, g,
                                    f'store {t} at {o.name}[{off}:{off+n}] size {o.size}')
                        continue
                old = o.cells.get(off)
                if old is not None and old[0] == n:
                    if g is True:
                        o.cells[off] = (n, t, v)
                    else:
                        ov = old[2] if old[1] == t else self.retype(old[2], old[1], t)
                        o.cells[off] = (n, t, self.ite(g, v, ov, t))
                else:
                    ov = None
                    if g is not True:
                        over = any(x + c[0] > off and x < off + n for x, c in o.cells.items())
                        ov = self._compose(st, g, o, off, n, t) if over else self._background(o, off, n, t)
                    self._split(o, off, n)
                    o.cells[off] = (n, t, v if g is True else self.ite(g, v, ov, t))
            else:
                cand = sorted(k for k, c in o.cells.items() if c[0] == n)
                conds = [off == z3.BitVecVal(k, 64) for k in cand]
                self.oblige('oob-write', st, band(g, bnot(bor(*conds)) if conds else True),
                            f'store {t} at {o.name}[symbolic offset]')
                for k, c in zip(cand, conds):
                    old = o.cells[k]
                    ov = old[2] if old[1] == t else self.retype(old[2], old[1], t)
                    if ov is UNDEF:
                        ov = self.fresh('uninit', t)
                    o.cells[k] = (n, t, self.ite(band(g, c), v, ov, t))

    def _covers(self, o, off, n):
        k = off
        while k < off + n:
            for x in range(k - 31, k + 1):
                c = o.cells.get(x)
                if c is not None and x + c[0] > k:
                    k = x + c[0]
                    break
            else:
                return False
        return True

    def _split(self, o, off, n):
        """Make room for a cell [off, off+n): split overlapping cells into bytes."""
        for x in range(off - 31, off + n):
            c = o.cells.get(x)
            if c is None or x + c[0] <= off:
                continue
            if x >= off and x + c[0] <= off + n:
                del o.cells[x]
                continue
            it = 'i' + str(8 * c[0])
            v = UNDEF if c[2] is UNDEF else self.retype(c[2], c[1], it)
            del o.cells[x]
            for b in range(c[0]):
                if off <= x + b < off + n:
                    continue
                if v is UNDEF:
                    bv = UNDEF
                elif isinstance(v, int):
                    bv = (v >> (8 * b)) & 255
                else:
                    bv = z3.Extract(8 * b + 7, 8 * b, tobv(v, 8 * c[0]))
                o.cells[x + b] = (1, 'i8', bv)

    def padd(self, p, d):
        if isinstance(d, int) and d == 0:
            return p
        out = []
        for g, base, off in p.alts:
            if isinstance(off, int) and isinstance(d, int):
                o2 = off + d
            else:
                o2 = z3.simplify(tobv(off & mask(64) if isinstance(off, int) else off, 64)
                                 + tobv(d & mask(64) if isinstance(d, int) else d, 64))
                if z3.is_bv_value(o2):
                    o2 = sgn(o2.as_long(), 64)
            out.append((g, base, o2))
        return Ptr(out)

    def gep(self, p, bt, idx):
        if p is UNDEF:
            return UNDEF
        off = 0
        sym = None
        t = bt
        for k, (it, iv) in enumerate(idx):
            w = int(it[1:])
            if k == 0:
                sz = self.mod.size(t)
            else:
                t = self.mod.resolve(t)
                if t[0] == 'struct':
                    offs, es = self.mod.struct_layout(t)
                    off += offs[iv]
                    t = es[iv]
                    continue
                sz = self.mod.size(t[2]) if t[0] == 'arr' else self.mod.store_size(t[2])
                t = t[2]
            if isinstance(iv, int):
                off += sgn(iv, w) * sz
            else:
                e = tobv(iv, w)
                if w < 64:
                    e = z3.SignExt(64 - w, e)
                e = e * z3.BitVecVal(sz, 64) if sz != 1 else e
                sym = e if sym is None else sym + e
        if sym is not None:
            return self.padd(p, sym + z3.BitVecVal(off & mask(64), 64) if off else sym)
        return self.padd(p, off)

    # ------------------------------------------------------------ operators
    def binop(self, op, t, a, b, st, flags=()):
        t = self.mod.resolve(t)
        if isinstance(t, tuple):
            return tuple(self.binop(op, t[2], x, y, st) for x, y in zip(a, b))
        if a is UNDEF:
            a = self.fresh('undef', t)
        if b is UNDEF:
            b = self.fresh('undef', t)
        if op[0] == 'f':
            if op == 'fdiv' and isinstance(self.dom, RealDom) and isinstance(b, XR) and not isc(b.r) \
                    and a.special() is False and b.special() is False:
                # a divisor that cannot be zero here gives a plain quotient
                self.solver.set('timeout', 500)
                f = self.feasible(pc_conds(st.pc) + [b.r == 0])
                self.solver.set('timeout', self.timeout_ms)
                if not f:
                    return XR(canonical(rz(a.r) / b.r, self.dom.canon) if self.dom.canon else rz(a.r) / b.r)
            return self.dom.bin(op, a, b, t)
        w = int(t[1:])
        if w == 1:
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return bnot(biffb(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, ZI) or isinstance(b, ZI):
            return self.zibin(op, w, a, b, st)
        if isinstance(a, int) and isinstance(b, int):
            return self.ibin(op, w, a, b, st)
        # cheap identities
        if op == 'mul':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return 0
                if b == 1:
                    return a
        if op in ('add', 'or', 'xor') and isinstance(a, int) and a == 0:
            return b
        if op in ('add', 'or', 'xor', 'sub', 'shl', 'lshr', 'ashr') and isinstance(b, int) and b == 0:
            return a
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int) and x == 0:
                    return 0
                if isinstance(x, int) and x == mask(w):
                    return y
        x, y = tobv(a, w), tobv(b, w)
        if op == 'add':
            return x + y
        if op == 'sub':
            return x - y
        if op == 'mul':
            return x * y
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        if op == 'shl':
            return x << y
        if op == 'lshr':
            return z3.LShR(x, y)
        if op == 'ashr':
            return x >> y
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige('div-by-zero', st, y == 0, f'{op} i{w} by zero')
            if op in ('sdiv', 'srem'):
                self.oblige('div-overflow', st,
                            z3.And(x == z3.BitVecVal(1 << (w - 1), w), y == z3.BitVecVal(mask(w), w)),
                            f'{op} i{w} INT_MIN / -1')
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q,
                    'srem': z3.SRem}[op](x, y)
        raise Unsupported(op)

    def ibin(self, op, w, a, b, st):
        m = mask(w)
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) & m
        if b == 0:
            self.oblige('div-by-zero', st, True, f'{op} i{w} by zero')
            return 0
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            if q == 1 << (w - 1):
                self.oblige('div-overflow', st, True, f'{op} i{w} INT_MIN / -1')
            return q & m
        if op == 'srem':
            return (x - q * y) & m
        raise Unsupported(op)

    def zibin(self, op, w, a, b, st):
        a, b = self.tozi(a, w), self.tozi(b, w)
        f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}.get(op)
        if f is None:
            if op == 'shl' and z3.is_int_value(b.e):
                e = a.e * (1 << b.e.as_long())
            else:
                raise Unsupported('ZI ' + op)
        else:
            e = f(a.e, b.e)
        sg = a.sg or b.sg
        if st is not None:
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            self.oblige('int-overflow', st, z3.Or(e < lo, e > hi), f'{op} i{w} leaves its range')
        return ZI(e, w, sg)

    def icmp(self, pred, t, a, b, st):
        t = self.mod.resolve(t)
        if isinstance(t, tuple):
            return tuple(self.icmp(pred, t[2], x, y, st) for x, y in zip(a, b))
        if t == 'ptr':
            return self.pcmp(pred, a, b)
        if a is UNDEF:
            a = self.fresh('undef', t)
        if b is UNDEF:
            b = self.fresh('undef', t)
        w = int(t[1:])
        if w == 1:
            if pred == 'eq':
                return biffb(a, b)
            if pred == 'ne':
                return bnot(biffb(a, b))
            a = int(a) if isinstance(a, bool) else z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            b = int(b) if isinstance(b, bool) else z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if isinstance(a, ZI) or isinstance(b, ZI):
            a, b = self.tozi(a, w), self.tozi(b, w)
            if pred[0] == 'u' and (a.sg or b.sg):
                # unsigned comparison of signed mathematical values
                def u(x):
                    return z3.If(x.e < 0, x.e + (1 << w), x.e) if x.sg else x.e
                x, y = u(a), u(b)
            elif pred[0] == 's' and not (a.sg and b.sg):
                def s(q):
                    return q.e if q.sg else z3.If(q.e >= (1 << (w - 1)), q.e - (1 << w), q.e)
                x, y = s(a), s(b)
            else:
                x, y = a.e, b.e
            p = pred[-2:]
            return {'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y,
                    'ge': lambda: x >= y, 'lt': lambda: x < y, 'le': lambda: x <= y}[p]()
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b,
                    'le': a <= b}[pred[-2:]]
        x, y = tobv(a, w), tobv(b, w)
        if x.eq(y):
            return pred in ('eq', 'sge', 'sle', 'uge', 'ule')
        if pred == 'eq':
            return x == y
        if pred == 'ne':
            return z3.Not(x == y)
        return {'sgt': lambda: x > y, 'sge': lambda: x >= y, 'slt': lambda: x < y,
                'sle': lambda: x <= y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y)}[pred]()

    def pcmp(self, pred, a, b):
        res = False
        for g, b1, o1 in a.alts:
            for h, b2, o2 in b.alts:
                if b1 == b2:
                    if b1 is None or isinstance(b1, tuple):
                        e = {'eq': True, 'ne': False, 'uge': True, 'ule': True, 'ugt': False,
                             'ult': False}[pred]
                    else:
                        m = {'ugt': 'sgt', 'uge': 'sge', 'ult': 'slt', 'ule': 'sle'}
                        e = self.icmp(m.get(pred, pred), 'i64',
                                      o1 & mask(64) if isinstance(o1, int) else o1,
                                      o2 & mask(64) if isinstance(o2, int) else o2, None)
                elif pred == 'eq':
                    e = False
                elif pred == 'ne':
                    e = True
                else:
                    v1 = self.ptrtoint(mkptr(b1, o1))
                    v2 = self.ptrtoint(mkptr(b2, o2))
                    e = self.icmp(pred, 'i64', v1, v2, None)
                res = bor(res, band(g, h, e))
        return res

    def cast(self, op, v, t1, t2, st):
        t1 = self.mod.resolve(t1)
        t2 = self.mod.resolve(t2)
        if v is UNDEF:
            return UNDEF
        if op == 'bitcast':
            if isinstance(t1, tuple) or isinstance(t2, tuple):
                return self.bitcast_vec(v, t1, t2)
            return self.retype(v, t1, t2)
        if isinstance(t1, tuple):
            return tuple(self.cast(op, x, t1[2], t2[2], st) for x in v)
        if op in ('fpext', 'fptrunc'):
            return self.dom.convert(v, t1, t2)
        if op in ('sitofp', 'uitofp'):
            w = int(t1[1:])
            if w == 1:
                one = self.dom.from_int(1, 8, False, t2)
                z = self.dom.zero(t2)
                if op == 'sitofp':
                    one = self.dom.neg(one, t2)
                return self.dom.ite(v, one, z)
            return self.dom.from_int(v, w, op == 'sitofp', t2)
        if op in ('fptosi', 'fptoui'):
            return self.fptoint(v, t1, int(t2[1:]), op == 'fptosi', st)
        if op == 'ptrtoint':
            return self.ptrtoint(v)
        if op == 'inttoptr':
            return self.inttoptr(v)
        if op == 'addrspacecast':
            return v
        w1, w2 = int(t1[1:]), int(t2[1:])
        if w1 == 1:
            one = 1 if op == 'zext' else mask(w2)
            if isinstance(v, bool):
                return one if v else 0
            return z3.If(v, z3.BitVecVal(one, w2), z3.BitVecVal(0, w2))
        if isinstance(v, ZI):
            if op == 'zext' and v.sg and self.prune and st is not None and not self.feasible(pc_conds(st.pc) + [v.e < 0]):
                return ZI(v.e, w2, True)
            if op == 'zext':
                e = z3.If(v.e < 0, v.e + (1 << w1), v.e) if v.sg else v.e
                return ZI(e, w2, True)
            if op == 'sext':
                e = v.e if v.sg else z3.If(v.e >= (1 << (w1 - 1)), v.e - (1 << w1), v.e)
                return ZI(e, w2, True)
            # trunc
            lo, hi = -(1 << (w2 - 1)), (1 << (w2 - 1)) - 1
            if st is not None:
                self.oblige('int-overflow', st, z3.Or(v.e < lo, v.e > hi), f'trunc to i{w2}')
            return ZI(v.e, w2, True)
        if op == 'zext':
            return v if isinstance(v, int) else z3.ZeroExt(w2 - w1, v)
        if op == 'sext':
            return sgn(v, w1) & mask(w2) if isinstance(v, int) else z3.SignExt(w2 - w1, v)
        if op == 'trunc':
            if w2 == 1:
                return bool(v & 1) if isinstance(v, int) else z3.Extract(0, 0, v) == 1
            return v & mask(w2) if isinstance(v, int) else z3.Extract(w2 - 1, 0, v)
        raise Unsupported(op)

    def bitcast_vec(self, v, t1, t2):
        if isinstance(t1, tuple) and t1[0] == 'vec' and isinstance(t2, tuple) and t2[0] == 'vec' \
                and t1[1] == t2[1]:
            return tuple(self.retype(x, t1[2], t2[2]) for x in v)
        if isinstance(t1, tuple) and isinstance(t2, str) and t2[0] == 'i':
            w = 8 * self.mod.store_size(t1[2])
            parts = [self.retype(x, t1[2], 'i' + str(w)) for x in v]
            if all(isinstance(x, int) for x in parts):
                return sum(x << (w * k) for k, x in enumerate(parts))
            return z3.Concat(*[tobv(x, w) for x in reversed(parts)])
        if isinstance(t1, str) and isinstance(t2, tuple):
            w = 8 * self.mod.store_size(t2[2])
            out = []
            src = self.retype(v, t1, 'i' + str(w * t2[1])) if t1[0] != 'i' else v
            for k in range(t2[1]):
                x = (src >> (w * k)) & mask(w) if isinstance(src, int) else \
                    z3.Extract(w * k + w - 1, w * k, src)
                out.append(self.retype(x, 'i' + str(w), t2[2]))
            return tuple(out)
        raise Unsupported(f'bitcast {t1} {t2}')

    # ------------------------------------------------------------ execution
    def cfg(self, fn):
        c = self.cfgs.get(fn.name)
        if c is None:
            c = CFG(fn)
            types = dict((p[1], p[0]) for p in fn.params)
            for ins in fn.blocks.values():
                for i in ins:
                    if i[1] is not None:
                        types[i[1]] = self.result_type(i)
            c.types = types
            self.cfgs[fn.name] = c
        return c

    def result_type(self, i):
        op = i[0]
        if op in ('bin',):
            return i[3]
        if op in ('fneg', 'phi', 'load', 'freeze'):
            return i[2]
        if op in ('icmp', 'fcmp'):
            t = self.mod.resolve(i[3])
            return ('vec', t[1], 'i1') if isinstance(t, tuple) else 'i1'
        if op == 'select':
            return i[4]
        if op in ('gep', 'alloca'):
            return 'ptr'
        if op == 'cast':
            return i[5]
        if op in ('call', 'invoke'):
            return i[2]
        if op == 'extractvalue':
            t = i[2]
            for k in i[4]:
                t = self.mod.resolve(t)
                t = t[1][k] if t[0] == 'struct' else t[2]
            return t
        if op in ('insertvalue', 'insertelement'):
            return i[2]
        if op == 'extractelement':
            return self.mod.resolve(i[2])[2]
        if op == 'shufflevector':
            return ('vec', self.mod.resolve(i[5])[1], self.mod.resolve(i[2])[2])
        return 'void'

    def call(self, name, args, st):
        """Execute function `name`; returns (state, retval) with all paths merged."""
        fn = self.mod.functions.get(name)
        h = self.handlers.get(name)
        if h is not None:
            return h(self, st, args)
        if fn is None or fn.lines is None:
            raise Unsupported('call of external function ' + name)
        self.encoded.add(name)
        if name in self.stack and not self.feasible(pc_conds(st.pc)):
            raise DeadPath(name)
        self.stack.append(name)
        if len(self.stack) > 40:
            raise BoundExceeded('call depth in ' + name)
        cfg = self.cfg(fn)
        regs0 = st.regs
        st.regs = {p[1]: a for p, a in zip(fn.params, args)}
        pend = {}
        heap = []

        def push(u, uit, v, s):
            it = cfg.key(u, uit, v)
            if it and max(it) > self.max_iter:
                if not self.feasible(pc_conds(s.pc)):
                    e = s.pc[-1] if s.pc else None
                    if e and e[0] == 's':
                        self.dead.add((e[2], e[3]))
                    return
                raise BoundExceeded(f'{name}: more than {self.max_iter} iterations')
            # phis
            ins = fn.blocks[v]
            new = {}
            live = cfg.live[v]
            for r in live:
                if r in s.regs:
                    new[r] = s.regs[r]
            k = 0
            while ins[k][0] == 'phi':
                _, d, t, inc = ins[k]
                for val, l in inc:
                    if l == u:
                        new[d] = self.ev(s, val, t)
                        break
                else:
                    raise ParseError(f'phi without edge {u}->{v} in {name}')
                k += 1
            s.regs = new
            sk = cfg.sortkey(v, it)
            if sk not in pend:
                pend[sk] = (v, it, [])
                heapq.heappush(heap, sk)
            pend[sk][2].append(s)
        push(None, (), cfg.entry, st)
        rets = []
        while heap:
            sk = heapq.heappop(heap)
            b, it, sts = pend.pop(sk)
            live = set(cfg.live[b])
            for i in fn.blocks[b]:
                if i[0] != 'phi':
                    break
                live.add(i[1])
            s = self.merge(sts, live, cfg.types)
            self.block(fn, cfg, b, it, s, push, rets)
        self.stack.pop()
        if not rets:
            raise DeadPath(name)
        for s, v in rets:
            s.regs = {'ret': v} if v is not None else {}
        m = self.merge([s for s, _ in rets], ['ret'] if fn.ret != 'void' else [], {'ret': fn.ret})
        v = m.regs.get('ret')
        m.regs = regs0
        return m, v

    def ev(self, st, v, t):
        if v[0] == 'loc':
            try:
                return st.regs[v[1]]
            except KeyError:
                raise ParseError('undefined register ' + v[1])
        return self.const(v, t)

    def block(self, fn, cfg, b, it, st, push, rets):
        ins = fn.blocks[b]
        self.nstates += 1
        for i in ins:
            op = i[0]
            if op == 'phi':
                continue
            self.ninstr += 1
            d = i[1]
            if op == 'bin':
                st.regs[d] = self.binop(i[2], i[3], self.ev(st, i[4], i[3]), self.ev(st, i[5], i[3]),
                                        st, i[6])
            elif op == 'load':
                st.regs[d] = self.load(st, self.ev(st, i[3], 'ptr'), i[2])
            elif op == 'store':
                self.store(st, self.ev(st, i[4], 'ptr'), i[2], self.ev(st, i[3], i[2]))
            elif op == 'gep':
                st.regs[d] = self.gep(self.ev(st, i[3], 'ptr'), i[2],
                                      [(t, self.ev(st, v, t)) for t, v in i[4]])
            elif op == 'icmp':
                st.regs[d] = self.icmp(i[2], i[3], self.ev(st, i[4], i[3]), self.ev(st, i[5], i[3]), st)
            elif op == 'fcmp':
                x, y = self.ev(st, i[4], i[3]), self.ev(st, i[5], i[3])
                if isinstance(x, tuple):
                    st.regs[d] = tuple(self.dom.fcmp(i[2], p, q) for p, q in zip(x, y))
                else:
                    if x is UNDEF:
                        x = self.fresh('undef', i[3])
                    if y is UNDEF:
                        y = self.fresh('undef', i[3])
                    st.regs[d] = self.dom.fcmp(i[2], x, y)
            elif op == 'select':
                c = self.ev(st, i[3], i[2])
                x, y = self.ev(st, i[5], i[4]), self.ev(st, i[6], i[4])
                if isinstance(c, tuple):
                    et = self.mod.resolve(i[4])[2]
                    st.regs[d] = tuple(self.ite(cc, p, q, et) for cc, p, q in zip(c, x, y))
                else:
                    if c is UNDEF:
                        c = self.fresh('undef', 'i1')
                    st.regs[d] = self.ite(c, x, y, i[4])
            elif op == 'cast':
                st.regs[d] = self.cast(i[2], self.ev(st, i[4], i[3]), i[3], i[5], st)
            elif op == 'fneg':
                x = self.ev(st, i[3], i[2])
                t = self.mod.resolve(i[2])
                st.regs[d] = tuple(self.dom.neg(e, t[2]) for e in x) if isinstance(t, tuple) \
                    else self.dom.neg(x, t)
            elif op == 'freeze':
                x = self.ev(st, i[3], i[2])
                st.regs[d] = self.fresh('frozen', i[2]) if x is UNDEF else x
            elif op == 'alloca':
                n = self.ev(st, i[3], 'i64')
                if not isinstance(n, int):
                    raise Unsupported('variable alloca')
                oid = self.new_obj(st.mem, f'alloca {fn.name}{d}', self.mod.size(i[2]) * n, 'stack')
                st.own.add(oid)
                st.regs[d] = mkptr(oid)
            elif op in ('call', 'invoke'):
                rt, callee, args = i[2], i[3], i[4]
                a = [self.ev(st, v, t) for t, v in args]
                fp = self.ev(st, callee, 'ptr')
                # registers dead after the block need not be merged inside the callee: the
                # callee works on its own register file.
                try:
                    st, r = self.do_call(fn, fp, a, [t for t, _ in args], rt, st)
                except DeadPath:
                    e = st.pc[-1] if st.pc else None
                    if e and e[0] == 's':
                        self.dead.add((e[2], e[3]))
                    return
                if d is not None and r is not None:
                    st.regs[d] = r
                if op == 'invoke':
                    push(b, it, i[5], st)
                    return
            elif op == 'extractvalue':
                x = self.ev(st, i[3], i[2])
                for k in i[4]:
                    x = x[k]
                st.regs[d] = x
            elif op == 'insertvalue':
                x = self.ev(st, i[3], i[2])
                st.regs[d] = self.insertval(i[2], x, self.ev(st, i[5], i[4]), i[6])
            elif op == 'extractelement':
                x = self.ev(st, i[3], i[2])
                st.regs[d] = x[self.ev(st, i[5], i[4])]
            elif op == 'insertelement':
                x = self.ev(st, i[3], i[2])
                k = self.ev(st, i[7], i[6])
                st.regs[d] = self.insertval(i[2], x, self.ev(st, i[5], i[4]), [k])
            elif op == 'shufflevector':
                x, y = self.ev(st, i[3], i[2]), self.ev(st, i[4], i[2])
                n = self.mod.resolve(i[2])[1]
                x = x if x is not UNDEF else (UNDEF,) * n
                y = y if y is not UNDEF else (UNDEF,) * n
                m = self.ev(st, i[6], i[5])
                st.regs[d] = tuple(UNDEF if k is UNDEF else (x + y)[k] for k in
                                   (m if isinstance(m, tuple) else (0,) * self.mod.resolve(i[5])[1]))
            elif op == 'br':
                if i[2] is None:
                    push(b, it, i[3], st)
                    return
                c = self.ev(st, i[2], 'i1')
                if c is UNDEF:
                    c = self.fresh('undef', 'i1')
                if isinstance(c, bool):
                    push(b, it, i[3] if c else i[4], st)
                    return
                c = self.norm(c)
                if isinstance(c, bool):
                    push(b, it, i[3] if c else i[4], st)
                    return
                if i[3] == i[4]:
                    push(b, it, i[3], st)
                    return
                self.branch(cfg, b, it, st, [(c, i[3]), (bnot(c), i[4])], push)
                return
            elif op == 'switch':
                v = self.ev(st, i[3], i[2])
                w = int(self.mod.resolve(i[2])[1:])
                if isinstance(v, int):
                    for cv, l in i[5]:
                        if cv & mask(w) == v:
                            push(b, it, l, st)
                            return
                    push(b, it, i[4], st)
                    return
                by = {}
                for cv, l in i[5]:
                    by.setdefault(l, []).append(self.icmp('eq', i[2], v, cv & mask(w), st))
                outs = []
                for l, cs in by.items():
                    if l != i[4]:
                        outs.append((bor(*cs), l))
                rest = bnot(bor(*[c for c, _ in outs]))
                if rest is not False:
                    outs.append((rest, i[4]))
                outs = [(c, l) for c, l in outs if c is not False]
                self.branch(cfg, b, it, st, outs, push)
                return
            elif op == 'ret':
                rets.append((st, None if i[3] is None else self.ev(st, i[3], i[2])))
                return
            elif op == 'unreachable':
                self.obls.append(Obligation('abort', pc_conds(st.pc), f'unreachable in {fn.name}'))
                return
            elif op == 'nop':
                pass
            else:
                raise Unsupported(f'{op}: {i}')

    def norm(self, c):
        """Cheap constant detection for a branch condition."""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return c

    def branch(self, cfg, b, it, st, outs, push):
        if len(outs) == 1:
            push(b, it, outs[0][1], st)
            return
        sid = next(self.splits)
        n = len(outs)
        inloop = bool(cfg.nest[b])
        conds = pc_conds(st.pc)
        first = True
        live = []
        for k, (c, l) in enumerate(outs):
            # prune infeasible continuation of a loop whose exit test is symbolic
            if any(c.eq(x) for x in conds):
                for j in range(n):
                    if j != k:
                        self.dead.add((sid, j))
                live = [(k, True, l)]
                break
            nc = bnot(c)
            if any(nc.eq(x) for x in conds):
                self.dead.add((sid, k))
                continue
            if self.prune or inloop and len(cfg.nest[l]) and self._continues(cfg, b, l) and \
                    any(not self._continues(cfg, b, l2) for _, l2 in outs):
                if not self.feasible(conds + [c]):
                    self.dead.add((sid, k))
                    continue
            live.append((k, c, l))
        for j, (k, c, l) in enumerate(live):
            s = st if j == len(live) - 1 else st.fork(dict(st.regs))
            if c is not True and len(live) > 1:
                s.pc = s.pc + (('s', c, sid, k, n),)
            push(b, it, l, s)
        del first

    @staticmethod
    def _continues(cfg, b, l):
        """Does the edge b -> l stay in the innermost loop of b?"""
        return cfg.nest[b][-1] in cfg.nest[l]

    def insertval(self, t, x, e, idx):
        t = self.mod.resolve(t)
        n = len(t[1]) if t[0] == 'struct' else t[1]
        if x is UNDEF:
            x = (UNDEF,) * n
        k = idx[0]
        if len(idx) > 1:
            et = t[1][k] if t[0] == 'struct' else t[2]
            e = self.insertval(et, x[k], e, idx[1:])
        return x[:k] + (e,) + x[k + 1:]

    def pure(self, name, seen=None):
        """The result depends on the arguments only (no access to variable global state).
        summarise = 'safe': nor does the function contain anything that could fault."""
        seen = set() if seen is None else seen
        if name in seen:
            return True
        seen.add(name)
        f = self.mod.functions.get(name)
        if f is None or f.lines is None:
            return name in PURE or name.startswith('llvm.')
        for ln in f.lines:
            if re.search(r'\bstore\b.*ptr @|\bvolatile\b|\batomic|inttoptr|\basm\b', ln):
                return False
            if self.summarise == 'safe' and re.search(r'= load |\bstore |= [us](div|rem) ', ln):
                return False
            m = re.search(r'\bcall\b[^@%]*([@%][-\w.$]+)\(', ln)
            if m and (m[1][0] == '%' or not self.pure(m[1][1:], seen)):
                return False
            for g in re.findall(r'ptr @([-\w.$]+)', ln):
                if g in self.mod.globals and not self.mod.globals[g][2]:
                    return False
        return True

    def do_call(self, fn, fp, args, tys, rt, st):
        if len(fp.alts) != 1:
            raise Unsupported('call through a symbolic function pointer')
        base = fp.alts[0][1]
        if not (isinstance(base, tuple) and base[0] == 'fn'):
            raise Unsupported(f'call through non-function pointer {fp}')
        name = base[1]
        h = self.handlers.get(name)
        if h is not None:
            return h(self, st, args)
        if name.startswith('llvm.'):
            return st, self.intrinsic(name, args, tys, rt, st)
        f = self.mod.functions.get(name)
        if f is not None and f.lines is not None:
            # normalise undef arguments
            a = [self.fresh('undef', t) if x is UNDEF and t != 'ptr' else x for x, t in zip(args, tys)]
            if self.summarise and rt in FBITS and all(t in FBITS for t in tys) and self.pure(name):
                # a function of its arguments: uninterpreted
                return st, self.dom.call('fn:' + name, a, rt)
            return self.call(name, a, st)
        r = self.libc(name, args, tys, rt, st)
        return st, r

    # ------------------------------------------------------------ intrinsics, libc, libm
    def intrinsic(self, name, a, tys, rt, st):
        p = name.split('.')
        op = p[1]
        if op in ('lifetime', 'assume', 'dbg', 'experimental', 'donothing', 'prefetch', 'invariant'):
            return None
        if op == 'fabs':
            return self.fabs(a[0], rt, st)
        if op == 'copysign':
            return self.dom.call('copysign', a, rt)
        if op in ('smax', 'smin', 'umax', 'umin'):
            c = self.icmp({'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op], rt,
                          a[0], a[1], st)
            return self.ite(c, a[0], a[1], rt)
        if op == 'abs':
            w = int(rt[1:])
            c = self.icmp('slt', rt, a[0], 0, st)
            n = self.binop('sub', rt, 0, a[0], None)
            del w
            return self.ite(c, n, a[0], rt)
        if op in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            return None
        if op == 'memset':
            self.memset(st, a[0], a[1], a[2])
            return None
        if op in ('usub', 'uadd', 'ssub', 'sadd') and p[2] == 'sat':
            w = int(rt[1:])
            x, y = a
            if op == 'usub':
                return self.ite(self.icmp('ult', rt, x, y, st), 0, self.binop('sub', rt, x, y, None), rt)
            raise Unsupported(name)
        if op == 'ctlz':
            w = int(rt[1:])
            x = a[0]
            if isinstance(x, int):
                return w - x.bit_length()
            r = z3.BitVecVal(w, w)
            for k in range(w):
                r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(w - 1 - k, w), r)
            return r
        if op == 'is' and p[2] == 'fpclass':
            m = a[1]
            x = a[0]
            t = tys[0]
            out = False
            neg = self.dom.signbit(x)
            if m & 3 == 3:
                out = bor(out, self.dom.isnan(x))
                m &= ~3
            if m & 0x204 == 0x204:
                out = bor(out, self.dom.isinf(x))
                m &= ~0x204
            if m & 0x4:
                out = bor(out, band(self.dom.isinf(x), neg))
                m &= ~4
            if m & 0x200:
                out = bor(out, band(self.dom.isinf(x), bnot(neg)))
                m &= ~0x200
            if m & 0x60 == 0x60:
                out = bor(out, self.dom.iszero(x))
                m &= ~0x60
            if m & 0x1f8 == 0x198 and m & 0x60 == 0:
                out = bor(out, band(bnot(self.dom.isinf(x)), bnot(self.dom.isnan(x)),
                                    bnot(self.dom.iszero(x))))
                m &= ~0x1f8
            if m:
                raise Unsupported(f'is.fpclass mask {a[1]:#x} {t}')
            return out
        if op in ('sqrt', 'exp', 'log', 'pow', 'floor', 'ceil', 'trunc', 'round', 'fma', 'exp2', 'log2', 'log10', 'sin', 'cos'):
            return self.dom.call(op, a, rt)
        if op in ('rint', 'nearbyint', 'roundeven'):
            return self.dom.call('rint', a, rt)
        if op == 'fmuladd':
            return self.dom.bin('fadd', self.dom.bin('fmul', a[0], a[1], rt), a[2], rt)
        if op == 'expect':
            return a[0]
        if op == 'powi' and isinstance(a[1], int):
            k = sgn(a[1], 32)
            if not -8 <= k <= 8:
                raise Unsupported(name)
            one = self.dom.from_int(1, 32, True, rt)
            r = one
            for _ in range(abs(k)):
                r = self.dom.bin('fmul', r, a[0], rt)
            return r if k >= 0 else self.dom.bin('fdiv', one, r, rt)
        if op in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and p[2] == 'with':
            t = 'i' + p[-1][1:]
            w = int(t[1:])
            x, y = a
            r = self.binop({'add': 'add', 'sub': 'sub', 'mul': 'mul'}[op[1:]], t, x, y, None)
            if isinstance(x, int) and isinstance(y, int):
                fx, fy = (sgn(x, w), sgn(y, w)) if op[0] == 's' else (x, y)
                e = {'add': fx + fy, 'sub': fx - fy, 'mul': fx * fy}[op[1:]]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op[0] == 's' else (0, (1 << w) - 1)
                return (r, not lo <= e <= hi)
            bx, by = tobv(x, w), tobv(y, w)
            ext = (lambda v: z3.SignExt(w, v)) if op[0] == 's' else (lambda v: z3.ZeroExt(w, v))
            ex, ey = ext(bx), ext(by)
            e = {'add': lambda: ex + ey, 'sub': lambda: ex - ey, 'mul': lambda: ex * ey}[op[1:]]()
            return (r, z3.Not(e == ext(tobv(r, w))))
        if op in ('cttz', 'ctpop') and rt:
            w = int(rt[1:])
            x = a[0]
            if isinstance(x, int):
                return bin(x).count('1') if op == 'ctpop' else (w if x == 0 else (x & -x).bit_length() - 1)
            if op == 'ctpop':
                r = z3.BitVecVal(0, w)
                for k in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, x)) if w > 1 else x
                return r
            r = z3.BitVecVal(w, w)
            for k in reversed(range(w)):
                r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(k, w), r)
            return r
        if op in ('minnum', 'maxnum'):
            x, y = a
            lt = self.dom.fcmp('olt' if op == 'minnum' else 'ogt', x, y)
            r = self.dom.ite(lt, x, y)
            r = self.dom.ite(self.dom.isnan(y), x, r)
            return self.dom.ite(self.dom.isnan(x), y, r)
        if op == 'eh':
            return 0
        raise Unsupported('intrinsic ' + name)

    def libc(self, name, a, tys, rt, st):
        f = LIBM.get(name)
        if f is not None:
            return self.dom.call(f, a, rt)
        if name in ('fabs', 'fabsf', 'fabsl'):
            return self.fabs(a[0], rt, st)
        if name in ('malloc', 'calloc', '_Znwm', '_Znam', 'PyMem_RawMalloc', 'PyMem_Malloc'):
            n = a[0] if name != 'calloc' else self.binop('mul', 'i64', a[0], a[1], st)
            if not isinstance(n, int):
                raise Unsupported('allocation of symbolic size')
            oid = self.new_obj(st.mem, f'{name}({n})', n, 'heap',
                               init='zero' if name == 'calloc' else 'undef')
            return mkptr(oid)
        if name in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'PyMem_RawFree', 'PyMem_Free'):
            for g, base, off in a[0].alts:
                if base is None:
                    continue
                o = self.getobj(st, base)
                if o.kind != 'heap' or not (isinstance(off, int) and off == 0):
                    self.oblige('bad-free', st, g, f'free of {o.name}+{off} ({o.kind})')
                elif g is True:
                    o = st.wobj(base)
                    o.kind = 'freed'
            return None
        if name == 'PyGILState_Ensure':
            return 0
        if name == 'PyGILState_Release':
            return None
        if name in ('PyErr_SetString', 'PyErr_NoMemory'):
            self.raised.append(pc_conds(st.pc))
            return mkptr(None) if rt == 'ptr' else None
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            return a[0]
        if name == 'memset':
            self.memset(st, a[0], a[1], a[2])
            return a[0]
        if name in ('creal', 'crealf', 'creall', 'cimag', 'cimagf', 'cimagl'):
            k = 1 if 'imag' in name else 0
            if len(a) == 1:
                return a[0][k]
            return a[k]
        if name in ('npy_half_to_float', 'npy_half_to_double'):
            h = self.dom.from_bits(a[0], 'half')
            return self.dom.convert(h, 'half', rt)
        if name in ('npy_float_to_half', 'npy_double_to_half'):
            return self.dom.to_bits(self.dom.convert(a[0], 'float' if 'float_' in name else 'double', 'half'), 'half')
        if name in ('cabs', 'cabsl', 'cabsf', 'npy_cabs', 'npy_cabsl', 'npy_cabsf'):
            return self.dom.call('hypot', self.cparts(st, a), rt)
        if name in ('clog', 'clogf', 'npy_clog', 'npy_clogf'):
            ty = 'float' if name.endswith('f') else 'double'
            re, im = self.cparts(st, a)
            return (self.dom.call('log', [self.dom.call('hypot', [re, im], ty)], ty),
                    self.dom.call('atan2', [im, re], ty))
        if name in ('__divsc3', '__divdc3', '__mulsc3', '__muldc3'):
            ty = 'float' if name.endswith('sc3') else 'double'
            return tuple((self.dom.cdiv if 'div' in name else self.dom.cmul)(*a, ty))
        if name in ('fetestexcept', 'feclearexcept', 'feraiseexcept'):
            return 0
        raise Unsupported('external function ' + name)

    def cparts(self, st, a):
        """Real and imaginary part of a complex argument as the ABI passes it."""
        if len(a) == 2:
            return list(a)
        if isinstance(a[0], tuple):
            return list(a[0])
        return [self.load(st, a[0], 'x86_fp80'), self.load(st, self.padd(a[0], 16), 'x86_fp80')]

    def memcpy(self, st, d, s, n):
        if not isinstance(n, int):
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        if len(s.alts) != 1 or len(d.alts) != 1:
            raise Unsupported('memcpy through a symbolic pointer')
        _, sb, so = s.alts[0]
        _, db, do = d.alts[0]
        if sb is None or db is None:
            self.oblige('null-deref', st, True, 'memcpy with null')
            return
        if not isinstance(so, int) or not isinstance(do, int):
            raise Unsupported('memcpy with symbolic offset')
        so_, do_ = self.getobj(st, sb), self.getobj(st, db)
        if so < 0 or so + n > so_.size:
            self.oblige('oob-read', st, True, f'memcpy from {so_.name}[{so}:{so+n}] size {so_.size}')
            return
        if do < 0 or do + n > do_.size:
            self.oblige('oob-write', st, True, f'memcpy to {do_.name}[{do}:{do+n}] size {do_.size}')
            return
        cells = {}
        for off, c in so_.cells.items():
            if off >= so and off + c[0] <= so + n:
                cells[off - so + do] = c
            elif off < so + n and off + c[0] > so:
                raise Unsupported('memcpy splits a cell')
        if so_.init == 'zero':
            # materialise zero bytes where nothing is stored
            k = 0
            while k < n:
                x = [o for o in cells if o - do <= k < o - do + cells[o][0]]
                if x:
                    k = x[0] - do + cells[x[0]][0]
                else:
                    cells[do + k] = (1, 'i8', 0)
                    k += 1
        o = st.wobj(db)
        if o.ro:
            self.oblige('write-readonly', st, True, f'memcpy to read-only {o.name}')
            return
        if o.kind == 'array':
            k = do
            while k < do + n:
                if k in cells and k in o.cells and o.cells[k][0] == cells[k][0]:
                    k += cells[k][0]
                elif k in o.cells or self._covers(o, k, 1):
                    k += 1
                else:
                    # padding of an element (e.g. 6 bytes of an x86_fp80 slot)
                    k += 1
        for x in list(o.cells):
            c = o.cells[x]
            if x >= do and x + c[0] <= do + n:
                if x not in cells or cells[x][0] != c[0]:
                    del o.cells[x]
            elif x < do + n and x + c[0] > do:
                self._split(o, do, n)
        for x, c in cells.items():
            o.cells[x] = c

    def memset(self, st, d, v, n):
        if not isinstance(n, int):
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        if len(d.alts) != 1:
            raise Unsupported('memset through a symbolic pointer')
        _, db, do = d.alts[0]
        if db is None:
            self.oblige('null-deref', st, True, 'memset of null')
            return
        o = st.wobj(db)
        if do < 0 or do + n > o.size:
            self.oblige('oob-write', st, True, f'memset {o.name}[{do}:{do+n}] size {o.size}')
            return
        if not isinstance(v, int):
            raise Unsupported('memset with symbolic byte')
        k = do
        for x in sorted(o.cells):
            c = o.cells[x]
            if x >= do and x + c[0] <= do + n:
                if v == 0:
                    o.cells[x] = (c[0], c[1], self.zero(c[1]))
                else:
                    w = 'i' + str(8 * c[0])
                    bits = int.from_bytes(bytes([v & 255]) * c[0], 'little')
                    o.cells[x] = (c[0], w, bits)
            elif x < do + n and x + c[0] > do:
                raise Unsupported('memset splits a cell')
        del k
        if o.kind != 'array':
            for x in range(do, do + n):
                if not self._covers(o, x, 1):
                    o.cells[x] = (1, 'i8', v & 255)

    def concretize(self, st, v, w):
        """The unique value of v under the path condition, or Unsupported."""
        s = z3.simplify(v)
        if z3.is_bv_value(s):
            return s.as_long()
        self.sync()
        self.solver.push()
        for c in pc_conds(st.pc):
            self.solver.add(c)
        try:
            if self.solver.check() != z3.sat:
                raise Unsupported('concretize')
            x = self.solver.model().eval(v, model_completion=True).as_long()
            self.solver.add(v != x)
            if self.solver.check() != z3.unsat:
                raise Unsupported('value is not unique')
            return x
        finally:
            self.solver.pop()


def biffb(a, b):
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    if a.eq(b):
        return True
    return a == b


LIBM = {}
for _f in ('sqrt', 'exp', 'expm1', 'log', 'log1p', 'pow', 'sin', 'cos', 'asin', 'acos', 'atan2',
           'erfc', 'erf', 'lgamma', 'tgamma', 'hypot', 'fmod', 'floor', 'ceil', 'copysign', 'tanh',
           'nextafter', 'exp2', 'log2', 'log10', 'trunc', 'round', 'fma', 'fmin', 'fmax', 'tan', 'cbrt',
           'rint', 'nearbyint', 'roundeven', 'remainder', 'fdim', 'sinh', 'cosh', 'atan'):
    for _s in ('', 'f', 'l'):
        LIBM[_f + _s] = 'rint' if _f in ('nearbyint', 'roundeven') else _f
