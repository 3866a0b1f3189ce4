"""Runs the inner loop of a ufunc symbolically on a chosen shape and memory layout."""
import itertools
import re
import time
import z3
from . import registry
from .dom import FPDom, RealDom, Unsupported, FBITS, bnot, band, bor, b2z  # noqa: F401
from .engine import Executor, State, MObj, mkptr, NULL, UNDEF, pc_conds, mask  # noqa: F401

# type character -> (llvm element type, store size, itemsize, kind)
TC = {
    '?': ('i8', 1, 1, 'b'),
    'b': ('i8', 1, 1, 'i'), 'B': ('i8', 1, 1, 'u'),
    'h': ('i16', 2, 2, 'i'), 'H': ('i16', 2, 2, 'u'),
    'i': ('i32', 4, 4, 'i'), 'I': ('i32', 4, 4, 'u'),
    'l': ('i64', 8, 8, 'i'), 'L': ('i64', 8, 8, 'u'),
    'q': ('i64', 8, 8, 'i'), 'Q': ('i64', 8, 8, 'u'),
    'e': ('half', 2, 2, 'f'), 'f': ('float', 4, 4, 'f'), 'd': ('double', 8, 8, 'f'),
    'g': ('x86_fp80', 10, 16, 'f'),
    'F': ('float', 4, 8, 'c'), 'D': ('double', 8, 16, 'c'), 'G': ('x86_fp80', 10, 32, 'c'),
    'O': ('ptr', 8, 8, 'o'),
}


def parse_sig(sig, nin, nout):
    """'(n),()->(m)' -> (list of tuples per operand, ordered distinct symbolic dims)."""
    if sig is None:
        return [()] * (nin + nout), []
    ops = re.findall(r'\(([^)]*)\)', sig.replace(' ', ''))
    cores = [tuple(x for x in o.split(',') if x) for o in ops]
    dims = []
    for c in cores:
        for d in c:
            if d not in dims:
                dims.append(d)
    return cores, dims


class Operand:
    """Memory image of one operand."""
    __slots__ = ('tc', 'shape', 'outer', 'core', 'base', 'size', 'nloops')

    def offsets(self, l):
        """byte offsets (from the object start) of the flat core elements in loop l."""
        out = [self.base + l * self.outer]
        for n, s in zip(self.shape, self.core):
            out = [o + k * s for o in out for k in range(n)]
        return out


LAYOUTS = ('contig', 'strided', 'neg', 'axis0', 'bcast')


def layout(tc, shape, nloops, kind, is_out, idx=0):
    """Strides of operand number idx with core shape `shape` repeated nloops times."""
    item = TC[tc][2]
    o = Operand()
    o.tc, o.shape, o.nloops = tc, tuple(shape), nloops
    k = len(shape)
    core = [0] * k
    if kind in ('contig', 'neg', 'revin', 'bcast', 'bcastscalar'):
        s = item
        for j in range(k - 1, -1, -1):
            core[j] = s
            s *= max(shape[j], 1)
        outer = s
        if kind == 'neg':
            core = [-x for x in core]
            outer = -outer
        if kind == 'revin' and k:
            core[-1] = -core[-1]     # only the innermost dimension runs backwards
        if not is_out and (kind == 'bcast' or (kind == 'bcastscalar' and not shape)):
            outer = 0
    elif kind == 'strided':
        s = (2 + idx) * item         # a different stride for every operand
        for j in range(k - 1, -1, -1):
            core[j] = s
            s = s * max(shape[j], 1) + item
        outer = s if k else (3 + idx) * item
    elif kind == 'axis0':
        # the loop dimension varies fastest; core dims in Fortran order
        outer = item
        s = item * nloops
        for j in range(k):
            core[j] = s
            s *= max(shape[j], 1)
    elif kind == 'fortran':
        s = item
        for j in range(k):
            core[j] = s
            s *= max(shape[j], 1)
        outer = s
    elif kind == 'zerocore':
        # every core stride 0 (a broadcast input)
        if is_out:
            return layout(tc, shape, nloops, 'contig', True, idx)
        outer = item
    else:
        raise ValueError(kind)
    o.outer, o.core = outer, tuple(core)
    lo = hi = 0
    empty = any(n == 0 for n in shape)
    for n, st in list(zip(shape, core)) + [(nloops, outer)]:
        d = (n - 1) * st if n > 0 else 0
        lo += min(d, 0)
        hi += max(d, 0)
    o.base = -lo
    o.size = 0 if empty or nloops == 0 else hi - lo + item
    return o


class Run:
    """Result of one symbolic execution of a loop."""


def run_loop(modname, attr, types, dims, kind='contig', nloops=2, dom=None, values=None,
             init_out=None, inplace=None, timeout_ms=20000, max_iter=400, setup=None, fn=None,
             loop_data=None, seed=1, vtypes=None):
    """dims: {symbol: size}.  values(i, l, k, tc) may return a value for input element k of loop l
    of operand i (None: fresh symbol).  inplace: {output index: input index} aliasing."""
    info = registry.get(modname)
    uf = info.ufuncs[attr]
    fname = data = None
    for t, f, d in uf.loops:
        if t == types:
            fname, data = f, d
            break
    if fname is None:
        raise KeyError(f'{attr}: no loop {types}')
    cores, sym = parse_sig(uf.sig, uf.nin, uf.nout)
    dimval = {d: (int(d) if d.isdigit() else dims[d]) for d in sym}
    dom = dom or FPDom()
    types = vtypes or types
    ex = Executor(info.ex.mod, dom, timeout_ms=timeout_ms, max_iter=max_iter, seed=seed)
    registry.install_capi(ex)
    mem = {}
    # globals written by the module initialisation (API tables) keep their values; the others
    # are initialised afresh in this domain
    for oid, o in info.mem.items():
        mem[oid] = o
    for g, oid in info.ex.globals.items():
        if oid in mem and mem[oid].cells == info.ex.mem0[oid].cells:
            del mem[oid]
        else:
            ex.globals[g] = oid
    for oid, o in info.ex.mem0.items():
        if oid not in info.ex.globals.values():
            ex.mem0[oid] = o
    ex.n = itertools.count(max(list(info.mem) + list(info.ex.mem0) + [0]) + 1)
    st = State((), {}, mem)
    r = Run()
    r.ex, r.uf, r.types, r.fname, r.dims, r.kind, r.nloops = ex, uf, types, fname, dimval, kind, nloops
    r.dom = dom
    r.modname, r.attr = modname, attr
    if setup:
        setup(ex, st, r)
    r.ops = []
    r.vals = []       # inputs: per operand, per loop, flat list of values
    r.out0 = []
    ptrs = []
    r.objs = []
    for i in range(uf.nin + uf.nout):
        is_out = i >= uf.nin
        tc = types[i]
        shape = [dimval[d] for d in cores[i]]
        op = layout(tc, shape, nloops, kind[i] if isinstance(kind, (list, tuple)) else kind, is_out, i)
        r.ops.append(op)
        lt, ssz, item, knd = TC[tc]
        alias = inplace.get(i - uf.nin) if (inplace and is_out) else None
        if alias is not None:
            oid = r.objs[alias]
            r.ops[i] = op = r.ops[alias]
            mem[oid].ro = False
            r.objs.append(oid)
            r.out0.append(r.vals[alias])
            ptrs.append(mkptr(oid, op.base))
            continue
        oid = ex.new_obj(mem, f'{"out" if is_out else "in"}{i}', op.size, 'array', ro=not is_out)
        st.own.add(oid)
        o = mem[oid]
        vv = []
        for l in range(nloops):
            row = []
            for k, off in enumerate(op.offsets(l)):
                parts = 2 if knd == 'c' else 1
                have = o.cells.get(off)
                if have is not None:
                    row.append(have[2] if parts == 1 else (have[2], o.cells[off + item // 2][2]))
                    continue
                v = None
                if is_out:
                    v = init_out(i - uf.nin, l, k, tc) if init_out else None
                    nm = f'o{i - uf.nin}_{l}_{k}'
                else:
                    v = values(i, l, k, tc) if values else None
                    nm = f'x{i}_{l}_{k}'
                if v is None:
                    if knd == 'o':
                        raise Unsupported('object values need a provider')
                    if knd == 'b':
                        # NumPy bools are 0 or 1
                        b = z3.Bool(nm)
                        v = z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                    elif knd == 'c':
                        v = (dom.fresh(nm + 'r', lt), dom.fresh(nm + 'i', lt))
                    elif knd == 'f':
                        v = dom.fresh(nm, lt)
                    else:
                        v = fresh_int(ex, nm, tc)
                if parts == 2:
                    o.cells[off] = (ssz, lt, v[0])
                    o.cells[off + item // 2] = (ssz, lt, v[1])
                else:
                    o.cells[off] = (ssz, lt, v)
                row.append(v)
            vv.append(row)
        r.objs.append(oid)
        (r.out0 if is_out else r.vals).append(vv)
        ptrs.append(mkptr(oid, op.base))
    # args, dimensions, steps
    nargs = uf.nin + uf.nout
    a_args = ex.new_obj(mem, 'args', 8 * nargs, 'array')
    for i, p in enumerate(ptrs):
        mem[a_args].cells[8 * i] = (8, 'ptr', p)
    dl = [nloops] + [dimval[d] for d in sym]
    a_dims = ex.new_obj(mem, 'dimensions', 8 * len(dl), 'array', ro=True)
    for i, d in enumerate(dl):
        mem[a_dims].cells[8 * i] = (8, 'i64', d)
    sl = [op.outer for op in r.ops]
    for op in r.ops:
        sl += list(op.core)
    a_steps = ex.new_obj(mem, 'steps', 8 * len(sl), 'array', ro=True)
    for i, s in enumerate(sl):
        mem[a_steps].cells[8 * i] = (8, 'i64', s & mask(64))
    t0 = time.time()
    st, _ = ex.call(fname, [mkptr(a_args), mkptr(a_dims), mkptr(a_steps), data], st)
    r.t_exec = time.time() - t0
    r.st = st
    r.outs = []
    for j in range(uf.nout):
        i = uf.nin + j
        o = st.mem[r.objs[i]]
        op = r.ops[i]
        lt, ssz, item, knd = TC[types[i]]
        vv = []
        for l in range(nloops):
            row = []
            for off in op.offsets(l):
                if knd == 'c':
                    row.append((getcell(ex, st, o, off, lt), getcell(ex, st, o, off + item // 2, lt)))
                else:
                    row.append(getcell(ex, st, o, off, lt))
            vv.append(row)
        r.outs.append(vv)
    r.pc = pc_conds(st.pc)
    r.base = list(ex.assumptions)
    return r


def getcell(ex, st, o, off, lt):
    c = o.cells[off]
    return c[2] if c[1] == lt else ex.retype(c[2], c[1], lt)


def fresh_int(ex, nm, tc):
    lt = TC[tc][0]
    w = int(lt[1:])
    if ex.zimode:
        from .dom import ZI
        e = z3.Int(nm)
        sg = TC[tc][3] == 'i'
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        ex.assume(z3.And(e >= lo, e <= hi))
        return ZI(e, w, sg)
    return z3.BitVec(nm, w)
