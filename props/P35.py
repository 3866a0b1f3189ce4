"""Loops over Python objects: results, references, exceptions"""
import json
import z3
from symex import real
from symex.check import FnTask, solve, mkdom
from symex.dom import Unsupported, band, bnot, bor, b2z
from symex.engine import Ptr, NULL, mkptr, pc_conds, tobv
from symex.harness import run_loop, parse_sig
from .shapes import all_ufuncs, NONEMPTY

MODULES = ['_all_same', '_cross', '_first', '_minmax', '_ordered', '_peaktopeak', '_searchsorted']
BOUNDS = ('core dimension 0 to 3 (quick) / 4, two outer iterations, contiguous / strided / negative / transposed layouts; every outcome '
          'of every comparison and arithmetic operation, failure at every one of them; output cells empty or holding references')
ASSUME = ['comparisons that do not fail are those of some total order (any ranks, ties included); arithmetic is uninterpreted and gives a '
          'new object', 'op is one of the six codes', 'the callee neither changes the arrays nor sees them']
STUBS = ['PyObject_RichCompareBool', 'PyNumber_Multiply', 'PyNumber_Subtract', 'PyErr_*', '_Py_Dealloc']
R0 = 1000
OPS = {0: lambda a, b: a < b, 1: lambda a, b: a <= b, 2: lambda a, b: a == b, 3: lambda a, b: a != b,
       4: lambda a, b: a > b, 5: lambda a, b: a >= b}


class World:
    """The objects and what the stubs did."""

    def __init__(self):
        self.ranks, self.names, self.new, self.errs, self.wrong, self.made, self.exc = {}, {}, {}, [], [], [], None

    def element(self, ex, mem, name):
        oid = ex.new_obj(mem, name, 16, 'object', init='zero')
        mem[oid].cells[0] = (8, 'i64', R0)
        self.ranks[oid] = z3.Int('rank_' + name)
        self.names[oid] = name
        return oid

    def pending(self, ex, st):
        return tobv(ex.load(st, mkptr(self.exc), 'i8'), 8) != 0

    def fails(self, ex, st, what):
        self.wrong.append((pc_conds(st.pc) + [self.pending(ex, st)], f'{what} is called while an exception is set'))
        e = z3.Bool(f'fail_{len(self.errs)}')
        self.errs.append(e)
        self.made.append(pc_conds(st.pc))
        old = tobv(ex.load(st, mkptr(self.exc), 'i8'), 8)
        ex.store(st, mkptr(self.exc), 'i8', z3.If(e, z3.BitVecVal(1, 8), old))
        return e

    def rank(self, st, p, what):
        out = None
        for g, oid, off in p.alts:
            if oid not in self.ranks or off != 0:
                self.wrong.append((pc_conds(st.pc) + [b2z(g)], f'{what} of something that is no element'))
                r = z3.IntVal(0)
            else:
                r = self.ranks[oid]
            out = r if out is None else z3.If(b2z(g), r, out)
        return out

    def install(self, ex):
        def cmp(ex, st, a):
            e = self.fails(ex, st, 'PyObject_RichCompareBool')
            x, y = self.rank(st, a[0], 'comparison'), self.rank(st, a[1], 'comparison')
            op = a[2]
            if isinstance(op, int):
                v = OPS[op](x, y) if op in OPS else None
                if v is None:
                    self.wrong.append((pc_conds(st.pc), f'comparison code {op}'))
                    v = z3.BoolVal(False)
            else:
                v = z3.BoolVal(False)
                for k, f in OPS.items():
                    v = z3.If(op == k, f(x, y), v)
                self.wrong.append((pc_conds(st.pc) + [z3.Not(z3.Or(*[op == k for k in OPS]))], 'comparison code out of range'))
            return st, z3.If(e, z3.BitVecVal(0xffffffff, 32), z3.If(v, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))

        def arith(name):
            def h(ex, st, a):
                e = self.fails(ex, st, name)
                for p in a[:2]:
                    for g, oid, off in p.alts:
                        if oid not in self.ranks and oid not in self.new:
                            self.wrong.append((pc_conds(st.pc) + [b2z(g)], f'{name} of something that is no object'))
                        elif oid in self.new:
                            rc = tobv(ex.load(st, mkptr(oid), 'i64'), 64)
                            self.wrong.append((pc_conds(st.pc) + [b2z(g), rc == 0], f'{name} of a released object'))
                oid = ex.new_obj(st.mem, f'{name} {len(self.new)}', 16, 'object', init='zero')
                st.own.add(oid)
                st.mem[oid].cells[0] = (8, 'i64', 1)
                self.new[oid] = (pc_conds(st.pc) + [z3.Not(e)], name, a[0], a[1])
                return st, Ptr([(e, None, 0), (z3.Not(e), oid, 0)])
            return h

        def occurred(ex, st, a):
            p = self.pending(ex, st)
            return st, Ptr([(p, self.exc, 0), (z3.Not(p), None, 0)])

        def seterr(ex, st, a):
            ex.store(st, mkptr(self.exc), 'i8', 2)
            return st, NULL

        def clear(ex, st, a):
            ex.store(st, mkptr(self.exc), 'i8', 0)
            return st, None

        def rc(d):
            def h(ex, st, a):
                for g, oid, off in a[0].alts:
                    if oid is None:
                        continue
                    v = tobv(ex.load(st, mkptr(oid), 'i64'), 64)
                    ex.store(st, mkptr(oid), 'i64', z3.If(b2z(g), v + d, v) if g is not True else v + d)
                return st, None
            return h
        h = ex.handlers
        h['PyObject_RichCompareBool'] = cmp
        h['PyNumber_Multiply'] = arith('PyNumber_Multiply')
        h['PyNumber_Subtract'] = arith('PyNumber_Subtract')
        h['PyErr_Occurred'] = occurred
        h['PyErr_Clear'] = clear
        for n in ('PyErr_SetString', 'PyErr_Format', 'PyErr_NoMemory'):
            h[n] = seterr
        for n in ('Py_IncRef', '_Py_IncRef'):
            h[n] = rc(1)
        for n in ('Py_DecRef', '_Py_DecRef'):
            h[n] = rc(-1)
        for n in ('PyGILState_Ensure',):
            h[n] = lambda ex, st, a: (st, 0)
        for n in ('PyGILState_Release', '_Py_Dealloc'):
            h[n] = lambda ex, st, a: (st, None)


# ---------------------------------------------------------------- what the functions mean
def holds(p, oid):
    return bor(*[g for g, b, o in p.alts if b == oid])


def first_extreme(W, xs, up):
    """-> index (z3 Int) of the first element of extreme rank, its rank"""
    i, r = z3.IntVal(0), W.ranks[xs[0]]
    for k, x in enumerate(xs[1:], 1):
        c = W.ranks[x] > r if up else W.ranks[x] < r
        i, r = z3.If(c, z3.IntVal(k), i), z3.If(c, W.ranks[x], r)
    return i, r


def isidx(v, i):
    return z3.BV2Int(tobv(v, 64), True) == i


def is_extreme(W, p, xs, r):
    return bor(*[band(holds(p, x), W.ranks[x] == r) for x in set(xs)])


def rel(op, a, b):
    v = z3.BoolVal(False)
    for k, f in OPS.items():
        v = z3.If(tobv(op, 8) == k, f(a, b), v)
    return v


def tree(W, p, want):
    """The condition that p holds the object described by want: a function of an object id, or (name, want, want)."""
    if callable(want):
        return bor(*[band(g, want(b)) for g, b, o in p.alts if b in W.ranks])
    return bor(*[band(g, tree(W, W.new[b][2], want[1]), tree(W, W.new[b][3], want[2]))
                 for g, b, o in p.alts if b in W.new and W.new[b][1] == want[0]])


def det(a, b, c, d):
    """a*d - b*c"""
    return ('PyNumber_Subtract', ('PyNumber_Multiply', a, d), ('PyNumber_Multiply', b, c))


def leaf(oid):
    return lambda b: b == oid


def meaning(attr, W, ins, outs):
    """-> list of (label, condition) for one iteration"""
    xs = ins[0]
    if attr in ('argmin', 'argmax'):
        i, r = first_extreme(W, xs, attr == 'argmax')
        return [('position of the first extreme element', isidx(outs[0][0], i))]
    if attr == 'argminmax':
        return [('position of the first minimum', isidx(outs[0][0], first_extreme(W, xs, False)[0])),
                ('position of the first maximum', isidx(outs[0][1], first_extreme(W, xs, True)[0]))]
    if attr == 'minmax':
        return [('the minimum', is_extreme(W, outs[0][0], xs, first_extreme(W, xs, False)[1])),
                ('the maximum', is_extreme(W, outs[0][1], xs, first_extreme(W, xs, True)[1]))]
    if attr in ('min_argmin', 'max_argmax'):
        i, r = first_extreme(W, xs, attr == 'max_argmax')
        return [('the extreme element', is_extreme(W, outs[0][0], xs, r)), ('its first position', isidx(outs[1][0], i))]
    if attr == 'peaktopeak':
        a, b = first_extreme(W, xs, True)[1], first_extreme(W, xs, False)[1]
        return [('maximum minus minimum', tree(W, outs[0][0], ('PyNumber_Subtract', lambda o: W.ranks[o] == a, lambda o: W.ranks[o] == b)))]
    if attr in ('first', 'argfirst'):
        op, t = ins[1][0], W.ranks[ins[2][0]]
        hit = [rel(op, W.ranks[x], t) for x in xs]
        ok = []
        for k, x in enumerate(xs):
            here = z3.And(hit[k], *[z3.Not(h) for h in hit[:k]])
            got = holds(outs[0][0], x) if attr == 'first' else isidx(outs[0][0], k)
            ok.append((f'element {k} is the first match', z3.Implies(here, b2z(got))))
        got = holds(outs[0][0], ins[3][0]) if attr == 'first' else isidx(outs[0][0], -1)
        ok.append(('no match', z3.Implies(z3.Not(z3.Or(*hit)) if hit else z3.BoolVal(True), b2z(got))))
        return ok
    if attr == 'ordered':
        op = ins[1][0]
        want = z3.And(*[rel(op, W.ranks[a], W.ranks[b]) for a, b in zip(xs, xs[1:])])
        return [('every adjacent pair is in the order', tobv(outs[0][0], 8) == z3.If(want, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]
    if attr == 'all_same':
        want = z3.And(*[W.ranks[a] == W.ranks[xs[0]] for a in xs[1:]])
        return [('all elements are equal', tobv(outs[0][0], 8) == z3.If(want, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]
    if attr in ('searchsortedl', 'searchsortedr'):
        v = W.ranks[ins[1][0]]
        rs = [W.ranks[x] for x in xs]
        n = z3.Sum(*[z3.If(r < v if attr[-1] == 'l' else r <= v, 1, 0) for r in rs], z3.IntVal(0))
        srt = z3.And(*[a <= b for a, b in zip(rs, rs[1:])])
        return [('insertion point', z3.Implies(srt, isidx(outs[0][0], n)))]
    if attr == 'cross2':
        u, v = [leaf(o) for o in ins[0]], [leaf(o) for o in ins[1]]
        return [('u0*v1 - u1*v0', dets(W, outs[0][0], u[0], u[1], v[0], v[1]))]
    if attr == 'cross3':
        u, v = [leaf(o) for o in ins[0]], [leaf(o) for o in ins[1]]
        return [(f'component {k}', dets(W, outs[0][k], u[a], u[b], v[a], v[b])) for k, (a, b) in enumerate([(1, 2), (2, 0), (0, 1)])]
    raise Unsupported('no definition for ' + attr)


def dets(W, p, u0, u1, v0, v1):
    """u0*v1 - u1*v0 with the factors in this order"""
    return tree(W, p, det(u0, u1, v0, v1))


def run(mod, attr, types, dims, kind, given, nloops=2):
    W = World()

    def setup(ex, st, r):
        W.exc = ex.new_obj(st.mem, 'the exception', 8, 'array', init='zero')
        st.own.add(W.exc)
        st.mem[W.exc].cells[0] = (1, 'i8', 0)
        W.install(ex)
        W.ex, W.mem, W.own = ex, st.mem, st.own
        W.held = {}

    def values(i, l, k, tc):
        if tc != 'O':
            return None
        o = W.element(W.ex, W.mem, f'x{i}_{l}_{k}')
        W.own.add(o)
        return mkptr(o)

    def init_out(j, l, k, tc):
        if tc != 'O':
            return None
        if not given:
            return NULL
        o = W.element(W.ex, W.mem, f'old{j}_{l}_{k}')
        W.own.add(o)
        W.held[o] = 1
        return mkptr(o)
    r = run_loop(mod, attr, types, dims, kind, nloops, dom=mkdom('fp'), values=values, init_out=init_out, setup=setup)
    return W, r


def case(mod, attr, types, dims, kind, given, tier):
    def fn(res, seed):
        S = res.stats
        W, r = run(mod, attr, types, dims, kind, given)
        S.functions |= {f'{mod}:{f}' for f in r.ex.encoded}
        S.states += 1
        S.instr += r.ex.ninstr
        uf = r.uf
        base = list(r.base)
        ops = []
        for i in range(uf.nin):
            if types[i] == 'b':
                for row in r.vals[i]:
                    for v in row:
                        ops.append(z3.Or(*[tobv(v, 8) == k for k in OPS]))
        base += ops
        noerr = [z3.Not(e) for e in W.errs]
        todo = []
        for o in r.ex.obls:
            todo.append((base + list(o.conds), f'{o.kind}: {o.info}'))
        S.obligations += len(r.ex.obls)
        for cs, what in W.wrong:
            todo.append((base + list(cs), what))
        cells = [p for j in range(uf.nout) if types[uf.nin + j] == 'O' for row in r.outs[j] for p in row]
        for oid in list(W.ranks):
            have = tobv(r.ex.load(r.st, mkptr(oid), 'i64'), 64)
            n = z3.BitVecVal(R0 - W.held.get(oid, 0), 64)
            for p in cells:
                n = n + z3.If(b2z(holds(p, oid)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
            todo.append((base + r.pc + [have != n], f'references to {W.names[oid]}: the count does not match the cells that hold it'))
            S.claims += 1
        for oid, (pcs, name, a, b) in W.new.items():
            have = tobv(r.ex.load(r.st, mkptr(oid), 'i64'), 64)
            n = z3.BitVecVal(0, 64)
            for p in cells:
                n = n + z3.If(b2z(holds(p, oid)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
            todo.append((base + r.pc + list(pcs) + [have != n], f'references to the result of {name}: the count does not match the cells'))
            S.claims += 1
        flag = tobv(r.ex.load(r.st, mkptr(W.exc), 'i8'), 8)
        empty_ok = attr in ('first', 'argfirst', 'ordered', 'all_same', 'searchsortedl', 'searchsortedr')
        empty = 0 in dims.values() and not empty_ok
        if empty:
            todo.append((base + r.pc + [flag == 0], 'no exception for an empty argument'))
        else:
            todo.append((base + r.pc + noerr + [flag != 0], 'an exception is set though nothing failed'))
        for e, pcs in zip(W.errs, W.made):
            todo.append((base + r.pc + pcs + [e, flag == 0], 'a failure is not reported'))
        if not empty:
            for l in range(2):
                ins = [[p.alts[0][1] if types[i] == 'O' else p for p in r.vals[i][l]] for i in range(uf.nin)]
                outs = [r.outs[j][l] for j in range(uf.nout)]
                for label, c in meaning(attr, W, ins, outs):
                    todo.append((base + r.pc + noerr + [z3.Not(b2z(c))], label))
                    S.claims += 1
        q, _ = solve(base + r.pc + noerr, S, 20, seed)
        S.vacuity += 1
        if q != z3.sat:
            res.status, res.detail = 'inconclusive', 'no run without failures'
            return
        for cs, what in todo:
            q, m = solve(cs, S, 20, seed)
            if q == z3.unsat:
                continue
            S.replays += 1
            w = dict(mod=mod, attr=attr, dims=dims, types=types, kind=kind, given=given)
            bad = replay(w, m if q == z3.sat else None, W, r)
            if bad:
                res.status, res.detail, res.witness = 'violation', f'{attr} {what}: {bad}', {'what': what, 'call': w, 'observed': bad}
                return
            res.status = 'inconclusive'
            res.detail = f'{what}: ' + ('not reproduced' if q == z3.sat else 'the solver gives no answer')
        if res.status == 'ok':
            bad = replay(dict(mod=mod, attr=attr, dims=dims, types=types, kind=kind, given=given), None, W, r)
            S.traces += 1
            if bad:
                res.status, res.detail, res.witness = 'violation', f'{attr}: {bad}', {'observed': bad}
    return fn


REPLAY = '''
import json, sys, gc, itertools, random
w = json.loads(%r)
import ufunclab
F = getattr(ufunclab, w['attr'])
class Boom(Exception): pass
CALLS = [0, None]
def tick():
    CALLS[0] += 1
    if CALLS[0] - 1 == CALLS[1]:
        raise Boom('boom')
class V:
    def __init__(self, r, e=None): self.r, self.e = r, e
    def __lt__(a, b): tick(); return a.r < b.r
    def __le__(a, b): tick(); return a.r <= b.r
    def __eq__(a, b): tick(); return a.r == b.r
    def __ne__(a, b): tick(); return a.r != b.r
    def __gt__(a, b): tick(); return a.r > b.r
    def __ge__(a, b): tick(); return a.r >= b.r
    __hash__ = object.__hash__
    def __mul__(a, b): tick(); return V(a.r * b.r)
    def __sub__(a, b): tick(); return V(a.r - b.r)
LIVE = lambda: sum(isinstance(o, V) for o in gc.get_objects())
import operator
OPS = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]
def lay(shape, fill, kind):
    """array of shape (2, ...) of objects in the layout"""
    n = int(np.prod(shape))
    a = np.empty(shape, dtype=object)
    for k, i in enumerate(np.ndindex(*shape)): a[i] = fill(k)
    if kind == 'contig': return a
    if kind == 'neg':
        b = np.empty(shape, dtype=object); r = b[tuple(slice(None, None, -1) for _ in shape)]
        r[...] = a; return r
    b = np.empty([2 * s + 1 for s in shape], dtype=object)
    r = b[tuple(slice(0, 2 * s, 2) for s in shape)]
    r[...] = a
    return r
def meaning(row, op):
    a = w['attr']; x = [v.r for v in row[0]]
    if a == 'argmin': return [x.index(min(x))]
    if a == 'argmax': return [x.index(max(x))]
    if a == 'argminmax': return [[x.index(min(x)), x.index(max(x))]]
    if a == 'minmax': return [[min(x), max(x)]]
    if a == 'min_argmin': return [min(x), x.index(min(x))]
    if a == 'max_argmax': return [max(x), x.index(max(x))]
    if a == 'peaktopeak': return [max(x) - min(x)]
    if a in ('first', 'argfirst'):
        h = [k for k, v in enumerate(x) if OPS[op](v, row[2].r)]
        if a == 'first': return [row[0][h[0]]] if h else [row[3]]
        return [h[0] if h else -1]
    if a == 'ordered': return [all(OPS[op](p, q) for p, q in zip(x, x[1:]))]
    if a == 'all_same': return [all(p == x[0] for p in x)]
    if a == 'searchsortedl': return [sum(p < row[1].r for p in x)]
    if a == 'searchsortedr': return [sum(p <= row[1].r for p in x)]
    u, v = x, [q.r for q in row[1]]
    if a == 'cross2': return [u[0] * v[1] - u[1] * v[0]]
    return [[u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]]
def val(o):
    return o if w['attr'] == 'first' else o.r if isinstance(o, V) else o
def once(sets, op, at):
    """sets: ranks per operand and loop; -> problem or None"""
    ins = []
    for i, (core, data) in enumerate(sets):
        if data is None:
            ins.append(np.array([op, op], dtype=np.int8)); continue
        ins.append(lay((2,) + core, lambda k: V(data[k]), w['kind']))
    outs = []
    for j, (core, o) in enumerate(OUT):
        if o == 'O':
            outs.append(lay((2,) + core, (lambda k: V(-7)) if w['given'] else (lambda k: None), w['kind']))
        else:
            outs.append(np.zeros((2,) + core, dtype=o))
    watch = {}
    for a in ins + outs:
        if a.dtype == object:
            for i in np.ndindex(*a.shape):
                if isinstance(a[i], V): watch[id(a[i])] = a[i]
    cells = [(a, i) for a in outs if a.dtype == object for i in np.ndindex(*a.shape)]
    o = a = i = None
    gc.disable()
    before = {k: sys.getrefcount(v) - sum(c[0][c[1]] is v for c in cells) for k, v in watch.items()}
    live = LIVE()
    CALLS[0], CALLS[1] = 0, at
    err = None
    try:
        if w['given']: r = F(*ins, out=tuple(outs) if len(outs) > 1 else outs[0])
        else:
            r = F(*ins)
    except BaseException as e:
        err = type(e).__name__ + ': ' + str(e); e = None
        r = None
    CALLS[1] = None
    done = CALLS[0]
    if w['given']: r = None
    res = outs if w['given'] else None
    if not w['given'] and err is None:
        res = list(r) if isinstance(r, tuple) else [r]
        r = None
        res = [np.asarray(q, dtype=object) if not isinstance(q, np.ndarray) else q for q in res]
    rc = None
    held = (lambda v: sum(c[0][c[1]] is v for c in cells)) if w['given'] else (
        lambda v: sum(q[i] is v for q in (res or []) if q.dtype == object for i in np.ndindex(*q.shape)))
    for k, v in watch.items():
        now = sys.getrefcount(v) - held(v)
        if now != before[k]:
            return f'{now - before[k]:+d} references to an object after {err or "a call that succeeds"}', done
    new = {id(c[0][c[1]]) for c in cells if isinstance(c[0][c[1]], V) and id(c[0][c[1]]) not in watch}
    if w['given'] and LIVE() - live != len(new):
        return f'{LIVE() - live - len(new)} results of operations are never released after {err or "a call that succeeds"}', done
    if not w['given'] and err and LIVE() != live:
        return f'{LIVE() - live} objects are never released after {err}', done
    if at is None or done <= at:
        if err: return err, done
        for l in range(2):
            row = [None if d is None else (a[l] if a.ndim > 1 else a[l]) for a, (c, d) in zip(ins, sets)]
            e = meaning(row, op)
            g = [[val(q) for q in q[l]] if q.ndim > 1 else val(q[l]) for q in res]
            for x, y in zip(e, g):
                if not (x is y or (w['attr'] != 'first' and x == y)):
                    return f'gives {g} instead of {e} for ranks {sets} (op {op})', done
    elif err != 'Boom: boom':
        return f'call {at} raises Boom, the caller sees {err}', done
    return None, done
def search():
    rng = random.Random(5)
    tries = []
    given = w.get('ranks')
    if given: tries.append((given, w.get('op', 0)))
    for _ in range(30):
        tries.append(([None if o else [rng.randrange(3) for _ in range(2 * int(np.prod(c)))] for c, o in SHAPES], rng.randrange(6)))
    for ranks, op in tries:
        if w['attr'].startswith('search'):
            m = SHAPES[0][0][0]
            ranks = [sum([sorted(ranks[0][l * m:l * m + m]) for l in range(2)], [])] + ranks[1:]
        sets = [(c, d) for (c, o), d in zip(SHAPES, ranks)]
        at = None
        bad, n = once(sets, op, None)
        if bad: return bad
        for at in range(n):
            bad, _ = once(sets, op, at)
            if bad: return bad
SHAPES = [(tuple(c), o) for c, o in w['shapes']]
OUT = [(tuple(c), o) for c, o in w['outs']]
result = search()
'''


def replay(w, m, W, r):
    names, _ = parse_sig(r.uf.sig, r.uf.nin, r.uf.nout)
    cores = [[int(x) if x.isdigit() else r.dims[x] for x in c] for c in names]
    w = dict(w)
    w['shapes'] = [(cores[i], r.types[i] == 'b') for i in range(r.uf.nin)]
    w['outs'] = [(cores[r.uf.nin + j], r.types[r.uf.nin + j]) for j in range(r.uf.nout)]
    if 0 in r.dims.values() and w['attr'] in ('peaktopeak',):
        return None
    if m is not None:
        ranks, op = [], 0
        for i in range(r.uf.nin):
            if r.types[i] == 'b':
                ranks.append(None)
                v = m.eval(tobv(r.vals[i][0][0], 8), model_completion=True)
                op = v.as_long()
                continue
            row = []
            for l in range(2):
                for p in r.vals[i][l]:
                    row.append(m.eval(W.ranks[p.alts[0][1]], model_completion=True).as_long())
            ranks.append(row)
        w['ranks'], w['op'] = ranks, op if op in OPS else 0
    q = real.py(REPLAY % json.dumps(w), timeout=60)
    if 'crash' in q:
        return f'{w["attr"]}: the process ends with {q["crash"]}'
    if 'exception' in q:
        if 'VERIF_ALL' in __import__('os').environ:
            print(q)
        return None
    return q.get('result')


def tasks(tier):
    out = []
    for mod, attr, uf in all_ufuncs():
        for types, f, d in uf.loops:
            if 'O' not in types:
                continue
            if '(n)' in uf.sig or '(m)' in uf.sig:
                s = 'n' if '(n)' in uf.sig else 'm'
                low = 0 if attr == 'peaktopeak' else NONEMPTY.get(attr, 0)
                dims = [{s: k} for k in range(low, 4 if tier == 'quick' else 5)]
            else:
                dims = [{}]
            for dm in dims:
                top = all(v == max(list(x.values())[0] for x in dims) for v in dm.values()) if dm else True
                for kind in (['contig', 'strided', 'neg', 'axis0'] if top else ['strided']):
                    for given in ((False, True) if 'O' in types[uf.nin:] else (False,)):
                        nm = f'{attr}[{types}] {dm} {kind}' + (' over references' if given else '')
                        out.append(FnTask(nm, case(mod, attr, types, dm, kind, given, tier), budget=240))
    return out
