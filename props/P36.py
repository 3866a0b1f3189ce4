"""Python wrappers: bincount, convert_to_base, nextn_greater, nextn_less, one_hot"""
import json
import numpy as np
import z3
from symex import pysym, real, build
from symex.check import FnTask
from symex.dom import Unsupported
from symex.pysym import SInt, SArray, zi

MODULES = []
SRC = build.REPO + '/ufunclab/_wrapped.py'
BOUNDS = ('arrays of 0 to 3 (quick) / 4 dimensions, all sizes; axis in -8..8; all values of n, m and ndigits; all NumPy integer and '
          'float types, native and byte-swapped, for inputs and out; out given or not, with any shape')
ASSUME = ['NumPy is modelled: zeros, empty, max, broadcast_shapes, add, the operand axes and type resolution of a gufunc call '
          '(the resolution table is read from the built gufuncs)', 'out does not share memory with the inputs',
          'what the gufuncs compute is the subject of P12 to P14']
STUBS = ['_bincount', '_bincountw', '_convert_to_base', '_nextn_less', '_nextn_greater', '_one_hot']
INTS = 'b B h H i I l L'.split()
GU = {'_bincount': ('ufunclab._bincount', 'bincount', 'accumulate'), '_bincountw': ('ufunclab._bincount', 'bincountw', 'accumulate'),
      '_convert_to_base': ('ufunclab._convert_to_base', 'convert_to_base', 'store'),
      '_nextn_less': ('ufunclab._nextn', 'nextn_less', 'store'), '_nextn_greater': ('ufunclab._nextn', 'nextn_greater', 'store'),
      '_one_hot': ('ufunclab._one_hot', 'one_hot', 'store')}
ALL = list('?bBhHiIlLqQefdgFDG') + ['>i4', '>i8', '>f8', '>f4']
_tab = {}


def table():
    """Type resolution of the gufuncs, from the built package."""
    if _tab:
        return _tab
    code = f'''
import importlib, itertools
result = {{}}
ALL = {ALL!r}
for key, (mod, attr, kind) in {GU!r}.items():
    g = getattr(importlib.import_module(mod), attr)
    r = {{}}
    for casting in ('same_kind', 'unsafe', 'safe'):
      r[casting] = {{}}
      for c in itertools.product(ALL, repeat=g.nin):
        d = [np.dtype(x) for x in c]
        k = ','.join(x.str if x.char != 'g' else 'g' for x in d)
        try:
            r[casting][k] = [x.char for x in g.resolve_dtypes(tuple(d) + (None,) * g.nout, casting=casting)]
        except TypeError:
            r[casting][k] = None
    result[key] = [g.signature, list(g.types), r]
'''
    r = real.py(code)
    if 'result' not in r:
        raise Unsupported('type resolution: ' + str(r))
    _tab.update(r['result'])
    return _tab


def load():
    t = table()
    mods, gs = {}, {}
    import types
    for key, (mod, attr, kind) in GU.items():
        g = pysym.SGufunc(key, t[key][0], t[key][2], kind, t[key][1])
        gs[key] = g
        m = mods.setdefault(mod, types.ModuleType(mod))
        setattr(m, attr, g)
    return pysym.load(SRC, mods), gs


class Bad(Exception):
    pass


# ---- the property: validity and result of a call, over the symbolic arguments
def norm(n, a):
    return z3.If(a < 0, a + n, a)


def insert(shape, a, n):
    """z3 terms of shape with n inserted at (normalised) position a."""
    d = len(shape) + 1
    out = []
    for i in range(d):
        before = shape[i] if i < len(shape) else None
        after = shape[i - 1] if i > 0 else None
        if before is None and after is None:
            out.append(n)
        elif before is None:
            out.append(z3.If(a == i, n, after))
        elif after is None:
            out.append(z3.If(a == i, n, before))
        else:
            out.append(z3.If(a > i, before, z3.If(a == i, n, after)))
    return out


def removed(shape, a):
    return [z3.If(a > i, shape[i], shape[i + 1]) for i in range(len(shape) - 1)]


def at(shape, a):
    e = shape[-1]
    for i in reversed(range(len(shape) - 1)):
        e = z3.If(a == i, shape[i], e)
    return e


def bcast(p, q):
    """(condition, shape)"""
    n = max(len(p), len(q))
    p = [z3.IntVal(1)] * (n - len(p)) + list(p)
    q = [z3.IntVal(1)] * (n - len(q)) + list(q)
    ok = [z3.Or(a == b, a == 1, b == 1) for a, b in zip(p, q)]
    return z3.And(*ok) if ok else z3.BoolVal(True), [z3.If(a == 1, b, a) for a, b in zip(p, q)]


def eq_shape(p, q):
    if len(p) != len(q):
        return z3.BoolVal(False)
    return z3.And(*[zi(a) == zi(b) for a, b in zip(p, q)]) if p else z3.BoolVal(True)


class Case:
    """One function with fixed numbers of dimensions and types."""

    def __init__(self, func, dims, dts, out=None, outdt=None, extra=None):
        self.func, self.dims, self.dts, self.out, self.outdt, self.extra = func, dims, dts, out, outdt, extra
        self.vars = {}

    def name(self):
        a = ', '.join(f'{d}-d {t}' for d, t in zip(self.dims, self.dts))
        o = '' if self.out is None else f', out {self.out}-d {self.outdt}'
        return f'{self.func}[{a}{o}{", default m" if self.extra == "nom" else ""}]'

    def ints(self, name, n):
        v = [z3.Int(f'{name}{i}') for i in range(n)]
        self.vars[name] = v
        return v

    def build(self):
        """arguments, preconditions, validity, result shape, where the result must be exact"""
        f = self.func
        pre = []
        arrs = []
        for k, (d, t) in enumerate(zip(self.dims, self.dts)):
            sh = self.ints('xyz'[k], d)
            pre += [v >= 0 for v in sh]
            nm = 'xyz'[k]
            vals = None
            if np.dtype(t).kind in 'iu':
                lo, hi = z3.Int(nm + 'lo'), z3.Int(nm + 'hi')
                i = np.iinfo(np.dtype(t))
                pre += [lo >= int(i.min), hi <= int(i.max), lo <= hi]
                vals = (lo, hi)
                self.vars[nm + 'v'] = [lo, hi]
            arrs.append(SArray([SInt(v) for v in sh], t, ((nm,),), nm, vals))
        axis = z3.Int('axis')
        self.vars['axis'] = [axis]
        pre += [axis >= -8, axis <= 8]
        n = z3.Int('n')
        self.vars['n'] = [n]
        kw = {'axis': SInt(axis)}
        user = None
        if self.out is not None:
            osh = self.ints('out', self.out)
            pre += [v >= 0 for v in osh]
            user = SArray([SInt(v) for v in osh], self.outdt, (('user',),), 'out')
            kw['out'] = user
        shapes = [[v for v in self.vars['xyz'[k]]] for k in range(len(arrs))]
        if f == 'bincount':
            args = [arrs[0]]
            dx = len(shapes[0])
            ok = [z3.And(axis >= -dx, axis < dx)]
            a = norm(dx, axis)
            if self.extra == 'nom':
                hi = self.vars['xv'][1]
                m = z3.If(hi < 0, 0, hi + 1)
                pre += [m <= 70000] + [v > 0 for v in shapes[0]]
            else:
                m = n
                args.append(SInt(n))
                ok.append(n >= 0)
            if len(arrs) == 2:
                kw['weights'] = arrs[1]
                dw = len(shapes[1])
                ok.append(z3.And(axis >= -dw, axis < dw))
                if dx == 0 or dw == 0:
                    ok = [z3.BoolVal(False)]
                    shape = []
                else:
                    aw = norm(dw, axis)
                    ok.append(at(shapes[0], a) == at(shapes[1], aw))
                    c, bc = bcast(removed(shapes[0], a), removed(shapes[1], aw))
                    ok.append(c)
                    shape = insert(bc, norm(len(bc) + 1, axis), m)
            elif dx == 0:
                ok, shape = [z3.BoolVal(False)], []
            else:
                shape = [z3.If(a == i, m, v) for i, v in enumerate(shapes[0])]
        else:
            args = arrs + [SInt(n)]
            bc = shapes[0]
            ok = [n >= 0]
            if len(arrs) == 2:
                c, bc = bcast(shapes[0], shapes[1])
                ok.append(c)
            D = len(bc) + 1
            ok.append(z3.And(axis >= -D, axis < D))
            shape = insert(bc, norm(D, axis), n)
        if user is not None:
            ok.append(eq_shape(user.shape, shape))
        return args, kw, pre, z3.And(*ok), shape, user

    def token(self, loops, gname, ax):
        """What the gufunc must have been given."""

    def run(self, res, seed):
        S = res.stats
        ns, gs = load()
        S.functions |= {f'{SRC}:{n}' for n in (self.func, '_normalize_axis', '_shape_remove_axis', '_shape_insert_axis') if n in ns}
        S.functions.add('ufunclab._wrapped.' + self.func)
        args, kw, pre, ok, shape, user = self.build()
        gname = {'bincount': '_bincountw' if len(self.dims) == 2 else '_bincount', 'convert_to_base': '_convert_to_base',
                 'nextn_greater': '_nextn_greater', 'nextn_less': '_nextn_less', 'one_hot': '_one_hot'}[self.func]
        g = gs[gname]
        try:
            dts = g.resolve([np.dtype(t) for t in self.dts])
        except TypeError:
            dts = None
        if self.func == 'one_hot':
            dts = (np.dtype('l'), np.dtype('l'))        # every integer type; the result is 0 or 1
        self.cdts = dts
        typed = dts is not None and self.accepts()
        fn = ns[self.func]
        ex = pysym.Explorer(S, pre, seed=seed)
        reached = 0

        def call():
            # (arguments are built anew: a run may change them)
            a, k, *_ = self.build()
            self.kw = k
            return fn(*a, **k)
        for pc, kind, val in ex.run(call):
            if kind == 'raise':
                S.claims += 1
                if not typed:
                    continue
                if isinstance(val, (NameError, AttributeError, KeyError, AssertionError, RecursionError)):
                    what = f'raises {type(val).__name__}: {val}'
                    goal = z3.BoolVal(True)
                elif user is not None and not self.castable(dts):
                    continue
                else:
                    what = f'a valid call raises {type(val).__name__}: {val}'
                    goal = ok
                self.ask(S, res, pc, goal, what, seed)
            else:
                reached += 1
                S.claims += 4
                if not typed:
                    self.ask(S, res, pc, z3.BoolVal(True), 'accepts inputs of a type the function does not have', seed)
                    if res.status == 'violation':
                        return
                    continue
                self.ask(S, res, pc, z3.Not(ok), 'an invalid call returns', seed)
                if res.status == 'violation':
                    return
                if not isinstance(val, SArray):
                    self.ask(S, res, pc, z3.BoolVal(True), f'returns {type(val).__name__}', seed)
                    return
                self.ask(S, res, pc, z3.Not(eq_shape(val.shape, shape)), 'the shape of the result', seed)
                if res.status == 'violation':
                    return
                want = self.content(g, gname, pc, ex)
                if user is not None and val is not self.kw['out']:
                    self.ask(S, res, pc, z3.BoolVal(True), 'the result is not the array passed as out', seed)
                elif self.strip(val.content) != self.strip(want):
                    # (an empty result has no contents)
                    nonempty = z3.And([zi(v) > 0 for v in val.shape] + [v > 0 for k in 'xyz' for v in self.vars.get(k, ())])
                    self.ask(S, res, pc, nonempty,
                             f'the result holds {show(val.content)} instead of {show(want)}', seed)
                elif user is None and self.fresh(dts) not in (None, val.dtype):
                    self.ask(S, res, pc, z3.BoolVal(True), f'the type of the result is {val.dtype} instead of {self.fresh(dts)}', seed)
            if res.status == 'violation':
                return
            # the model and the package must agree on a member of the path
            if S.traces < 4 and (kind == 'return' or typed):
                self.concord(S, res, pc, seed)
                if res.status == 'violation':
                    return
        S.vacuity += reached
        if res.status == 'ok':
            res.detail = f'{ex.paths} paths'

    def concord(self, S, res, pc, seed):
        s = z3.Solver()
        s.set('timeout', 10000)
        s.set('random_seed', seed)
        for c in pc:
            s.add(c)
        for soft in ([v <= 5 for k, vs in self.vars.items() if k != 'axis' for v in vs], [v >= 2 for k in 'xyz' for v in self.vars.get(k, ())],
                     [self.vars['n'][0] >= 2]):
            s.push()
            s.add(*soft)
            if s.check() != z3.sat:
                s.pop()
        if s.check() != z3.sat:
            return
        w = self.concrete(s.model())
        if max([0] + [v for v in w['shapes'][0]] + [abs(w['n'] or 0)]) > 1000:
            return
        bad = replay(w)
        S.traces += 1
        if bad:
            res.status, res.detail = 'violation', f'observed, though the encoding allows it: {bad}'
            res.witness = {'what': 'concordance run', 'call': w, 'observed': bad}
        elif len(S.samples) < 1:
            S.samples.append({'task': self.name(), 'call': {k: v for k, v in w.items() if v is not None}})

    def guarded(self, res, seed):
        """run; when the source uses something the models lack, concrete calls before giving up"""
        try:
            self.run(res, seed)
        except Unsupported:
            import random
            rng = random.Random(seed)
            base = self.build() and {k: len(v) for k, v in self.vars.items()}
            for _ in range(60):
                sh = [[rng.choice([0, 1, 1, 2, 3]) for _ in range(d)] for d in self.dims]
                if len(sh) == 2 and rng.random() < .7:
                    sh[0] = (sh[1] + sh[0])[-len(sh[0]):] if sh[0] else []
                D = max(self.dims) + (self.func != 'bincount')
                n = rng.choice([0, 1, 3, 4, -1])
                w = {'func': self.func, 'dts': list(self.dts), 'shapes': sh, 'hi': 100, 'axis': rng.randint(-D - 1, D),
                     'n': None if self.extra == 'nom' else n, 'out': None, 'outdt': self.outdt}
                if self.out is not None:
                    a = w['axis'] % max(D, 1)
                    b = [1] * (max(self.dims) - len(sh[0])) + sh[0]
                    w['out'] = (b[:a] + [n] + b[a + (self.func == 'bincount'):]) if rng.random() < .8 else [3] * self.out
                    if min(w['out'] + [0]) < 0:
                        continue
                bad = replay(w)
                if bad:
                    res.status, res.detail = 'violation', bad
                    res.witness = {'what': 'concrete call (the source could not be encoded)', 'call': w, 'observed': bad}
                    return
            del base
            raise

    def strip(self, c):
        if self.func == 'bincount':
            # the sums are converted to the type of the result once
            ok = {str(np.dtype(self.outdt if self.out is not None else self.fresh(self.cdts)))}
            return tuple(sorted((t[-1] if t[0] == 'cast' and t[2] in ok and len(t) == 4 else t for t in c), key=repr))
        if self.func == 'one_hot':
            # zeros and ones fit every type (P13)
            c = tuple(t[-1] if t[0] == 'cast' else t for t in c)
            wrap = (('cast', 'uint64', 'int64', ('x',)),)
            return tuple(tuple(((('x',),), *q[1:]) if isinstance(q, tuple) and q and q[0] == wrap else q for q in t) for t in c)
        if self.func == 'convert_to_base' and not all(np.dtype(t) == np.uint64 for t in self.dts):
            # a digit is bounded by both arguments (P14), one of which fits int64
            return tuple(t[-1] if t[:3] == ('cast', 'uint64', 'int64') else t for t in c)
        return c

    def accepts(self):
        k = [np.dtype(t).kind for t in self.dts]
        if self.func in ('bincount', 'one_hot'):
            return k[0] in 'iu'
        if self.func.startswith('nextn'):
            return np.dtype(self.dts[0]).char in 'fdg'
        return True

    def castable(self, dts):
        """May the results be stored in out (without losing whole classes of values)?"""
        return np.can_cast(dts[-1], np.dtype(self.outdt), 'same_kind')

    def fresh(self, dts):
        if self.func == 'bincount':
            return np.dtype(self.dts[1]) if len(self.dts) == 2 else np.dtype(np.intp)
        if self.func == 'convert_to_base':
            return None if dts[-1] == np.uint64 else np.dtype(int)
        return np.dtype(self.dts[0])

    def content(self, g, gname, pc, ex):
        ins, outs = g.signature.replace(' ', '').split('->')
        axis = self.vars['axis'][0]
        # the normalised axes (the run has fixed them)
        m = ex.check()
        a = m.eval(axis, model_completion=True).as_long()
        nds = list(self.dims)

        def nz(n, core):
            return ((a + n if a < 0 else a),) if core else ()
        if self.func == 'bincount':
            D = max(self.dims)
            axes = [nz(d, True) for d in nds] + [nz(D, True)]
        else:
            D = max(self.dims) + 1
            axes = [() for d in nds] + [nz(D, True)]
        tok = (gname,) + tuple((((nm,),), ax) for nm, ax in zip('xyz'[:len(nds)], axes)) + (axes[-1],)
        if self.out is None:
            return (tok,)
        dts = self.cdts
        od = np.dtype(self.outdt)
        if g.kind == 'accumulate':
            return pysym.content_sum((('user',),), (tok,))
        if not np.can_cast(dts[-1], od, 'safe'):
            return (('cast', str(dts[-1]), str(od), tok),)
        return (tok,)

    def ask(self, S, res, pc, goal, what, seed):
        """Is there an input of this path that breaks the claim?  Small ones are tried first."""
        import time
        small = []
        for k, vs in self.vars.items():
            for v in vs:
                if k in ('x', 'y', 'z', 'out'):
                    small.append(v <= 4)
                elif k == 'n':
                    small.append(z3.And(v <= 5, v >= -3))
                elif k.endswith('v'):
                    small.append(v <= 300)
        r = None
        for extra in (small + [self.vars['n'][0] >= 3], small, []):
            s = z3.Solver()
            s.set('timeout', 20000)
            s.set('random_seed', seed)
            for c in pc + extra:
                s.add(c)
            s.add(goal)
            t0 = time.time()
            r = s.check()
            S.queries += 1
            S.qtime += time.time() - t0
            if r == z3.sat:
                S.sat += 1
                w = self.concrete(s.model())
                S.replays += 1
                bad = replay(w)
                if bad:
                    res.status = 'violation'
                    res.detail = f'{what}: {bad}'
                    res.witness = {'what': what, 'call': w, 'observed': bad}
                    return
                res.status = 'inconclusive'
                res.detail = f'{what}: not reproduced for {w}'
                continue
            if r == z3.unsat:
                S.unsat += 1
            else:
                S.unknown += 1
                res.status, res.detail = 'inconclusive', what + ': the solver gives no answer'
        # (the last query, without size limits, decides)

    def concrete(self, m):
        def ev(v):
            return m.eval(v, model_completion=True).as_long()
        v = {k: [ev(x) for x in vs] for k, vs in self.vars.items()}
        return {'func': self.func, 'dts': list(self.dts), 'shapes': [v['xyz'[k]] for k in range(len(self.dims))],
                'hi': v['xv'][1] if 'xv' in v else None, 'axis': v['axis'][0],
                'n': None if self.extra == 'nom' else v['n'][0], 'out': v.get('out') if self.out is not None else None,
                'outdt': self.outdt}


def show(c):
    return '+'.join(str(t[0]) for t in c) if c else 'zeros'


REPLAY = '''
import json, math, itertools, warnings
warnings.simplefilter('ignore')
w = json.loads(%r)
import ufunclab
F = getattr(ufunclab, w['func'])
rng = np.random.default_rng(5)
AX = np.exceptions.AxisError

def run():
    junk = [np.full(k, 77, dtype='B') for k in range(1, 200) for _ in range(4)]
    del junk
    arrs = []
    for k, (sh, dt) in enumerate(zip(w['shapes'], w['dts'])):
        if math.prod(sh) > 10**6:
            return None
        d = np.dtype(dt)
        if w['func'].startswith('nextn') or (w['func'] == 'bincount' and k == 1):
            v = rng.integers(1, 9, size=sh)
        elif w['func'] == 'convert_to_base' and d.kind in 'iu':
            top = int(np.iinfo(d).max)
            v = np.array([top - 1 - k2 for k2 in range(math.prod(sh))], dtype=object).reshape(sh) if k == 0 else \\
                np.array([max(top - k2, 2) for k2 in range(math.prod(sh))], dtype=object).reshape(sh)
            if not w.get('huge'):
                v = rng.integers(0, 100, size=sh) if k == 0 else rng.integers(2, 9, size=sh)
        else:
            hi = w['hi'] if w['func'] == 'bincount' and w['n'] is None else 4
            v = rng.integers(min(0, hi), hi + 1, size=sh)
            if w['func'] == 'bincount' and w['n'] is None and v.size:
                v = np.array(v); v.flat[0] = hi; v = np.minimum(v, hi)
        arrs.append(np.array(v).astype(d))
    kw = {'axis': w['axis']}
    n = w['n']
    user = None
    if w['out'] is not None:
        user = np.full(w['out'], 3).astype(w['outdt'])
        kw['out'] = user
    x = arrs[0]
    axis = w['axis']
    def norm(nd):
        if not -nd <= axis < nd:
            raise AX('axis')
        return axis %% nd
    # the expected result
    try:
        if w['func'] == 'bincount':
            if x.dtype.kind not in 'iu': raise ValueError
            m = max(int(x.max()) + 1, 0) if n is None else n
            if m < 0 or m > 10**6: raise ValueError
            xx = np.moveaxis(x, norm(x.ndim), -1)
            if len(arrs) == 2:
                ww = np.moveaxis(arrs[1], norm(arrs[1].ndim), -1)
                if xx.shape[-1] != ww.shape[-1]: raise ValueError
                bs = np.broadcast_shapes(xx.shape[:-1], ww.shape[:-1])
                xx = np.broadcast_to(xx, bs + xx.shape[-1:]); ww = np.broadcast_to(ww, bs + ww.shape[-1:])
                ty = arrs[1].dtype
            else:
                ww = np.ones(xx.shape, dtype=int); ty = np.dtype(np.intp)
            e = np.zeros(xx.shape[:-1] + (m,), dtype=object)
            for i in np.ndindex(xx.shape):
                if 0 <= int(xx[i]) < m:
                    e[i[:-1] + (int(xx[i]),)] += ww[i].item()
            want = np.moveaxis(e, -1, axis)
            if user is not None:
                if user.shape != want.shape: raise ValueError
                want = want + 3
        else:
            if n < 0 or n > 10**6: raise ValueError
            bs = np.broadcast_shapes(*[a.shape for a in arrs])
            a = [np.broadcast_to(q, bs) for q in arrs]
            e = np.zeros(bs + (n,), dtype=object)
            norm(e.ndim)
            for i in np.ndindex(bs):
                if w['func'] == 'convert_to_base':
                    k, b = int(a[0][i]), int(a[1][i])
                    for j in range(n):
                        e[i + (j,)] = k %% b; k //= b
                elif w['func'] == 'one_hot':
                    if x.dtype.kind not in 'iu': raise ValueError
                    for j in range(n): e[i + (j,)] = int(j == int(a[0][i]))
                else:
                    if x.dtype.char not in 'fdg': raise ValueError
                    v = a[0][i]
                    for j in range(n):
                        v = np.nextafter(v, v.dtype.type(np.inf if 'greater' in w['func'] else -np.inf)); e[i + (j,)] = v
            ty = x.dtype if w['func'] != 'convert_to_base' else np.dtype('l')
            if w['func'] == 'convert_to_base' and F.gufunc.resolve_dtypes((arrs[0].dtype, arrs[1].dtype, None))[-1] == np.dtype('L'):
                ty = None
            want = np.moveaxis(e, -1, axis)
            if user is not None and user.shape != want.shape: raise ValueError
        err = None
    except Exception as x_:
        err = x_
    args = list(arrs) if w['func'] != 'bincount' else [x]
    if n is not None: args.append(n)
    if w['func'] == 'bincount' and len(arrs) == 2: kw['weights'] = arrs[1]
    try:
        got = F(*args, **kw)
    except Exception as x_:
        if err is None:
            return f'{w}: raises {type(x_).__name__}: {x_}'
        if isinstance(x_, (NameError, AttributeError, KeyError, AssertionError, RecursionError)):
            return f'{w}: raises {type(x_).__name__}: {x_}'
        return None
    if err is not None:
        return f'{w}: returns an array of shape {getattr(got, "shape", None)}; the call is invalid'
    if not isinstance(got, np.ndarray):
        return f'{w}: returns {type(got)}' if want.ndim else None
    if user is not None and got is not user:
        return f'{w}: does not return out'
    if got.shape != want.shape:
        return f'{w}: shape {got.shape} instead of {want.shape}'
    ow = ty if user is None else user.dtype
    if ow is None:
        return None if got.tolist() == want.tolist() else f'{w}: {got.tolist()} instead of {want.tolist()}'
    if got.dtype != ow:
        return f'{w}: dtype {got.dtype} instead of {ow}'
    with np.errstate(all='ignore'):
        ref = want.astype(ow) if ow.kind != 'g' else want.astype(ow)
    if not np.array_equal(ref, got):
        return f'{w}: {got.tolist()} instead of {ref.tolist()}'
    return None
result = None
for t in range(8):
    w['huge'] = t %% 2
    result = run()
    if result: break
'''


def replay(w):
    r = real.py(REPLAY % json.dumps(w), timeout=60)
    if 'crash' in r:
        return f'{w}: the process ends with {r["crash"]}'
    if 'exception' in r:
        return None
    return r.get('result')


def tasks(tier):
    top = 3 if tier == 'quick' else 4
    cs = []
    outs_i = ['l', 'i', 'b', 'q', 'L', 'f', 'd', '>i8', '>i4']
    for d in range(top + 1):
        cs.append(Case('bincount', [d], ['l']))
        for od in range(max(d - 1, 0), d + 2):
            cs.append(Case('bincount', [d], ['i'], od, 'l'))
        cs.append(Case('nextn_greater', [d], ['d']))
        cs.append(Case('nextn_less', [d], ['d']))
        cs.append(Case('one_hot', [d], ['l']))
        for od in range(d, d + 3):
            cs.append(Case('nextn_greater', [d], ['d'], od, 'd'))
            cs.append(Case('nextn_less', [d], ['d'], od, 'd'))
            cs.append(Case('one_hot', [d], ['l'], od, 'l'))
    for t in list('bBhHiIlLqQ') + ['>i4', '>i8']:
        cs.append(Case('bincount', [1], [t], extra='nom'))
        cs.append(Case('bincount', [2], [t], extra='nom'))
        cs.append(Case('bincount', [1], [t]))
        cs.append(Case('one_hot', [1], [t]))
    for t in 'efdgFD':
        cs.append(Case('bincount', [1], [t]))
        cs.append(Case('nextn_greater', [1], [t]))
        cs.append(Case('nextn_less', [1], [t]))
        cs.append(Case('one_hot', [1], [t]))
        cs.append(Case('nextn_greater', [1], ['d'], 2, t))
        cs.append(Case('nextn_less', [0], ['g'], 1, t))
    for t in outs_i + ['F', 'h']:
        cs.append(Case('bincount', [1], ['b'], 1, t))
        cs.append(Case('bincount', [2], ['l'], 2, t))
        cs.append(Case('one_hot', [1], ['l'], 2, t))
        cs.append(Case('convert_to_base', [1, 0], ['l', 'l'], 2, t))
    for dx in range(top + 1):
        for dw in range(top + 1):
            if dx + dw <= (4 if tier == 'quick' else 6):
                cs.append(Case('bincount', [dx, dw], ['l', 'd']))
                cs.append(Case('bincount', [dx, dw], ['b', 'f'], max(dx, dw), 'f'))
                cs.append(Case('convert_to_base', [dx, dw], ['l', 'l']))
                cs.append(Case('convert_to_base', [dx, dw], ['i', 'l'], max(dx, dw) + 1, 'l'))
                if dx != dw:
                    cs.append(Case('bincount', [dx, dw], ['i', 'l'], min(dx, dw), 'l'))
                    cs.append(Case('convert_to_base', [dx, dw], ['b', 'h'], min(dx, dw) + 1, 'h'))
    for t in list('bBhHiIlLefdgFD') + ['>f8', '>f4', '>i8']:
        cs.append(Case('bincount', [1, 1], ['l', t]))
        cs.append(Case('bincount', [1, 1], ['h', t], extra='nom'))
        for o in ('b', 'l', 'f', 'd', 'D', '>f8', t):
            cs.append(Case('bincount', [1, 1], ['i', t], 1, o))
    for a in 'bBhHiIlLqQ':
        for b in ('bBiIlL' if tier == 'quick' else 'bBhHiIlLqQ'):
            cs.append(Case('convert_to_base', [1, 1], [a, b]))
        cs.append(Case('convert_to_base', [0, 0], [a, a], 1, a))
    seen, out = set(), []
    for c in cs:
        if c.name() not in seen:
            seen.add(c.name())
            out.append(FnTask(c.name(), c.guarded, budget=240))
    return out
