"""gendot: composition of two inner loops"""
import builtins
import itertools
import json
import time
import types as pytypes
import numpy as np
import z3
from symex import registry, real, build
from symex.check import FnTask, solve, mkdom
from symex.dom import Unsupported, bnot
from symex.engine import Executor, State, mkptr, NULL, mask, tobv, pc_conds

MODULES = ['_gendot']
SRC = build.REPO + '/ufunclab/_gendot_wrap.py'
BOUNDS = ('vectors of length 0 to 3 (quick) / 6, two outer iterations; contiguous, strided, negative and broadcast layouts; the types of '
          'every pair of 18 product functions with 13 element-wise ones and all reductions of the package; element values opaque (any bits)')
ASSUME = ['the inner loops of the two functions are uninterpreted functions of their elements that read and write exactly the elements '
          'their types and steps name', 'malloc succeeds']
STUBS = ['inner loops', 'PyArg_ParseTupleAndKeywords', 'PyUFunc_FromFuncAndDataAndSignature']
PRODS = ('add subtract multiply divide minimum logical_and equal less hypot bitwise_and power copysign heaviside ldexp '
         'left_shift floor_divide arctan2 fmax').split()
SUMS = 'add multiply maximum logical_or bitwise_xor bitwise_and logical_and hypot logaddexp equal fmin power minimum'.split()
SIZES = {c: np.dtype(c).itemsize for c in '?bBhHiIlLqQefdgFDGmM'}
# (NumPy counts the padding of long double)
_tab = {}


def table():
    if not _tab:
        code = f'''
import ufunclab
result = {{}}
for n in {sorted(set(PRODS + SUMS))!r}:
    u = getattr(np, n)
    result['np.' + n] = dict(types=list(u.types), nin=u.nin, nout=u.nout, sig=u.signature, name=n,
                             ident=None if u.identity is None else repr(u.identity))
for n in sorted(set(ufunclab._name_to_module)):
    u = getattr(ufunclab, n)
    if isinstance(u, np.ufunc) and u.signature and u.nin == 1 and u.nout == 1 and u.signature.replace(' ', '').endswith('->()') \\
            and u.signature.replace(' ', '')[1:-5].isidentifier():
        result['ufunclab.' + n] = dict(types=list(u.types), nin=1, nout=1, sig=u.signature, name=n,
                             ident=None if u.identity is None else repr(u.identity))
'''
        r = real.py(code)
        if 'result' not in r:
            raise Unsupported('tables: ' + str(r))
        _tab.update(r['result'])
    return _tab


class StubUfunc:
    def __init__(self, key, d):
        self.key = key
        self.types, self.nin, self.nout, self.signature = d['types'], d['nin'], d['nout'], d['sig']
        self.ntypes = len(self.types)
        self.nargs = self.nin + self.nout
        i = d['ident']
        self.identity = None if i is None else i == 'True' if i in ('True', 'False') else float(i) if 'inf' in i or '.' in i else int(i)
        self.__name__ = d['name']
        self.__doc__ = ''


class FakeNp(pytypes.ModuleType):
    ufunc = StubUfunc

    def __getattr__(self, k):
        return getattr(np, k)


def wrapper(prod, sm):
    """Run the Python layer on the two functions -> arguments of _gendot, or the exception."""
    got = []
    mod = pytypes.ModuleType('ufunclab._gendot')
    mod._gendot = lambda *a, **k: got.append((a, k)) or 'gufunc'
    fake = {'numpy': FakeNp('numpy'), 'ufunclab._gendot': mod}

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            name = 'ufunclab' + ('.' + name if name else '')
        if name in fake:
            return fake[name]
        return __import__(name, globals, locals, fromlist, 0)
    b = dict(vars(builtins))
    b['__import__'] = imp
    ns = {'__builtins__': b, '__name__': 'ufunclab._gendot_wrap', '__file__': SRC, '__package__': 'ufunclab'}
    exec(compile(open(SRC).read(), SRC, 'exec'), ns)
    try:
        ns['gendot'](prod, sm)
    except ValueError as e:
        return e
    if not got:
        raise Unsupported('_gendot was not called')
    return got[0]


# ---------------------------------------------------------------- elements as tuples of words
def words(c):
    n = SIZES[c]
    if c in 'gG':
        return [(0, 8), (8, 2)] + ([(16, 8), (24, 2)] if c == 'G' else [])
    return [(8 * k, 8) for k in range(n // 8)] if n >= 8 else [(0, n)]


def rd(ex, st, p, c):
    return tuple(tobv(ex.load(st, ex.padd(p, o), f'i{8 * n}'), 8 * n) for o, n in words(c))


def wr(ex, st, p, c, v):
    for (o, n), w in zip(words(c), v):
        ex.store(st, ex.padd(p, o), f'i{8 * n}', w)


def apply(name, tys, out, args):
    """The uninterpreted function `name` of elements of types tys."""
    flat = [w for a in args for w in a]
    r = []
    for k, (o, n) in enumerate(words(out)):
        f = z3.Function(f'{name}:{k}', *[w.sort() for w in flat], z3.BitVecSort(8 * n))
        r.append(f(*flat))
    return tuple(r)


def i64(ex, st, p, k):
    v = ex.load(st, ex.padd(p, 8 * k), 'i64')
    if not isinstance(v, int):
        raise Unsupported('symbolic loop argument')
    return v - (1 << 64) if v >> 63 else v


def split(t):
    a, b = t.replace(' ', '').split('->')
    return a, b


def binary_loop(name, t):
    a, b = split(t)

    def h(ex, st, args):
        arr, dims, steps, data = args
        check_data(ex, st, data, name)
        n = i64(ex, st, dims, 0)
        s = [i64(ex, st, steps, k) if n > 1 else 0 for k in range(3)]
        p = [ex.load(st, ex.padd(arr, 8 * k), 'ptr') for k in range(3)]
        for k in range(n):
            x = rd(ex, st, ex.padd(p[0], (k * s[0]) & mask(64)), a[0])
            y = rd(ex, st, ex.padd(p[1], (k * s[1]) & mask(64)), a[1])
            wr(ex, st, ex.padd(p[2], (k * s[2]) & mask(64)), b, apply(name, a, b, [x, y]))
        return st, None
    return h


def reduce_loop(name, t):
    a, b = split(t)

    def h(ex, st, args):
        arr, dims, steps, data = args
        check_data(ex, st, data, name)
        n, m = i64(ex, st, dims, 0), i64(ex, st, dims, 1)
        s0 = i64(ex, st, steps, 0) if n > 1 else 0
        s1 = i64(ex, st, steps, 1) if n > 1 else 0
        c = i64(ex, st, steps, 2) if m > 1 else 0
        p, q = (ex.load(st, ex.padd(arr, 8 * k), 'ptr') for k in range(2))
        for l in range(n):
            xs = [rd(ex, st, ex.padd(p, (l * s0 + k * c) & mask(64)), a[0]) for k in range(m)]
            wr(ex, st, ex.padd(q, (l * s1) & mask(64)), b, apply(f'{name}/{m}', a, b, xs) if m else empty(name, b))
        return st, None
    return h


def empty(name, b):
    return tuple(z3.BitVec(f'{name}/0:{k}', 8 * n) for k, (o, n) in enumerate(words(b)))


def check_data(ex, st, data, name):
    want = ex.fndata[name]
    if data.alts[0][1:] != (want, 0):
        ex.wrong.append((pc_conds(st.pc), f'{name} is called with the data of another loop'))


# ---------------------------------------------------------------- the C module
def fresh_ex():
    info = registry.get('_gendot')
    ex = Executor(info.ex.mod, mkdom('opaque'), timeout_ms=5000, max_iter=600)
    registry.install_capi(ex)
    mem = dict(info.mem)
    for g, oid in info.ex.globals.items():
        ex.globals[g] = oid
        if oid not in mem:
            ex.mem0[oid] = info.ex.mem0[oid]
    for oid, o in info.ex.mem0.items():
        ex.mem0.setdefault(oid, o)
    ex.n = itertools.count(max(list(info.mem) + list(info.ex.mem0) + [0]) + 1)
    ex.fndata, ex.wrong = {}, []
    return info, ex, State((), {}, mem)


def entry(info, ex, st):
    """The C function behind _gendot: the first method of the module."""
    meths = ex.load(st, ex.padd(info.moddef, 64), 'ptr')
    return ex.load(st, ex.padd(meths, 8), 'ptr').alts[0][1][1]


def blob(ex, st, name, data):
    oid = ex.new_obj(st.mem, name, max(len(data), 1), 'array')
    for k, b in enumerate(bytes(data)):
        st.mem[oid].cells[k] = (1, 'i8', b)
    return mkptr(oid)


def cells(ex, st, name, size, items, ro=False):
    oid = ex.new_obj(st.mem, name, size, 'array', init='zero', ro=ro)
    for off, n, t, v in items:
        st.mem[oid].cells[off] = (n, t, v)
    return mkptr(oid)


def array(ex, st, name, a):
    if not (isinstance(a, np.ndarray) and a.flags.c_contiguous):
        raise Unsupported(f'{name} is not an array')
    it = a.itemsize
    oid = ex.new_obj(st.mem, name, max(a.nbytes, 1), 'array')
    for k, v in enumerate(a.ravel().tolist()):
        st.mem[oid].cells[k * it] = (it, f'i{8 * it}', int(v) & mask(8 * it))
    d = cells(ex, st, name + ' dims', 8 * max(a.ndim, 1), [(8 * k, 8, 'i64', n) for k, n in enumerate(a.shape)])
    s = cells(ex, st, name + ' strides', 8 * max(a.ndim, 1), [(8 * k, 8, 'i64', n) for k, n in enumerate(a.strides)])
    return cells(ex, st, name + ' object', 256, [(16, 8, 'ptr', mkptr(oid)), (24, 4, 'i32', a.ndim), (32, 8, 'ptr', d),
                                                 (40, 8, 'ptr', s)])


def ufunc(ex, st, u, tag):
    fs, ds = [], []
    for k, t in enumerate(u.types):
        nm = f'{tag}#{k}:{t}'
        ex.handlers[nm] = (binary_loop if u.nin == 2 else reduce_loop)(nm, t)
        fs.append((8 * k, 8, 'ptr', mkptr(('fn', nm))))
        d = ex.new_obj(st.mem, f'data of {nm}', 8, 'array')
        ex.fndata[nm] = d
        ds.append((8 * k, 8, 'ptr', mkptr(d)))
    n = len(u.types)
    return cells(ex, st, tag + ' ufunc', 256, [
        (16, 4, 'i32', u.nin), (20, 4, 'i32', u.nout), (24, 4, 'i32', u.nin + u.nout),
        (32, 8, 'ptr', cells(ex, st, tag + ' functions', 8 * n, fs)),
        (40, 8, 'ptr', cells(ex, st, tag + ' data', 8 * n, ds)), (48, 4, 'i32', n)])


def compose(prod, sm, args, kw):
    """Run the C constructor -> (executor, state, [(types, function, data)])"""
    info, ex, st = fresh_ex()
    objs = {id(prod): ufunc(ex, st, prod, 'prod'), id(sm): ufunc(ex, st, sm, 'sum')}
    vals = list(args)

    def parse(ex, st, a):
        fmt = registry.cstr(ex, st, a[2]).split(':')[0].replace('|', '').replace('$', '')
        names = []
        k = 0
        while True:
            p = ex.load(st, ex.padd(a[3], 8 * k), 'ptr')
            if p.alts[0][1] is None:
                break
            names.append(registry.cstr(ex, st, p))
            k += 1
        out = list(a[4:])
        for nm in names:
            v = kw[nm] if nm in kw else (vals.pop(0) if vals else None)
            c, fmt = fmt[0], fmt[1:]
            if c == 'O' and fmt[:1] == '!':
                fmt = fmt[1:]
                out.pop(0)
            dst = out.pop(0)
            if c == 's':
                ex.store(st, dst, 'ptr', blob(ex, st, nm, v.encode() + b'\0'))
            elif c == 'O':
                if id(v) not in objs:
                    objs[id(v)] = array(ex, st, nm, v)
                ex.store(st, dst, 'ptr', objs[id(v)])
            elif c in 'pi':
                ex.store(st, dst, 'i32', int(v))
            elif c in 'nl':
                ex.store(st, dst, 'i64', int(v) & mask(64))
            else:
                raise Unsupported('argument format ' + c)
        return st, 1
    for n in ('_PyArg_ParseTupleAndKeywords_SizeT', 'PyArg_ParseTupleAndKeywords', 'PyArg_ParseTuple', '_PyArg_ParseTuple_SizeT'):
        ex.handlers[n] = parse

    def strlen(ex, st, a):
        return st, len(registry.cstr(ex, st, a[0]).encode())

    def strcpy(ex, st, a):
        ex.memcpy(st, a[0], a[1], len(registry.cstr(ex, st, a[1]).encode()) + 1)
        return st, a[0]
    ex.handlers['strlen'] = strlen
    ex.handlers['strcpy'] = strcpy
    made = []

    def from_funcs(ex, st, a):
        funcs, data, types, ntypes, nin, nout = a[:6]
        sig = registry.cstr(ex, st, a[10])
        if (nin, nout, sig.replace(' ', '')) != (2, 1, '(n),(n)->()'):
            raise Unsupported('signature ' + sig)
        for k in range(ntypes):
            t = ''.join(registry.typechar(ex.load(st, ex.padd(types, 3 * k + j), 'i8')) for j in range(3))
            made.append((t, ex.load(st, ex.padd(funcs, 8 * k), 'ptr'), ex.load(st, ex.padd(data, 8 * k), 'ptr')))
        oid = ex.new_obj(st.mem, 'the gufunc', 512, 'heap', init='zero')
        return st, mkptr(oid)
    for k in (31, 42):
        ex.handlers[f'UFUNCAPI_{k}'] = from_funcs

    def fmt(ex, st, a):
        ex.raised.append(pc_conds(st.pc))
        return st, NULL
    ex.handlers['PyErr_Format'] = fmt
    st, r = ex.call(entry(info, ex, st), [NULL, NULL, NULL], st)
    return ex, st, made


LAYOUTS = {
    'contig': lambda c, n, L, k: (0, c * n, c),
    'strided': lambda c, n, L, k: (0, c * (2 * n + 1), 2 * c),
    'neg': lambda c, n, L, k: (c * (n * L - 1) if n else 0, -c * n, -c),
    'bcast': lambda c, n, L, k: (0, 0, c) if k == 0 else (0, c * n, c),
    'repeat': lambda c, n, L, k: (0, c, 0),
}


def same(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)])


def run_one(ex, st0, loop, pt, stt, names, n, L, lay, has_id, ident, S):
    """One symbolic run of a composed loop -> list of (conditions, what) that must be unsatisfiable."""
    t, fp, data = loop
    a, po = split(pt)
    so = split(stt)[1]
    st = st0.fork({})
    ex.obls, ex.raised, ex.wrong = [], [], []
    ins, ptrs, offs = [], [], []
    for k in range(2):
        c = SIZES[a[k]]
        base, outer, core = LAYOUTS[lay](c, n, L, k)
        pos = [[base + l * outer + j * core for j in range(n)] for l in range(L)]
        lo = min([0] + [p for r in pos for p in r])
        hi = max([1] + [p + c for r in pos for p in r])
        oid = ex.new_obj(st.mem, f'in{k}', hi - lo, 'array', ro=True)
        st.own.add(oid)
        rows = []
        for l in range(L):
            row = []
            for j in range(n):
                e = []
                for o, w in words(a[k]):
                    off = pos[l][j] + o
                    if off not in st.mem[oid].cells:
                        st.mem[oid].cells[off] = (w, f'i{8 * w}', z3.BitVec(f'x{k}_{off}', 8 * w))
                    e.append(st.mem[oid].cells[off][2])
                row.append(tuple(e))
            rows.append(row)
        ins.append(rows)
        ptrs.append(mkptr(oid, base))
        offs.append((outer, core))
    c = SIZES[so]
    base, outer, _ = {'neg': (c * (L - 1), -c, 0)}.get(lay, (0, c * (2 if lay == 'strided' else 1), 0))
    oid = ex.new_obj(st.mem, 'out', (L - 1) * abs(outer) + c, 'array')
    st.own.add(oid)
    for l in range(L):
        for o, w in words(so):
            st.mem[oid].cells[base + l * outer + o] = (w, f'i{8 * w}', z3.BitVec(f'o_{l}_{o}', 8 * w))
    ptrs.append(mkptr(oid, base))
    A = cells(ex, st, 'args', 24, [(8 * k, 8, 'ptr', p) for k, p in enumerate(ptrs)])
    D = cells(ex, st, 'dimensions', 16, [(0, 8, 'i64', L), (8, 8, 'i64', n)], ro=True)
    steps = [offs[0][0], offs[1][0], outer, offs[0][1], offs[1][1]]
    T = cells(ex, st, 'steps', 40, [(8 * k, 8, 'i64', v & mask(64)) for k, v in enumerate(steps)], ro=True)
    st, _ = ex.call(fp.alts[0][1][1], [A, D, T, data], st)
    base_c = list(ex.assumptions) + pc_conds(st.pc)
    bad = []
    for o in ex.obls:
        bad.append((list(ex.assumptions) + list(o.conds), f'{o.kind}: {o.info}'))
    for cs, what in ex.wrong:
        bad.append((list(ex.assumptions) + cs, what))
    S.obligations += len(ex.obls)
    nin = len(split(stt)[0])
    err = bool(ex.raised)
    if n == 0 and not has_id:
        if not err:
            bad.append((base_c, 'no elements and no identity: no exception'))
        return bad
    if err:
        for cs in ex.raised:
            bad.append((list(ex.assumptions) + cs, 'an exception is set'))
    for l in range(L if nin == 1 or so == po else 0):
        got = rd(ex, st, mkptr(oid, base + l * outer), so)
        if n == 0:
            want = ident
        else:
            p = [apply(names[0], a, po, [ins[0][l][j], ins[1][l][j]]) for j in range(n)]
            if nin == 1:
                want = apply(f'{names[1]}/{n}', po, so, p)
            else:
                want = p[0]
                for q in p[1:]:
                    want = apply(names[1], po * 2, so, [want, q])
        if want is not None:
            S.claims += 1
            bad.append((base_c + [z3.Not(same(got, want))], f'result {l} is not the reduction of the products'))
    # the inputs are read-only objects: an attempt to write them is an obligation; tmp is released
    for o2 in st.mem.values():
        if o2.kind == 'heap' and o2.name.startswith('malloc') and o2.id not in st0.mem:
            bad.append((base_c, f'{o2.name} is not released'))
    return bad


def expected_identity(ident, so):
    if ident is None:
        return None
    raw = np.zeros(SIZES[so], dtype='B')
    b = np.array([ident]).astype(np.dtype(so)).view('B')
    raw[:len(b)] = b
    if so in 'gG':
        pass
    return tuple(z3.BitVecVal(int.from_bytes(bytes(raw[o:o + n]), 'little'), 8 * n) for o, n in words(so))


SEEN = set()


def case(pk, sk, tier):
    def fn(res, seed):
        S = res.stats
        T = table()
        prod, sm = StubUfunc(pk, T[pk]), StubUfunc(sk, T[sk])
        call = wrapper(prod, sm)
        if isinstance(call, Exception):
            res.detail = f'rejected: {call}'
            return
        args, kw = call
        ex, st0, made = compose(prod, sm, args, kw)
        S.functions |= {f'_gendot:{f}' for f in ex.encoded} | {'ufunclab._gendot_wrap.gendot'}
        problems = [(o.conds, f'{o.kind}: {o.info} (constructor)') for o in ex.obls]
        tops = (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 6)
        lays = ('contig', 'strided', 'neg') if tier == 'quick' else tuple(LAYOUTS)
        have = set()
        for loop in made:
            t, fp, data = loop
            # the pair of loops this one stands for: those its data name
            ex.fndata_seen = None
            if t in have:
                continue            # NumPy takes the first loop of these types
            have.add(t)
            cand = None
            for i, pt in enumerate(prod.types):
                a, po = split(pt)
                if a != t[:2] or 'O' in pt:
                    continue
                for j, stt in enumerate(sm.types):
                    b, so = split(stt)
                    if b == po * sm.nin and so == t[2] and (cand is None or sm.nin == 2 and so == po != split(cand[3])[0][0]):
                        cand = (i, pt, j, stt)
            if cand is None:
                problems.append(([], f'loop {t}: no product and reduction have these types'))
                continue
            i, pt, j, stt = cand
            key = (pt, stt, sm.nin, sm.identity)
            names = (f'prod#{i}:{pt}', f'sum#{j}:{stt}')
            ns_ = tops if key not in SEEN else (3,)
            SEEN.add(key)
            ident = expected_identity(sm.identity, split(stt)[1])
            for n in ns_:
                for lay in (lays if n > 1 else lays[:1]):
                    bad = run_one(ex, st0, loop, pt, stt, names, n, 2, lay, sm.identity is not None, ident, S)
                    S.states += 1
                    for cs, what in bad:
                        self_check(S, res, cs, f'{t} n={n} {lay}: {what}', (pk, sk, t, pt, stt, n, lay), seed)
                        if res.status == 'violation':
                            return
        # every pair of loops that fits must be there
        for pt in prod.types:
            if 'O' in pt:
                continue
            a, po = split(pt)
            for stt in sm.types:
                b, so = split(stt)
                if b == po * sm.nin and 'O' not in stt and (sm.nin == 1 or so == po):
                    S.claims += 1
                    if a + so not in have:
                        problems.append(([], f'no loop {a}->{so}, though {pt} and {stt} fit'))
        S.instr += ex.ninstr
        for cs, what in problems:
            self_check(S, res, cs, what, (pk, sk, None, None, None, None, None), seed)
            if res.status == 'violation':
                return
        if sum(map(ord, pk + sk)) % 4 == 0 or tier != 'quick':
            w = {'pk': pk, 'sk': sk, 't': None, 'n': None}
            bad = replay(w)
            S.traces += 1
            if bad:
                res.status, res.detail, res.witness = 'violation', bad, {'call': w, 'observed': bad}
        if not res.detail:
            res.detail = f'{len(made)} loops'
            S.samples.append({'task': res.desc, 'loops': len(made)})
    return fn


def self_check(S, res, cs, what, w, seed):
    r, m = solve(cs, S, 20, seed)
    if r == z3.unsat:
        return
    w = dict(zip(('pk', 'sk', 't', 'pt', 'st', 'n', 'lay'), w))
    S.replays += 1
    bad = replay(w)
    if bad:
        res.status, res.detail, res.witness = 'violation', f'{what}: {bad}', {'what': what, 'call': w, 'observed': bad}
    else:
        res.status = 'inconclusive'
        res.detail = f'{what}: ' + ('not reproduced' if r == z3.sat else 'the solver gives no answer')


REPLAY = '''
import json, warnings
warnings.simplefilter('ignore')
w = json.loads(%r)
import ufunclab
def get(k):
    m, n = k.split('.')
    return getattr(np if m == 'np' else ufunclab, n)
P, R = get(w['pk']), get(w['sk'])
G = ufunclab.gendot(P, R)
rng = np.random.default_rng(3)
result = None
NS = [0, 1, 2, 3, 5, 64, 300000] if w['n'] is None else [w['n'], 2, 3, 5, 64, 300000]
def arr(c, n, kind):
    d = np.dtype(c)
    m = 2 * n + 1 if kind == 'strided' else n
    v = rng.integers(0, 2 if c == '?' else 5, size=(2, m))
    a = v.astype(d)
    if d.kind in 'fc': a = a + d.type(.5)
    if kind == 'strided': a = a[:, :2*n:2]
    if kind == 'neg': a = a[::-1, ::-1]
    if kind == 'bcast': a = np.broadcast_to(a[:1], (2, n))
    return a
with np.errstate(all='ignore'):
  def search():
    todo = []
    for pt in P.types:
        if 'O' in pt: continue
        a, po = pt.split('->')
        for st in R.types:
            b, so = st.split('->')
            if b == po * R.nin and 'O' not in st and (R.nin == 1 or so == po):
                todo.append((a, po, so))
    seen = set()
    for a, po, so in todo:
        if a + so in seen: continue
        seen.add(a + so)
        if 'M' in a or 'm' in a or a[0] == 'e' and a[1] == 'e' and False: continue
        if w['t'] is not None and a + so != w['t']: continue
        if a + '->' + so not in G.types:
            return f'no loop {a}->{so} in gendot({w["pk"]}, {w["sk"]})'
    for t in G.types:
        a, so = t.split('->')
        if 'M' in t or 'm' in t: continue
        if w['t'] is not None and a + so != w['t']: continue
        po = [p.split('->')[1] for p in P.types if p.split('->')[0] == a]
        po = [p for p in po if any(q == p * R.nin + '->' + so for q in R.types)]
        if not po:
            return f'gendot({w["pk"]}, {w["sk"]}) has a loop {t} that fits no pair of loops'
        po = po[0]
        for n in NS:
            if n > 1000 and w['t'] is None: continue
            for kind in ('contig', 'strided', 'neg', 'bcast'):
                x, y = arr(a[0], n, kind), arr(a[1], n, kind)
                xc, yc = x.copy(), y.copy()
                try:
                    got = G(x, y, sig=tuple(a + so))
                except ValueError as e:
                    if n == 0 and R.identity is None: continue
                    return f'gendot({w["pk"]}, {w["sk"]})[{t}] raises {e} for n = {n}'
                if n == 0:
                    if R.identity is None:
                        return f'gendot({w["pk"]}, {w["sk"]})[{t}] gives {got} for no elements, without an identity'
                    e = np.array([R.identity] * 2).astype(so)
                elif n > 1000:
                    continue
                else:
                    p = P(x, y, sig=tuple(a + po))
                    if R.nin == 1:
                        e = R(p, sig=(po, so))
                    else:
                        e = p[:, 0]
                        for k in range(1, n):
                            e = R(e, p[:, k], sig=(po, po, so))
                fl = np.dtype(so).kind in 'fc'     # (NumPy's SIMD loops may round differently)
                tol = float(np.finfo(so).eps) * 50 if fl else 0
                if not (np.allclose(got, e, rtol=tol, atol=0, equal_nan=True) if fl else np.array_equal(got, e)):
                    return f'gendot({w["pk"]}, {w["sk"]})[{t}] n = {n} {kind}: {got.tolist()} instead of {e.tolist()}'
                if not (np.array_equal(x, xc) and np.array_equal(y, yc)):
                    return f'gendot({w["pk"]}, {w["sk"]})[{t}] changes its input'
  result = search()
'''


def replay(w):
    r = real.py(REPLAY % json.dumps(w), timeout=60)
    if 'crash' in r:
        return f'gendot({w["pk"]}, {w["sk"]}) {w["t"] or ""}: the process ends with {r["crash"]}'
    if 'exception' in r:
        return None
    return r.get('result')


def tasks(tier):
    T = table()
    gs = sorted(k for k in T if k.startswith('ufunclab.'))
    out = []
    for p in PRODS:
        for s in ['np.' + s for s in SUMS] + gs:
            out.append(FnTask(f'gendot({p}, {s})', case('np.' + p, s, tier), budget=240))
    return out
