"""Symbolic execution of the Python layer of the package.

The source of the module is read from /repo and executed by the Python interpreter itself with
symbolic integers in place of the axis, the sizes and the dimensions.  Every branch on a symbolic
value asks the solver which sides are possible; the run is repeated for each (depth first), so the
set of runs covers every value.  An index that must be a machine number is replaced by each of its
possible values in turn.  NumPy and the gufuncs are replaced by models that compute shapes and
record what is written where."""
import builtins
import types as pytypes
import numpy as np
import z3
from .dom import Unsupported


class Stop(BaseException):
    """The run cannot continue (infeasible)."""


class Explorer:
    cur = None

    def __init__(self, S, pre=(), max_paths=4000, seed=1):
        self.S, self.pre, self.max_paths, self.seed = S, list(pre), max_paths, seed
        self.paths = 0

    def check(self, extra=()):
        import time
        t0 = time.time()
        self.solver.push()
        for c in extra:
            self.solver.add(c)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.S.queries += 1
        self.S.qtime += time.time() - t0
        if r == z3.sat:
            self.S.sat += 1
        elif r == z3.unsat:
            self.S.unsat += 1
        else:
            self.S.unknown += 1
            raise Unsupported('the solver gives no answer')
        return m

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.pos
        self.pos += 1
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            if self.check([c]) is None:
                v = False
            else:
                v = True
                if self.check([z3.Not(c)]) is not None:
                    self.todo.append(self.prefix[:k] + [False])
            self.prefix.append(v)
        t = c if v else z3.Not(c)
        self.solver.add(t)
        self.pc.append(t)
        return v

    def pick(self, e):
        """Each possible value of e in turn."""
        for _ in range(64):
            e = z3.simplify(e)
            if z3.is_int_value(e):
                return e.as_long()
            # the candidate must be the same when the run is repeated
            k = self.npick
            self.npick += 1
            if k < len(self.hints):
                v = self.hints[k]
            else:
                v = self.check().eval(e, model_completion=True).as_long()
                self.hints.append(v)
            if self.decide(e == v):
                return v
        raise Unsupported('an index with too many values')

    def run(self, fn):
        """yield (path condition, kind, value) for every path of fn."""
        self.todo = [[]]
        hints = {(): []}
        while self.todo:
            self.prefix = self.todo.pop()
            self.pos = 0
            self.pc = []
            # candidates chosen by the run this one branches from
            self.hints = list(hints.pop(tuple(self.prefix), []))
            self.npick = 0
            self.solver = z3.Solver()
            self.solver.set('random_seed', self.seed)
            self.solver.set('timeout', 20000)
            for c in self.pre:
                self.solver.add(c)
            n0 = len(self.todo)
            Explorer.cur = self
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('too many paths')
            try:
                val = fn()
                kind = 'return'
            except Unsupported:
                raise
            except Exception as e:
                kind, val = 'raise', e
            for p in self.todo[n0:]:
                hints[tuple(p)] = list(self.hints)
            self.S.states += 1
            self.S.instr += self.pos
            yield list(self.pre) + self.pc, kind, val


def cur():
    return Explorer.cur


def zi(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SNum):
        return x.e
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, (bool, int, np.integer)):
        return z3.IntVal(int(x))
    raise Unsupported(f'integer expected: {type(x).__name__}')


def isint(x):
    return isinstance(x, (SInt, SNum, int, np.integer))


class SBool:
    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return cur().decide(self.c)

    def __invert__(self):
        return SBool(z3.Not(self.c))

    def __and__(self, o):
        return SBool(z3.And(self.c, zb(o)))

    def __or__(self, o):
        return SBool(z3.Or(self.c, zb(o)))
    __rand__, __ror__ = __and__, __or__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__


def zb(x):
    return x.c if isinstance(x, SBool) else z3.BoolVal(bool(x))


class SInt:
    """A Python integer."""

    def __init__(self, e):
        self.e = z3.simplify(e)

    def _bin(self, o, f):
        if isinstance(o, SNum):
            return NotImplemented
        if not isint(o):
            return NotImplemented
        return SInt(f(self.e, zi(o)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __neg__(self): return SInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SInt(z3.If(self.e < 0, -self.e, self.e))

    def __mod__(self, o):
        # Python's sign convention: that of the divisor
        if isint(o) and bool(SBool(zi(o) > 0)):
            return self._bin(o, lambda a, b: a % b)
        return NotImplemented

    def __floordiv__(self, o):
        if isint(o) and bool(SBool(zi(o) > 0)):
            return self._bin(o, lambda a, b: a / b)
        return NotImplemented

    def _cmp(self, o, f):
        if not isint(o):
            return NotImplemented
        return SBool(f(self.e, zi(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __hash__(self): return cur().pick(self.e).__hash__()
    def __bool__(self): return cur().decide(self.e != 0)
    def __index__(self): return cur().pick(self.e)
    __int__ = __index__
    def __repr__(self): return '<int>'
    __str__ = __repr__
    def __format__(self, spec): return '<int>'


class SNum:
    """A NumPy integer scalar: fixed width, wraps."""

    def __init__(self, e, dt):
        self.dtype = np.dtype(dt)
        self.e = z3.simplify(e)
        self.shape, self.ndim, self.size = (), 0, 1

    def _wrap(self, e, dt):
        i = np.iinfo(dt)
        n = int(i.max) - int(i.min) + 1
        return SNum((e - int(i.min)) % n + int(i.min), dt)

    def _bin(self, o, f):
        if isinstance(o, SNum):
            dt = np.result_type(self.dtype, o.dtype)
        elif isinstance(o, np.integer):
            dt = np.result_type(self.dtype, o.dtype)
        elif isinstance(o, (int, SInt)):
            dt = self.dtype        # NEP 50
            i = np.iinfo(dt)
            if not bool(SBool(z3.And(zi(o) >= int(i.min), zi(o) <= int(i.max)))):
                raise OverflowError('Python integer out of bounds')
        else:
            return NotImplemented
        if dt.kind not in 'iu':
            raise Unsupported('float scalar')
        return self._wrap(f(self.e, zi(o)), dt)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __neg__(self): return self._wrap(-self.e, self.dtype)

    _cmp = SInt._cmp
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = (SInt.__lt__, SInt.__le__, SInt.__gt__, SInt.__ge__,
                                                      SInt.__eq__, SInt.__ne__)
    __hash__, __bool__, __index__, __int__ = SInt.__hash__, SInt.__bool__, SInt.__index__, SInt.__index__
    __repr__ = __str__ = SInt.__repr__
    def __format__(self, spec): return '<int>'
    def item(self): return SInt(self.e)

    def astype(self, dt):
        return self._wrap(self.e, np.dtype(dt_of(dt)))


def dt_of(d):
    if d is SymInt or d is int:
        return np.dtype(int)
    if isinstance(d, SArray):
        return d.dtype
    return np.dtype(d)


class Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class SymInt(metaclass=Meta):
    """Stands for the builtin int."""

    def __new__(cls, x=0, *a):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SNum):
            return SInt(x.e)
        return int(x, *a)


class Flags:
    aligned = writeable = True
    behaved = carray = True

    def __getitem__(self, k):
        return True


class SArray:
    """Shape, type and an abstract of the contents: what has been stored or added."""
    __array_priority__ = 1e9

    def __init__(self, shape, dtype, content, name='', vals=None):
        self.shape = tuple(shape)
        self.dtype = np.dtype(dtype)
        self.content = content
        self.name = name
        self.flags = Flags()
        self.vals = vals            # (smallest, largest) as z3 integers

    ndim = property(lambda s: len(s.shape))

    @property
    def size(self):
        r = 1
        for v in self.shape:
            r = v * r
        return r

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        v = self.shape[0]
        return v if isinstance(v, int) else cur().pick(v.e)

    def _minmax(self, which, initial=None):
        if self.vals is None:
            raise Unsupported('value of an array')
        v = SNum(self.vals[which], self.dtype)
        empty = False
        for d in self.shape:
            if bool(SBool(zi(d) == 0)):
                empty = True
                break
        if empty:
            if initial is None:
                raise ValueError('zero-size array to reduction operation maximum which has no identity')
            return SNum(zi(initial), self.dtype)
        if initial is not None:
            a = zi(initial)
            e = v.e
            return SNum(z3.If(a > e, a, e) if which else z3.If(a < e, a, e), self.dtype)
        return v

    def max(self, initial=None):
        return self._minmax(1, initial)

    def min(self, initial=None):
        return self._minmax(0, initial)

    def astype(self, dt, copy=True, casting='unsafe', **kw):
        dt = dt_of(dt)
        if not copy and dt == self.dtype:
            return self
        if not np.can_cast(self.dtype, dt, casting):
            raise TypeError(f'Cannot cast from {self.dtype} to {dt}')
        return SArray(self.shape, dt, cast(self.content, self.dtype, dt), 'copy', self.vals)

    def copy(self, *a, **k):
        return SArray(self.shape, self.dtype, self.content, 'copy', self.vals)

    def __getitem__(self, k):
        if k is Ellipsis or k == () or k == slice(None):
            return self
        raise Unsupported('subscript of an array')

    def __setitem__(self, k, v):
        if not (k is Ellipsis or k == slice(None)):
            raise Unsupported('subscript of an array')
        store(self, v)

    def fill(self, v):
        store(self, v)

    def __iadd__(self, o):
        FakeNumpy.the.add(self, o, out=self, casting='same_kind')
        return self

    def __add__(self, o):
        return FakeNumpy.the.add(self, o)
    __radd__ = __add__

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def __eq__(self, o):
        raise Unsupported('comparison of arrays')
    __hash__ = object.__hash__

    def __repr__(self):
        return f'<array {self.name}>'

    def __getattr__(self, k):
        raise Unsupported(f'attribute {k} of an array')


def cast(content, a, b):
    """Contents after conversion from a to b."""
    if np.can_cast(a, b, 'safe'):
        return content
    return (('cast', str(np.dtype(a)), str(np.dtype(b))) + content,) if content else content


def content_sum(a, b):
    return tuple(sorted(a + b, key=repr))


def store(arr, v):
    if isinstance(v, SArray):
        arr.content = v.content
    elif isinstance(v, (int, float)) and v == 0:
        arr.content = ()
    else:
        arr.content = (('value', repr(v)),)


class FakeNumpy(pytypes.ModuleType):
    """numpy with models of what takes arrays; everything else is the real thing."""
    the = None

    def __init__(self, real):
        super().__init__('numpy')
        FakeNumpy.the = self
        self._real = real
        self.ndarray = SArray
        self.exceptions = real.exceptions

    def __getattr__(self, k):
        v = getattr(np, k)
        if isinstance(v, (type, np.dtype, dict, int, float, str)) or v is None:
            if isinstance(v, type) and issubclass(v, np.integer):
                return v
            return v
        return guard(k, v)

    # -- construction
    def _make(self, shape, dtype, content):
        if isint(shape):
            shape = (shape,)
        shape = tuple(shape)
        for d in shape:
            if not isint(d):
                raise TypeError('shape')
            if bool(SBool(zi(d) < 0)):
                raise ValueError('negative dimensions are not allowed')
        return SArray([d if isinstance(d, int) else SInt(zi(d)) for d in shape], dt_of(float if dtype is None else dtype), content, 'new')

    def zeros(self, shape, dtype=None, **k):
        return self._make(shape, dtype, ())

    def empty(self, shape, dtype=None, **k):
        return self._make(shape, dtype, (('uninitialised',),))

    def full(self, shape, fill_value, dtype=None, **k):
        a = self._make(shape, dtype, ())
        store(a, fill_value)
        return a

    def zeros_like(self, a, dtype=None, shape=None, **k):
        return self._make(a.shape if shape is None else shape, a.dtype if dtype is None else dtype, ())

    def empty_like(self, a, dtype=None, shape=None, **k):
        return self._make(a.shape if shape is None else shape, a.dtype if dtype is None else dtype, (('uninitialised',),))

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SArray):
            return x if dtype is None else x.astype(dtype, copy=False)
        if isinstance(x, SNum):
            return SArray((), x.dtype if dtype is None else dt_of(dtype), (('value', 'scalar'),), 'scalar', (x.e, x.e))
        if isinstance(x, SInt):
            return SArray((), int if dtype is None else dt_of(dtype), (('value', 'scalar'),), 'scalar', (x.e, x.e))
        raise Unsupported(f'asarray({type(x).__name__})')
    asanyarray = asarray

    def array(self, x, dtype=None, copy=True, **k):
        a = self.asarray(x, dtype)
        return a.copy() if copy and a is x else a

    def ascontiguousarray(self, x, dtype=None):
        return self.asarray(x, dtype)

    # -- facts
    def ndim(self, x):
        return x.ndim if isinstance(x, (SArray, SNum)) else 0

    def shape(self, x):
        return x.shape if isinstance(x, (SArray, SNum)) else ()

    def size(self, x):
        return x.size

    def iscomplexobj(self, x):
        return x.dtype.kind == 'c'

    def result_type(self, *a):
        return np.result_type(*[x.dtype if isinstance(x, (SArray, SNum)) else dt_of(x) for x in a])

    def promote_types(self, a, b):
        return np.promote_types(dt_of(a), dt_of(b))

    def can_cast(self, a, b, casting='safe'):
        return np.can_cast(a.dtype if isinstance(a, (SArray, SNum)) else dt_of(a), dt_of(b), casting)

    def dtype(self, x, *a):
        return dt_of(x)

    def issubdtype(self, a, b):
        return np.issubdtype(dt_of(a), b)

    def may_share_memory(self, a, b, *k):
        return a is b
    shares_memory = may_share_memory

    def max(self, x, initial=None, **k):
        if k:
            raise Unsupported('max with ' + ', '.join(k))
        return x.max(initial)
    amax = max

    def min(self, x, initial=None, **k):
        if k:
            raise Unsupported('min with ' + ', '.join(k))
        return x.min(initial)
    amin = min

    def broadcast_shapes(self, *shapes):
        out = ()
        for s in shapes:
            s = tuple(s)
            n = builtins.max(len(s), len(out))
            a = (1,) * (n - len(out)) + out
            b = (1,) * (n - len(s)) + s
            r = []
            for p, q in zip(a, b):
                if bool(SBool(zi(p) == zi(q))):
                    r.append(p)
                elif bool(SBool(zi(p) == 1)):
                    r.append(q)
                elif bool(SBool(zi(q) == 1)):
                    r.append(p)
                else:
                    raise ValueError('shape mismatch: objects cannot be broadcast to a single shape')
            out = tuple(r)
        return out

    def add(self, a, b, out=None, casting='same_kind', **k):
        if k:
            raise Unsupported('add with ' + ', '.join(k))
        if not (isinstance(a, SArray) and isinstance(b, SArray)):
            raise Unsupported('add of a scalar')
        shape = self.broadcast_shapes(a.shape, b.shape)
        dt = np.result_type(a.dtype, b.dtype)
        if isinstance(out, tuple):
            out, = out
        c = content_sum(a.content, b.content)
        if out is None:
            return SArray(shape, dt, c, 'new')
        if not np.can_cast(dt, out.dtype, casting):
            raise TypeError(f"Cannot cast ufunc 'add' output from {dt} to {out.dtype}")
        if not same_shape(out.shape, shape):
            raise ValueError('non-broadcastable output operand')
        out.content = c
        return out

    def copyto(self, dst, src, casting='same_kind', **k):
        if k:
            raise Unsupported('copyto with ' + ', '.join(k))
        if isinstance(src, SArray):
            if not np.can_cast(src.dtype, dst.dtype, casting):
                raise TypeError('Cannot cast')
            if not same_shape(dst.shape, src.shape):
                raise Unsupported('copyto with broadcasting')
        store(dst, src)


def has_sym(x):
    if isinstance(x, (SInt, SNum, SArray, SBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def guard(name, f):
    def g(*a, **k):
        if has_sym(a) or has_sym(list(k.values())):
            raise Unsupported(f'numpy.{name} of a symbolic value')
        return f(*a, **k)
    return g if callable(f) else f


def same_shape(a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if not bool(SBool(zi(p) == zi(q))):
            return False
    return True


class SGufunc:
    """Model of the call of a gufunc: operand axes, broadcasting, type resolution, output."""

    def __init__(self, name, sig, loops, kind, core):
        self.__name__ = name
        self.signature = sig
        self.loops = loops              # {input dtype strs: loop dtypes}
        self.kind = kind                # 'accumulate' or 'store'
        ins, outs = sig.replace(' ', '').split('->')
        self.ops = [tuple(t for t in s.split(',') if t) for s in
                    (ins + ',' + outs)[1:-1].split('),(')]
        self.nin = len(ins.split('),('))
        self.nout = len(outs.split('),('))
        self.types = core
        self.calls = []

    def resolve_dtypes(self, dts, casting='same_kind', **k):
        dts = tuple(dts)
        return self.resolve([dt_of(d) for d in dts[:self.nin]], casting)

    def resolve(self, dts, casting='same_kind'):
        key = ','.join(d.str if d.char != 'g' else 'g' for d in dts)
        if casting not in self.loops:
            raise Unsupported('casting=' + repr(casting))
        r = self.loops[casting][key]
        if r is None:
            raise TypeError(f"ufunc '{self.__name__}' not supported for the input types")
        return tuple(np.dtype(c) for c in r)

    def norm(self, n, a):
        if not isint(a):
            raise TypeError('axis must be an integer')
        e = zi(a)
        if not bool(SBool(z3.And(e >= -n, e < n))):
            raise np.exceptions.AxisError(f'axis out of bounds for {n}')
        return cur().pick(z3.If(e < 0, e + n, e))

    def __call__(self, *args, out=None, axes=None, axis=None, casting='same_kind', **kw):
        if kw:
            raise Unsupported('gufunc called with ' + ', '.join(kw))
        if len(args) > self.nin:
            if out is not None:
                raise TypeError('out given twice')
            args, out = args[:self.nin], args[self.nin]
        if isinstance(out, tuple):
            out, = out
        args = [FakeNumpy.the.asarray(a) for a in args]
        if len(args) != self.nin:
            raise TypeError('number of arguments')
        ops = list(args) + [out]
        ndist = len({t for o in self.ops for t in o})
        for o, ts in zip(args, self.ops):
            if o.ndim < len(ts):
                raise ValueError('does not have enough dimensions')
        if axis is not None:
            if axes is not None:
                raise TypeError('axis and axes')
            if ndist != 1:
                raise TypeError('axis can only be used with a single shared core dimension')
            axes = [(axis,) if ts else () for ts in self.ops]
        elif axes is None:
            axes = [tuple(range(-len(ts), 0)) for ts in self.ops]
        else:
            axes = list(axes)
            if len(axes) == self.nin and not any(self.ops[self.nin:]):
                axes += [()]
            if len(axes) != len(self.ops):
                raise ValueError('axes should be a list with an entry for all inputs and outputs')
            axes = [a if isinstance(a, tuple) else (a,) for a in axes]
        sizes, rest = {}, []
        bshape = ()
        for o, ts, ax in zip(args, self.ops, axes):
            if len(ax) != len(ts):
                raise ValueError('axes entry')
            nax = [self.norm(o.ndim, a) for a in ax]
            for t, a in zip(ts, nax):
                if t in sizes:
                    if not bool(SBool(zi(sizes[t]) == zi(o.shape[a]))):
                        raise ValueError('mismatch in core dimension')
                else:
                    sizes[t] = o.shape[a]
            r = tuple(d for i, d in enumerate(o.shape) if i not in nax)
            rest.append(r)
            bshape = FakeNumpy.the.broadcast_shapes(bshape, r)
        ts, ax = self.ops[-1], axes[-1]
        if len(ax) != len(ts):
            raise ValueError('axes entry')
        if out is None:
            for t in ts:
                if t not in sizes:
                    raise ValueError('output operand requires size of core dimension')
            raise Unsupported('gufunc without an output array')
        if out.ndim < len(ts):
            raise ValueError('output: not enough dimensions')
        nax = [self.norm(out.ndim, a) for a in ax]
        for t, a in zip(ts, nax):
            if t in sizes and not bool(SBool(zi(sizes[t]) == zi(out.shape[a]))):
                raise ValueError('mismatch in core dimension')
        r = tuple(d for i, d in enumerate(out.shape) if i not in nax)
        if not same_shape(r, bshape):
            # (numpy lets an output have further dimensions; the wrappers never need it)
            raise ValueError('non-broadcastable output operand')
        dts = self.resolve([a.dtype for a in args], casting)
        if not np.can_cast(dts[-1], out.dtype, casting):
            raise TypeError('Cannot cast ufunc output')
        tok = (self.__name__,) + tuple((a.content, tuple(self.norm(a.ndim, q) for q in p)) for a, p in zip(args, axes)) \
            + (tuple(nax),)
        if self.kind == 'accumulate':
            if out.dtype == dts[-1]:
                out.content = content_sum(out.content, (tok,))
            else:
                # the loop works on a temporary array that is not initialised
                out.content = (('uninitialised',), tok)
        else:
            t = (tok,)
            if not np.can_cast(dts[-1], out.dtype, 'safe'):
                t = (('cast', str(dts[-1]), str(out.dtype), tok),)
            out.content = t
        self.calls.append((args, out, axes))
        return out


class FakeOperator(pytypes.ModuleType):
    def __init__(self):
        super().__init__('operator')

    @staticmethod
    def index(x):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SNum):
            return SInt(x.e)
        if isinstance(x, SArray):
            raise TypeError('only integer scalar arrays')
        import operator
        return operator.index(x)

    def __getattr__(self, k):
        import operator
        return getattr(operator, k)


def load(path, modules):
    """Execute the module at path with its imports replaced -> namespace."""
    src = open(path).read()
    code = compile(src, path, 'exec')
    fnp = FakeNumpy(np)
    fake = dict(modules)
    fake['numpy'] = fnp
    fake['numpy.exceptions'] = np.exceptions
    fake['operator'] = FakeOperator()
    fake['math'] = SafeMath()

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            name = 'ufunclab' + ('.' + name if name else '')
        if name in fake:
            return fake[name]
        if name.split('.')[0] == 'ufunclab':
            raise Unsupported(f'import of {name}')
        return __import__(name, globals, locals, fromlist, 0)
    b = dict(vars(builtins))
    b['__import__'] = imp
    b['int'] = SymInt
    b['isinstance'] = sym_isinstance
    b['range'] = sym_range
    b['sum'] = lambda it, start=0: _sum(it, start)
    ns = {'__builtins__': b, '__name__': 'ufunclab._wrapped', '__file__': path}
    exec(code, ns)
    return ns


class SafeMath(pytypes.ModuleType):
    def __init__(self):
        super().__init__('math')

    def prod(self, it, start=1):
        for v in it:
            start = v * start
        return start

    def __getattr__(self, k):
        import math
        return guard(k, getattr(math, k))


def _sum(it, start):
    for v in it:
        start = start + v
    return start


def sym_range(*a):
    return range(*[cur().pick(x.e) if isinstance(x, (SInt, SNum)) else x for x in a])


def sym_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    for k in cs:
        if k in (int, SymInt) and isinstance(x, (int, SInt)):
            return True
        if isinstance(x, SNum) and isinstance(k, type) and issubclass(k, np.generic) and issubclass(x.dtype.type, k):
            return True
        if isinstance(k, type) and k is not SymInt and builtins.isinstance(x, k):
            return True
        if isinstance(x, SInt) and getattr(k, '__name__', '') in ('Integral', 'Number', 'Real', 'SupportsIndex'):
            return True
    return False


def line_functions(path):
    import ast
    return [n.name for n in ast.walk(ast.parse(open(path).read())) if isinstance(n, ast.FunctionDef)]
