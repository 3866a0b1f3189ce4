"""Finds the ufuncs of an extension module by executing its PyInit function symbolically
(all inputs concrete, the CPython and NumPy C API stubbed)."""
from . import build
from .dom import FPDom
from .engine import (Executor, State, mkptr, Ptr, NULL, Unsupported)

NPY_CHARS = '?bBhHiIlLqQfdgFDGOSUVMme'   # NPY_TYPES 0..23 in order


def typechar(num):
    order = ['?', 'b', 'B', 'h', 'H', 'i', 'I', 'l', 'L', 'q', 'Q', 'f', 'd', 'g', 'F', 'D', 'G',
             'O', 'S', 'U', 'V', 'M', 'm', 'e']
    return order[num]


class UFunc:
    """One ufunc object: name, nin, nout, signature (or None), loops [(types, function, data)],
    process_core_dims function name or None, identity."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return f'UFunc({self.name},{self.sig},{[t for t, _, _ in self.loops]},{self.process})'


class PyModuleInfo:
    def __init__(self):
        self.ufuncs = {}      # attribute name -> UFunc
        self.consts = {}


def cstr(ex, st, p):
    if len(p.alts) != 1 or p.alts[0][1] is None:
        return None
    _, base, off = p.alts[0]
    o = ex.getobj(st, base)
    out = []
    while True:
        c = o.cells.get(off)
        b = c[2] if c else 0
        if b == 0:
            break
        out.append(b)
        off += 1
    return bytes(out).decode()


def make_executor(mod, dom=None, **kw):
    ex = Executor(mod, dom or FPDom(), **kw)
    return ex


def install_capi(ex, info=None, objs=None):
    """Stubs for the API used at module initialisation."""
    h = ex.handlers
    objs = {} if objs is None else objs
    tables = {}

    def pyobj(st, name, size=1024):
        oid = ex.new_obj(st.mem, name, size, 'heap', init='zero')
        o = st.mem[oid]
        o.cells[0] = (8, 'i64', 1000)
        return oid

    def h_import(ex, st, a):
        oid = pyobj(st, 'module object')
        return st, mkptr(oid)

    def h_attr(ex, st, a):
        oid = pyobj(st, 'attr object')
        # import_array() checks the type of the capsule
        st.mem[oid].cells[8] = (8, 'ptr', ex.global_ptr('PyCapsule_Type')
                                if 'PyCapsule_Type' in ex.mod.globals else NULL)
        nm = cstr(ex, st, a[1])
        objs[oid] = nm
        return st, mkptr(oid)

    def h_capsule(ex, st, a):
        oid = a[0].alts[0][1]
        nm = objs.get(oid)
        pre = {'_ARRAY_API': 'ARRAYAPI', '_UFUNC_API': 'UFUNCAPI'}.get(nm)
        if pre is None:
            raise Unsupported(f'capsule {nm}')
        if pre not in tables:
            t = ex.new_obj(ex.mem0, pre, 8 * 500, 'global')
            for k in range(500):
                ex.mem0[t].cells[8 * k] = (8, 'ptr', mkptr(('fn', f'{pre}_{k}')))
            tables[pre] = t
        return st, mkptr(tables[pre])

    def ret0(ex, st, a):
        return st, 0

    def retnull(ex, st, a):
        return st, NULL

    def h_modcreate(ex, st, a):
        if info is not None:
            info.moddef = a[0]
        return st, mkptr(pyobj(st, 'the module'))

    def dealloc(ex, st, a):
        return st, None

    for n in ('PyImport_ImportModule', 'PyImport_AddModule'):
        h[n] = h_import
    h['PyObject_GetAttrString'] = h_attr
    h['PyCapsule_GetPointer'] = h_capsule
    h['PyModule_Create2'] = h_modcreate
    h['_Py_Dealloc'] = dealloc
    h['Py_DecRef'] = dealloc
    h['Py_IncRef'] = dealloc
    h['PyErr_Occurred'] = retnull
    h['PyErr_Print'] = dealloc
    h['PyErr_Clear'] = dealloc
    h['PyErr_ExceptionMatches'] = ret0
    h['ARRAYAPI_0'] = lambda ex, st, a: (st, 0x02000000)       # GetNDArrayCVersion
    h['ARRAYAPI_210'] = lambda ex, st, a: (st, 1)              # GetEndianness: little
    h['ARRAYAPI_211'] = lambda ex, st, a: (st, 0x00000015)     # GetNDArrayCFeatureVersion
    if info is None:
        return

    pend = {}

    def h_ufunc(sigpos):
        def f(ex, st, a):
            funcs, data, types, ntypes, nin, nout, ident, name = a[:8]
            sig = cstr(ex, st, a[10]) if sigpos else None
            n = nin + nout
            loops = []
            for k in range(ntypes):
                fp = ex.load(st, ex.padd(funcs, 8 * k), 'ptr')
                dp = ex.load(st, ex.padd(data, 8 * k), 'ptr') if data.alts[0][1] is not None else NULL
                tc = ''.join(typechar(ex.load(st, ex.padd(types, k * n + j), 'i8')) for j in range(n))
                loops.append((tc, fp.alts[0][1][1], dp))
            oid = pyobj(st, 'ufunc ' + cstr(ex, st, name))
            u = UFunc(name=cstr(ex, st, name), nin=nin, nout=nout, sig=sig, loops=loops,
                      process=None, identity=ident, modname=ex.mod.name, doc=None)
            pend[oid] = u
            return st, mkptr(oid)
        return f
    h['UFUNCAPI_1'] = h_ufunc(False)
    h['UFUNCAPI_31'] = h_ufunc(True)
    h['UFUNCAPI_42'] = h_ufunc(True)

    def h_addobj(ex, st, a):
        nm = cstr(ex, st, a[1])
        oid = a[2].alts[0][1]
        info.added.append((nm, oid))
        return st, 0

    def h_addint(ex, st, a):
        v = a[2]
        info.consts[cstr(ex, st, a[1])] = v - (1 << 64) if v >> 63 else v
        return st, 0
    info.added = []
    info.pend = pend
    h['PyModule_AddObject'] = h_addobj
    h['PyModule_AddObjectRef'] = h_addobj
    h['PyModule_AddIntConstant'] = h_addint


def discover(name):
    mod = build.module(name)
    mod.name = name
    ex = make_executor(mod, max_iter=2000)
    info = PyModuleInfo()
    install_capi(ex, info)
    st = State((), {}, {})
    init = 'PyInit_' + name
    if init not in mod.functions:
        raise Unsupported('no ' + init)
    st, r = ex.call(init, [], st)
    for nm, oid in info.added:
        u = info.pend.get(oid)
        if u is None:
            continue
        for off, c in st.mem[oid].cells.items():
            if c[1] == 'ptr' and c[2] is not None and isinstance(c[2], Ptr):
                b = c[2].alts[0][1]
                if isinstance(b, tuple) and b[0] == 'fn' and not b[1].startswith('UFUNCAPI'):
                    u.process = b[1]
        u.attr = nm
        info.ufuncs[nm] = u
    info.ninstr = ex.ninstr
    # Global memory after initialisation (API tables): reused by loops that call the API.
    info.mem = {oid: o for oid, o in st.mem.items()}
    info.ex = ex
    return info


_cache = {}


def get(name):
    if name not in _cache:
        _cache[name] = discover(name)
    return _cache[name]
