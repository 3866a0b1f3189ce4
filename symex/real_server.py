"""Runs inside /opt/venv/bin/python: executes calls of the built package (replay of
counterexamples, concordance runs).  One JSON request per line; each request runs in a forked
child so that a crash is an observation, not the end of the server."""
import ctypes
import json
import os
import sys
import signal
sys.path.insert(0, '/repo/build/install/site')
import numpy as np  # noqa: E402

GUARD = 4096
DT = {'?': '?', 'b': 'b', 'B': 'B', 'h': 'h', 'H': 'H', 'i': 'i', 'I': 'I', 'l': 'l', 'L': 'L',
      'q': 'q', 'Q': 'Q', 'e': 'e', 'f': 'f', 'd': 'd', 'g': 'g', 'F': 'F', 'D': 'D', 'G': 'G'}


def get(modname, attr):
    import importlib
    m = importlib.import_module('ufunclab.' + modname)
    if not hasattr(m, attr):
        # moved to the package when it is imported
        import ufunclab
        return getattr(ufunclab, attr)
    return getattr(m, attr)


class Paged:
    """A block between two inaccessible pages, touching the one behind ('end') or before it ('start')."""

    def __init__(self, size, where):
        import mmap
        page = mmap.PAGESIZE
        body = -(-size // page) * page
        self.m = mmap.mmap(-1, body + 2 * page)
        self.keep = (ctypes.c_ubyte * (body + 2 * page)).from_buffer(self.m)
        a = ctypes.addressof(self.keep)
        libc = ctypes.CDLL(None, use_errno=True)
        libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        for q in (a, a + page + body):
            if libc.mprotect(q, page, 0) != 0:
                raise OSError('mprotect')
        self.addr = a + page + (body - size if where == 'end' else 0)


def buffers(req, guardbyte):
    bufs = []
    if req.get('page'):
        for op in req['ops']:
            if op.get('alias') is not None:
                bufs.append(bufs[op['alias']])
                continue
            p = Paged(op['size'], req['page'])
            ctypes.memmove(p.addr, bytes.fromhex(op['image']), op['size'])
            bufs.append(p)
        return bufs
    shared = {}
    for k, op in enumerate(req['ops']):
        if op.get('alias') is not None:
            bufs.append(bufs[op['alias']])
            continue
        size = op['size']
        b = (ctypes.c_ubyte * (size + 2 * GUARD))()
        ctypes.memset(b, guardbyte, size + 2 * GUARD)
        data = bytes.fromhex(op['image'])
        ctypes.memmove(ctypes.addressof(b) + GUARD, data, size)
        bufs.append(b)
    del shared
    return bufs


def check_guards(req, bufs, guardbyte):
    bad = []
    for k, (op, b) in enumerate(zip(req['ops'], bufs)):
        raw = bytes(b)
        size = op['size']
        if raw[:GUARD] != bytes([guardbyte]) * GUARD or raw[GUARD + size:] != bytes([guardbyte]) * GUARD:
            bad.append(f'operand {k}: bytes outside the array were written')
        if not op['is_out'] and op.get('alias') is None and \
                not any(o.get('alias') == k for o in req['ops']):
            if raw[GUARD:GUARD + size] != bytes.fromhex(op['image']):
                bad.append(f'operand {k}: an input was modified')
    return bad


def direct(req, guardbyte):
    uf = get(req['module'], req['attr'])
    addr = id(uf)
    i64 = ctypes.c_int64
    nin, nout, nargs = (ctypes.c_int * 3).from_address(addr + 16)
    funcs = ctypes.c_void_p.from_address(addr + 32).value
    data = ctypes.c_void_p.from_address(addr + 40).value
    ntypes = ctypes.c_int.from_address(addr + 48).value
    types = ctypes.c_void_p.from_address(addr + 64).value
    want = [np.dtype(DT[c]).num if c != 'O' else np.dtype('O').num for c in req['types']]
    idx = None
    for k in range(ntypes):
        row = list((ctypes.c_byte * nargs).from_address(types + k * nargs))
        if row == want:
            idx = k
            break
    assert idx is not None, 'loop not found'
    fp = ctypes.c_void_p.from_address(funcs + 8 * idx).value
    dp = ctypes.c_void_p.from_address(data + 8 * idx).value if data else None
    F = ctypes.PYFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)
    f = F(fp)
    bufs = buffers(req, guardbyte)
    args = (ctypes.c_void_p * nargs)(*[(b.addr if isinstance(b, Paged) else ctypes.addressof(b) + GUARD) + op['base']
                                       for b, op in zip(bufs, req['ops'])])
    dims = (i64 * len(req['dimlist']))(*req['dimlist'])
    steps = (i64 * len(req['steps']))(*req['steps'])
    f(ctypes.addressof(args), ctypes.addressof(dims), ctypes.addressof(steps), dp)
    return bufs


def public(req, guardbyte):
    uf = get(req['module'], req['attr'])
    bufs = buffers(req, guardbyte)
    arrs = []
    for op, b, tc in zip(req['ops'], bufs, req['types']):
        shape = tuple([req['nloops']] + op['shape'])
        strides = tuple([op['outer']] + op['core'])
        a = np.ndarray(shape, dtype=DT[tc], buffer=b, offset=GUARD + op['base'], strides=strides)
        arrs.append(a)
    n = uf.nin
    with np.errstate(all='ignore'):
        out = arrs[n:]
        r = uf(*arrs[:n], out=tuple(out), sig=tuple(DT[c] for c in req['types']), casting='unsafe')
    del r
    return bufs


def pycall(req):
    """Run a snippet; its variable `result` (JSON-able) is returned."""
    ns = {'np': np}
    exec(req['code'], ns)
    return ns.get('result')


def handle(req):
    if req['mode'] == 'py':
        return {'result': pycall(req)}
    f = direct if req['mode'] == 'direct' else public
    gb = req.get('guard', 0xA5)
    bufs = f(req, gb)
    if req.get('page'):
        return {'images': [], 'bad': []}
    bad = check_guards(req, bufs, gb)
    images = [bytes(b)[GUARD:GUARD + op['size']].hex() for b, op in zip(bufs, req['ops'])]
    return {'images': images, 'bad': bad}


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(req.get('timeout', 20))
            try:
                res = handle(req)
            except BaseException as e:
                res = {'exception': f'{type(e).__name__}: {e}'}
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            txt = f.read()
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            res = {'crash': signal.Signals(sig).name if sig != signal.SIGALRM else 'timeout'}
        elif not txt:
            res = {'crash': f'exit {status}'}
        else:
            res = json.loads(txt)
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
