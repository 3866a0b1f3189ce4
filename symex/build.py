"""Builds /repo's working tree and lowers its translation units to LLVM IR."""
import fcntl
import hashlib
import json
import os
import shlex
import subprocess
from concurrent.futures import ThreadPoolExecutor
from .llparse import Module

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
LLVM_LINK = '/usr/lib/llvm-18/bin/llvm-link'
SITE = '/repo/build/install/site'
VENV_PY = '/opt/venv/bin/python'
FLAGS = ['-w', '-S', '-emit-llvm', '-O1', '-fPIC', '-fno-vectorize', '-fno-slp-vectorize',
         '-fno-unroll-loops', '-ffp-contract=off', '-fno-builtin', '-DNDEBUG']


def tree_hash():
    h = hashlib.sha256()
    for top in ('src', 'tools', 'ufunclab', '_build_utils'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__', 'tests'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(REPO, 'meson.build'), 'rb') as fh:
        h.update(fh.read())
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


class Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


class BuildError(Exception):
    pass


_done = {}


def ensure_build():
    """Rebuild /repo when its sources changed since the last build recorded here."""
    if 'key' in _done:
        return _done['key']
    with Lock():
        key = tree_hash()
        mark = os.path.join(CACHE, 'built')
        have = open(mark).read().strip() if os.path.exists(mark) else ''
        stamp = os.path.join(REPO, 'build/install/.complete')
        cur = f'{key} {os.stat(stamp).st_mtime_ns}' if os.path.exists(stamp) else ''
        if not cur or cur != have:
            r = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError(r.stdout[-3000:])
            with open(mark, 'w') as f:
                f.write(f'{key} {os.stat(stamp).st_mtime_ns}')
        _done['key'] = key
    return key


def commands():
    """module name -> list of compile commands."""
    cc = json.load(open(os.path.join(REPO, 'build/compile_commands.json')))
    out = {}
    for c in cc:
        m = c['output'].split('/')
        name = [x for x in m if x.endswith('.p')][0].split('.')[0]
        out.setdefault(name, []).append(c)
    return out


def ir_path(key, name):
    return os.path.join(CACHE, 'ir-' + key, name + '.ll')


def compile_module(key, name, cmds):
    dst = ir_path(key, name)
    if os.path.exists(dst):
        return dst
    d = os.path.dirname(dst)
    os.makedirs(d, exist_ok=True)
    parts = []
    pid = os.getpid()
    for k, c in enumerate(cmds):
        a = shlex.split(c['command'])
        inc = [x for x in a if x.startswith(('-I', '-D', '-std'))]
        cl = 'clang++' if 'g++' in a[0] or c['file'].endswith(('.cxx', '.cpp')) else 'clang'
        o = f'{dst}.{pid}.{k}'
        r = subprocess.run([cl, *inc, *FLAGS, c['file'], '-o', o], cwd=c['directory'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(f'clang on {c["file"]}:\n{r.stdout[-2000:]}')
        parts.append(o)
    if len(parts) > 1:
        o = f'{dst}.{pid}.l'
        r = subprocess.run([LLVM_LINK, '-S', *parts, '-o', o], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout)
        for p in parts:
            os.unlink(p)
        parts = [o]
    os.rename(parts[0], dst)
    return dst


def prepare(names=None):
    """Compile the named extension modules (all by default) to IR; returns {name: path}."""
    key = ensure_build()
    cmds = commands()
    if names is None:
        names = [n for n in cmds if n != '_ufunc_inspector']
    with Lock():
        old = [x for x in os.listdir(CACHE) if x.startswith('ir-') and x != 'ir-' + key]
        if len(old) > 6:
            import shutil
            old.sort(key=lambda x: os.stat(os.path.join(CACHE, x)).st_mtime)
            for x in old[:-6]:
                shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        paths = list(ex.map(lambda n: compile_module(key, n, cmds[n]), names))
    return dict(zip(names, paths))


_mods = {}


def module(name):
    if name not in _mods:
        p = prepare([name])[name]
        with open(p) as f:
            _mods[name] = Module().load(f.read())
    return _mods[name]
