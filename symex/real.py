"""Client of real_server.py."""
import json
import os
import subprocess
from . import build

_srv = {}


def request(req):
    pid = os.getpid()
    p = _srv.get(pid)
    if p is None or p.poll() is not None:
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME')}
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['OMP_NUM_THREADS'] = env['OPENBLAS_NUM_THREADS'] = '1'
        p = subprocess.Popen([build.VENV_PY, '-u', os.path.join(os.path.dirname(__file__), 'real_server.py')],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env,
                             stderr=subprocess.DEVNULL, cwd='/')
        _srv[pid] = p
    p.stdin.write(json.dumps(req) + '\n')
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        _srv.pop(pid, None)
        return {'crash': 'server died'}
    return json.loads(line)


def py(code, **kw):
    return request({'mode': 'py', 'code': code, **kw})
