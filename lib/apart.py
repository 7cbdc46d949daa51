"""Runs functions in new interpreters with a given hash seed: another order of
sets and of addresses in memory. One interpreter for each seed is kept; every
request is run in a fork of it."""
import os
import pickle
import subprocess
import sys

from lib import env
from lib.core import Violation

_servers = {}

MAIN = '''
import os, sys
sys.path.insert(0, %(verif)r)
from lib import env
sys.argv[0] = 'apart'
from lib import apart
apart.serve(%(warm)r)
'''


def serve(warm):
    import importlib
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    env.import_hypothesis()
    env.import_meshless()
    importlib.import_module(warm).warm()
    keep = []
    while True:
        try:
            module, name, args = pickle.load(sys.stdin.buffer)
        except EOFError:
            os._exit(0)
        # what other requests leave behind in memory differs as well
        keep.append([object() for _ in range(hash(str(len(keep))) % 997)])
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    res = 'ok', getattr(importlib.import_module(module), name)(*args)
                except Violation as exc:
                    res = 'violation', str(exc)
                except BaseException as exc:
                    res = 'error', '%s: %s' % (type(exc).__name__, exc)
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            data = pickle.dumps(('error', 'no answer'))
        out.write(data)
        out.flush()


def run(seed, module, name, *args):
    """module.name(*args) in an interpreter with the hash seed"""
    key = os.getpid(), seed
    if key not in _servers:
        _servers[key] = subprocess.Popen(
            [sys.executable, '-B', '-c', MAIN % dict(verif=env.VERIF, warm=module)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            env=dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=''))
    p = _servers[key]
    pickle.dump((module, name, args), p.stdin)
    p.stdin.flush()
    kind, out = pickle.load(p.stdout)
    if kind == 'violation':
        raise Violation(out)
    if kind == 'error':
        raise RuntimeError('in another interpreter: ' + out)
    return out


def stop():
    for p in _servers.values():
        p.stdin.close()
    _servers.clear()
