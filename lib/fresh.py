"""Runs functions in a process that has never called the code under test (only
imported it): a server, forked before the first case, forks a child for every
request. What the code keeps anywhere in its process cannot reach the result."""
import os
import pickle
import struct
import sys

from lib.core import Violation

_server = None


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('<Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def exactly(n):
        out = b''
        while len(out) < n:
            part = os.read(fd, n - len(out))
            if not part:
                raise EOFError
            out += part
        return out
    return pickle.loads(exactly(struct.unpack('<Q', exactly(8))[0]))


def _serve(r, w, warm):
    warm()
    while True:
        try:
            f, args = _recv(r)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    out = 'ok', f(*args)
                except Violation as exc:
                    out = 'violation', str(exc)
                except BaseException as exc:
                    out = 'error', '%s: %s' % (type(exc).__name__, exc)
                _send(w, out)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


def start(warm):
    """Forks the server of this process; `warm` imports what the requests need"""
    global _server
    if _server is not None and _server[0] == os.getpid():
        return
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    if os.fork() == 0:
        os.close(w1)
        os.close(r2)
        try:
            _serve(r1, w2, warm)
        finally:
            os._exit(1)
    os.close(r1)
    os.close(w2)
    _server = os.getpid(), w1, r2


def run(f, *args):
    """f(*args) in a fresh process (f: a function of a module)"""
    _send(_server[1], (f, args))
    kind, out = _recv(_server[2])
    if kind == 'violation':
        raise Violation(out)
    if kind == 'error':
        raise RuntimeError('in a fresh process: ' + out)
    return out
