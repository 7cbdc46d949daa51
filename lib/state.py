"""What a call may not change: settings of the process, and its arguments"""
import contextlib
import decimal
import gc
import hashlib
import locale
import logging
import os
import pickle
import random
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np


def digest(obj):
    return hashlib.sha1(pickle.dumps(obj)).hexdigest()


def process():
    import mpmath
    import sympy
    mask = os.umask(0o22)
    os.umask(mask)
    root = logging.getLogger()
    out = {
        'handling of floating point errors (numpy)': np.geterr(),
        'print options of numpy': repr(sorted(np.get_printoptions().items())),
        'random numbers of numpy': digest(np.random.get_state()),
        'random numbers': digest(random.getstate()),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'file mode mask': mask,
        'warning filters': list(warnings.filters),
        'showwarning': warnings.showwarning,
        'search path': list(sys.path),
        'streams': (sys.stdout, sys.stderr, sys.stdin),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'hooks': (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(), threading.excepthook),
        'decimal context': repr(decimal.getcontext()),
        'precision of mpmath': mpmath.mp.prec,
        'evaluation by sympy': repr(sorted(sympy.core.parameters.global_parameters.__dict__.items())),
        'locale': locale.setlocale(locale.LC_ALL),
        'signal handlers': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
        'garbage collection': (gc.isenabled(), gc.get_threshold()),
        'logging': (root.level, list(root.handlers), logging.root.manager.disable),
        'directory of temporary files': tempfile.tempdir,
        'number of threads': threading.active_count(),
        'open files': sorted(os.listdir('/proc/self/fd')) if os.path.isdir('/proc/self/fd') else None,
    }
    return out


def differences(a, b):
    return [k for k in a if a[k] != b[k]]


def freeze(x):
    """A copy of an argument to compare with later"""
    if isinstance(x, np.ndarray):
        return 'array', x.dtype.str, x.shape, x.tobytes()
    if isinstance(x, (list, tuple)):
        return type(x).__name__, tuple(freeze(v) for v in x)
    if isinstance(x, dict):
        return 'dict', tuple((freeze(k), freeze(v)) for k, v in x.items())
    return x


def laminate(lam):
    out = {}
    for k, v in sorted(vars(lam).items()):
        if isinstance(v, (int, float, str, np.ndarray, np.generic, type(None))):
            out[k] = freeze(v)
        elif k == 'plies':
            for i, ply in enumerate(v):
                for a, b in sorted(vars(ply).items()):
                    if isinstance(b, (int, float, str, np.ndarray, np.generic, type(None))):
                        out['ply %d %s' % (i, a)] = freeze(b)
    return out


def model(mod, lams):
    """Everything that the user gave to a model, but nothing that the
    calculations keep in it"""
    m = mod.mesh
    out = {'node ids': list(m.nodes), 'element ids': list(m.elements), 'edges': sorted(m.edges, key=repr)}
    for i, nd in m.nodes.items():
        out['coordinates of node %s' % i] = freeze(np.array(nd.xyz)), nd.nid
        out['laminate of node %s' % i] = id(nd.prop)
        out['edges of node %s' % i] = set(map(id, nd.edges))
        out['elements of node %s' % i] = set(nd.trias)
    for i, t in m.elements.items():
        out['nodes of element %s' % i] = list(map(id, t.nodes))
        out['laminate of element %s' % i] = id(t.prop)
        out['edges of element %s' % i] = list(map(id, t.edges))
    for k, e in m.edges.items():
        out['ends of edge %s' % (k,)] = id(e.n1), id(e.n2), list(map(id, e.nodes)), list(e.node_ids)
        out['elements of edge %s' % (k,)] = list(map(id, e.trias))
    for i, lam in enumerate(lams):
        for k, v in laminate(lam).items():
            out['%s of laminate %d' % (k, i)] = v
    return out


IMPORTS = ['warning filters', 'showwarning', 'search path', 'environment', 'logging', 'open files', 'number of threads',
           'directory of temporary files', 'garbage collection', 'signal handlers', 'locale']


@contextlib.contextmanager
def other_settings(seed):
    """Settings that are not the usual ones, so that a setting made for good
    shows each time"""
    import mpmath
    rnd = random.Random(seed)
    saved = (np.geterr(), np.get_printoptions(), mpmath.mp.prec, decimal.getcontext().prec, sys.getrecursionlimit(),
             sys.getswitchinterval(), list(warnings.filters), gc.get_threshold())
    np.seterr(**dict((k, rnd.choice(['ignore', 'warn'])) for k in ('divide', 'over', 'under', 'invalid')))
    np.set_printoptions(precision=rnd.randint(3, 12), threshold=rnd.randint(100, 2000), linewidth=rnd.randint(50, 200))
    mpmath.mp.prec = rnd.randint(60, 250)
    decimal.getcontext().prec = rnd.randint(20, 40)
    sys.setrecursionlimit(saved[4] + rnd.randint(1, 5000))
    sys.setswitchinterval(rnd.choice([0.004, 0.006]))
    warnings.filterwarnings('ignore', message='no such message %d' % rnd.randint(1, 10**6))
    gc.set_threshold(rnd.randint(500, 900), 10, 10)
    np.random.seed(rnd.randrange(2**31))
    random.seed(rnd.randrange(2**31))
    try:
        yield
    finally:
        np.seterr(**saved[0])
        np.set_printoptions(**saved[1])
        mpmath.mp.prec = saved[2]
        decimal.getcontext().prec = saved[3]
        sys.setrecursionlimit(saved[4])
        sys.setswitchinterval(saved[5])
        warnings.filters[:] = saved[6]
        getattr(warnings, '_filters_mutated', lambda: None)()
        gc.set_threshold(*saved[7])
