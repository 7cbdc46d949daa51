"""Process set-up shared by every check: which meshless is imported, where
Hypothesis comes from, and a scratch working directory.

Imported before numpy/meshless by run.py and replay.py.
"""
import glob
import os
import sys
import tempfile
import types
import warnings
import zipfile

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ['MPLBACKEND'] = 'Agg'

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# no bytecode is written into /repo, and none found there is trusted: what is
# run is always the current source (third-party modules are loaded before)
sys.dont_write_bytecode = True
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import numpy  # noqa
    import scipy.spatial  # noqa
    import scipy.linalg  # noqa
    import sympy  # noqa
    import pyNastran.bdf.bdf  # noqa
    import composites.laminate  # noqa
    import structsolve  # noqa
sys.pycache_prefix = '/nonexistent-verif-pycache'

if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)

# larger models, longer histories, deeper expressions (thorough tier)
DEEP = os.environ.get('VERIF_DEEP') == '1'

_PYVENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_WHEELS = '/opt/veriftools/wheels'


def import_hypothesis():
    """Hypothesis of the pre-installed tooling venv (same CPython 3.12), at the
    end of sys.path so that numpy, scipy, ... stay those of /opt/venv"""
    try:
        import hypothesis
        return hypothesis
    except ImportError:
        pass
    if os.path.isdir(os.path.join(_PYVENV, 'hypothesis')):
        sys.path.append(_PYVENV)
        try:
            import hypothesis
            return hypothesis
        except ImportError:
            sys.path.remove(_PYVENV)
    d = tempfile.mkdtemp(prefix='verif-wheels-')
    tag = 'cp%d%d' % sys.version_info[:2]
    for pat in ('hypothesis-*%s-%s-*.whl' % (tag, tag), 'hypothesis-*-none-any.whl',
                'sortedcontainers-*.whl', 'attrs-*.whl'):
        for whl in sorted(glob.glob(os.path.join(_WHEELS, pat)))[-1:]:
            with zipfile.ZipFile(whl) as z:
                z.extractall(d)
    sys.path.append(d)
    import hypothesis
    return hypothesis


def import_meshless():
    """Import meshless from REPO's working tree.

    meshless/__init__.py needs version.py, which is generated (git-ignored) by
    setup.py; it is replaced by a stand-in module if it is not there.
    """
    if not os.path.exists(os.path.join(REPO, 'meshless', 'version.py')):
        stub = types.ModuleType('meshless.version')
        stub.__version__ = 'unbuilt'
        sys.modules['meshless.version'] = stub
    import meshless
    got = os.path.realpath(meshless.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('meshless imported from %s, not %s' % (got, REPO))
    return meshless
