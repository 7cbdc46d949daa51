"""Messages: text, level, silent; calculations print nothing unless asked"""
import contextlib
import io
import os

import numpy as np

from lib import deck, gen, kit
from lib import mesh as M
from lib.core import Sub, call, ensure
from lib.gen import st

RULE = ('Random texts, levels and silent flags for the three kinds of messages; all calculations on random plates with '
        'silent given or not; captured output of the process; non-trivial: something had to be printed, or had to stay unprinted.')
ASSUMPTIONS = ['output is observed at sys.stdout/sys.stderr']


@contextlib.contextmanager
def captured():
    a, b = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(a), contextlib.redirect_stderr(b):
        yield a, b


@st.composite
def messages(draw):
    text = draw(st.text(st.characters(codec='utf-8', exclude_categories=['Cs', 'Cc']), max_size=30))
    text = draw(st.sampled_from(['', '', ' ', '\t', '\n', '  ', 'WARNING: ', 'ERROR: ', 'WARNING', 'Warning: ', '%s %d ', '{0} '])) + text + draw(st.sampled_from(['', '', ' ', '\n', '\t', '.', '\nx']))
    if draw(st.integers(0, 9)) == 0:
        text = text + 'long text '*draw(st.sampled_from([7, 13, 30, 150, 2000])) + text
    return dict(kind=draw(st.sampled_from(['msg', 'warn', 'error'])), level=draw(st.sampled_from([None, 0, 1, 2, 7, 12, 40])),
                silent=draw(st.sampled_from([None, True, False])), pos=draw(st.booleans()),
                text=text)


def check_message(case, rec):
    from meshless import logger
    f = getattr(logger, case['kind'])
    kw = {}
    if case['level'] is not None:
        kw['level'] = case['level']
    if case['silent'] is not None:
        kw['silent'] = case['silent']
    args = [case['text']]
    if case['pos'] and len(kw) == 2:
        args += [kw['level'], kw['silent']]
        kw = {}
    with captured() as (o, e):
        out = call(case['kind'], f, *args, **kw)
    want = dict(msg='', warn='WARNING: ', error='ERROR: ')[case['kind']] + case['text']
    ensure(out == want, '%s returned %r, expected %r', case['kind'], out, want)
    want = '' if case['silent'] else '\t'*(case['level'] or 0) + want + '\n'
    ensure(o.getvalue() == want and not e.getvalue(), '%s printed %r, expected %r', case['kind'], o.getvalue(), want)
    rec.label(case['kind'], 'silent' if case['silent'] else 'printed')
    rec.hit()


@st.composite
def runs(draw):
    c = draw(kit.model(max_cells=2))
    c['d'] = draw(gen.vector(5*len(c['mesh']['pts'])))
    c['method'] = draw(st.sampled_from(M.METHODS))
    return c


def steps(case, silent):
    """outputs and results of every calculation"""
    from scipy.spatial import Delaunay  # noqa
    from meshless.espim import (plate2d_add_k0s_cell_based, plate2d_add_k0s_cell_based_no_smoothing,
                                plate2d_add_k0s_edge_based)
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    from meshless.espim.read_mesh import read_delaunay, read_mesh
    kw = {} if silent is None else dict(silent=silent)
    m = case['mesh']
    out = []

    def do(what, f, *a, **k):
        with captured() as (o, e):
            r = call(what, f, *a, **k)
        out.append((what, o.getvalue(), e.getvalue()))
        return r
    src = m['src']
    if src['kind'] == 'deck':
        with open('model.dat', 'w') as f:
            f.write(deck.write(m['pts'], m['tris'], src))
        mesh = do('read_mesh', read_mesh, 'model.dat', **kw)
        mod = M.Model(mesh, src['nids'], src['eids'])
    else:
        P = np.array(m['pts'])
        mesh = do('read_delaunay', read_delaunay, P, M.real_delaunay(P[:, :2], m['tris']), **kw)
        mod = M.Model(mesh)
    mod.assign(case['props'])
    K = do('calc_k0', calc_k0, mesh, case['pn'], **kw)
    k = np.zeros_like(K)
    k = do('add_k0s', add_k0s, k, mesh, case['pn'], case['method'])
    part = {'cell-based': plate2d_add_k0s_cell_based, 'edge-based': plate2d_add_k0s_edge_based,
            'cell-based-no-smoothing': plate2d_add_k0s_cell_based_no_smoothing}[case['method']]
    k2 = do('add_k0s of the method', part.add_k0s, np.zeros_like(K), mesh, case['pn'], 0.08, False, **kw)
    G = do('calc_kG', calc_kG, mod.scatter(case['d']), mesh, case['pn'], **kw)
    return out, [mod.ordered(x) for x in (K, k, k2, G)]


def check_runs(case, rec):
    o1, r1 = steps(case, None)
    for what, o, e in o1:
        ensure(not o and not e, '%s printed %r without being asked to', what, (o + e)[:200])
    o2, r2 = steps(case, True)
    for what, o, e in o2:
        ensure(not o and not e, '%s(silent=True) printed %r', what, (o + e)[:200])
    o3, r3 = steps(case, False)
    for what, o, e in o3:
        if what == 'add_k0s':
            continue    # has no such option
        lines = o.split('\n')
        ensure(not e and len(lines) >= 3 and lines[-2].strip() == 'finished!', '%s(silent=False) printed %r', what, o[:200])
    for r in (r2, r3):
        for a, b in zip(r1, r):
            s = np.abs(a).max()
            ensure(np.abs(a - b).max() <= 1e-9*s, 'the result depends on silent')
    kit.labels(case, rec)
    rec.hit()


@st.composite
def large(draw):
    c = draw(kit.model(kinds=('grid',), big='always', transform=False))
    c['d'] = draw(gen.vector(5*len(c['mesh']['pts'])))
    c['method'] = draw(st.sampled_from(M.METHODS))
    return c


SUBS = [Sub('messages', messages, check_message, 600, 10000),
        Sub('silence', runs, check_runs, 200, 3000),
        Sub('silence of large models', large, check_runs, 16, 150)]
