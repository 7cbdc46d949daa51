"""Shared by the properties about the transverse shear stiffness"""
import numpy as np

from lib import kit, ref
from lib.core import Violation, as_matrix, call, close, worst
from lib.gen import st

FINDING = 'edge-based-y1'


@st.composite
def case(draw, methods, **kw):
    c = draw(kit.model(**kw))
    c['method'] = draw(st.sampled_from(methods))
    c['alpha'] = draw(st.sampled_from(kit.ALPHAS))
    c['area'] = draw(st.booleans())
    c['flag'] = draw(st.sampled_from(['bool', 'bool', 'bool', 'int', 'numpy']))
    c['given'] = draw(st.sampled_from(['keywords', 'positional', 'defaults']))
    return c


def kwargs(c):
    flag = {'int': int, 'numpy': np.bool_}.get(c.get('flag'), bool)
    c = dict(c, area=flag(c['area']))
    if c.get('flag') == 'numpy':
        c['alpha'] = np.float64(c['alpha'])
    elif c.get('flag') == 'int' and c['alpha'] == int(c['alpha']):
        c['alpha'] = int(c['alpha'])
    if c['given'] == 'defaults':
        kw = {}
        if c['method'] != 'cell-based':
            kw['method'] = c['method']
        if c['alpha'] != 0.08:
            kw['alpha'] = c['alpha']
        if c['area']:
            kw['maxl_from_area'] = c['area']
        return (), kw
    if c['given'] == 'positional':
        return (c['method'], c['alpha'], c['area']), {}
    return (), dict(method=c['method'], alpha=c['alpha'], maxl_from_area=c['area'])


def shear(mod, c, K=None, **over):
    """Stiffness returned by the code when added to K (zero by default)"""
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_add_k0s import add_k0s
    if not mod.__dict__.get('ready'):
        call('calc_k0', calc_k0, mod.mesh, c['pn'])
        mod.ready = True
    if K is None:
        K = np.zeros((5*mod.n, 5*mod.n))
    cc = dict(c, **over)
    a, kw = kwargs(cc)
    out = call('add_k0s(%s)' % cc['method'], add_k0s, K, mod.mesh, c['pn'], *a, **kw)
    return as_matrix('stiffness', out, 5*mod.n)


def reference(c, mod, lams, **over):
    """(K, S), or for the edge-based method ((K, S), (K with defect, S))"""
    cc = dict(c, **over)
    m = cc['mesh']
    N, T = kit.refprops(cc, lams)
    if cc['method'] == 'edge-based':
        order = mod.edge_order()
        return (ref.k0s_edge(m['pts'], m['tris'], cc['alpha'], cc['area'], N, T, order=order),
                ref.k0s_edge(m['pts'], m['tris'], cc['alpha'], cc['area'], N, T, defect='y',
                             order=order))
    return ref.k0s_cell(m['pts'], m['tris'], cc['alpha'], cc['area'], N, T,
                        smoothing=cc['method'] == 'cell-based')


def match(what, K, c, mod, lams, rec, tol=1e-9, **over):
    """K (in the order of the case) has to be the reference, or, for the
    edge-based method, exactly the known finding"""
    r = reference(c, mod, lams, **over)
    if dict(c, **over)['method'] != 'edge-based':
        close(what, K, r[0], r[1], tol, rec)
        return 'ok'
    (R, S), (Rd, Sd) = r
    S = np.maximum(S, Sd)
    if worst(K, R, S, tol)[0] <= 1:
        close(what, K, R, S, tol, rec)
        return 'ok'
    if worst(K, Rd, S, tol)[0] <= 1:
        close(what, K, Rd, S, tol, rec)
        rec.known_finding(FINDING, '%s uses z for the y of a node of interior edges' % what)
        return 'known'
    close(what, K, R, S, tol)
    raise Violation(what)
