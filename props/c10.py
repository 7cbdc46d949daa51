"""Shear correction of the discrete shear gap stiffness"""
import numpy as np

from lib import kit, ref, shear
from lib import mesh as M
from lib.core import Sub, close, ensure
from lib.gen import st

RULE = ('Plates with 1-4 laminates, the three smoothing methods, random positive correction constants (1e-4..1e3) '
        'and both length measures; non-trivial: a correction constant that changes the stiffness by more than 1%.')
ASSUMPTIONS = ['laminates come from composites 0.2.5']


@st.composite
def alpha(draw):
    return draw(st.one_of(st.sampled_from([0.08, 0.2, 1., 10.]), st.integers(1, 10**6).map(lambda k: k*1e-3),
                          st.integers(1, 900).map(lambda k: k*1e-4)))


@st.composite
def pieces(draw):
    """Separate triangles, so that the stiffness of each one is visible"""
    k = draw(st.integers(1, 4))
    pts, tris = [], []
    s = draw(st.sampled_from([1., 0.02, 30.]))
    for i in range(k):
        o = len(pts)
        x = 10.*i
        q = draw(st.lists(st.integers(-30, 30), min_size=6, max_size=6))
        P = [[x + q[0]/100., q[1]/100.], [x + 1 + q[2]/100., q[3]/100.], [x + .4 + q[4]/100., 1.5 + q[5]/100.]]
        pts += [[a*s, b*s, 0.] for a, b in P]
        t = [o, o+1, o+2]
        if draw(st.booleans()):
            t = [o, o+2, o+1]
        tris.append(t)
    m = dict(kind='pieces', pts=pts, tris=tris, size=s, src=dict(kind='cloud'))
    from lib import gen
    props = draw(gen.properties(m))
    return dict(mesh=m, props=props, pn=draw(st.booleans()), method=draw(st.sampled_from(M.METHODS[:2])),
                alpha=draw(alpha()), area=draw(st.booleans()), given='keywords')


def check_factor(case, rec):
    mod, lams = kit.setup(case)
    m = case['mesh']
    K0 = mod.ordered(shear.shear(mod, case, alpha=0.))
    K = mod.ordered(shear.shear(mod, case))
    big = 0.
    for k, t in enumerate(m['tris']):
        P = np.array([m['pts'][i][:2] for i in t])
        if case['area']:
            length2 = abs(ref.area2(*P))/2
        else:
            length2 = max(((P[i]-P[j])**2).sum() for i, j in ((0, 1), (1, 2), (2, 0)))
        if case['pn']:
            h = np.mean([lams[case['props']['node'][i]].h for i in t])
        else:
            h = lams[case['props']['tria'][k]].h
        f = 1 + case['alpha']*length2/h**2
        big = max(big, f)
        d = np.concatenate([np.arange(5) + 5*i for i in t])
        A, B = K0[np.ix_(d, d)], K[np.ix_(d, d)]
        close('corrected stiffness of triangle %d' % k, B, A/f, np.abs(A).max()/f*np.where(A != 0, 1, 1e-3) + 0*A, 1e-9, rec)
    rec.label('method:' + case['method'], 'length from ' + ('area' if case['area'] else 'edges'))
    rec.hit(big > 1.01)


@st.composite
def general(draw):
    c = draw(shear.case(M.METHODS))
    c['alpha'] = draw(alpha())
    c['more'] = draw(st.sampled_from([1.5, 4., 100.]))
    return c


def check_general(case, rec):
    mod, lams = kit.setup(case)
    kit.labels(case, rec)
    c = dict(case, given='keywords')
    K0 = mod.ordered(shear.shear(mod, c, alpha=0.))
    K1 = mod.ordered(shear.shear(mod, c))
    a2 = c['alpha']*c['more']
    K2 = mod.ordered(shear.shear(mod, c, alpha=a2))
    big = 0
    h = max(l.h for l in lams)
    D = np.tile([1., 1., 1., 1/c['mesh']['size'], 1/c['mesh']['size']], mod.n)
    W = np.outer(D, D)
    top = np.linalg.eigvalsh(K0*W)[-1]
    for what, d in (('uncorrected - corrected', K0-K1), ('corrected - corrected more', K1-K2), ('corrected', K2)):
        w = np.linalg.eigvalsh((d+d.T)/2*W)
        ensure(w[0] >= -1e-9*top, '%s shear stiffness has the negative eigenvalue %g (largest of all %g)', what, w[0], top)
    # positive constants keep the stiffness positive: at most the reduction of
    # the largest length
    P = np.array(c['mesh']['pts'])[:, :2]
    lmax2 = max(((P[i]-P[j])**2).sum() for i, j in ref.edges_of(c['mesh']['tris']))
    hmin = min(l.h for l in lams)
    f = 1 + c['alpha']*lmax2/hmin**2*(1+1e-9)
    w = np.linalg.eigvalsh((K1 - K0/f)*W)
    ensure(w[0] >= -1e-9*top, 'reduction exceeds the one of the longest edge and the thinnest laminate (%g, %g)', w[0], top)
    for al, K in ((0., K0), (c['alpha'], K1), (a2, K2)):
        shear.match('%s shear stiffness for alpha=%g' % (c['method'], al), K, c, mod, lams, rec, alpha=al)
    big = np.abs(K0 - K1).max()/max(np.abs(K0).max(), 1e-300)
    rec.label('method:' + c['method'], 'length from ' + ('area' if c['area'] else 'edges'))
    rec.hit(big > 0.01)


@st.composite
def defaults(draw):
    c = draw(kit.model())
    c['drop'] = draw(st.sampled_from(['all', 'method', 'alpha', 'area']))
    c['method'] = draw(st.sampled_from(M.METHODS))
    c['alpha'] = draw(alpha())
    c['area'] = draw(st.booleans())
    return c


def check_defaults(case, rec):
    """omitted options: cell-based, 0.08, longest edge"""
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_add_k0s import add_k0s
    mod, lams = kit.setup(case)
    calc_k0(mod.mesh, case['pn'])
    full = dict(method='cell-based', alpha=0.08, maxl_from_area=False)
    part = {}
    if case['drop'] != 'all':
        part = dict(method=case['method'], alpha=case['alpha'], maxl_from_area=case['area'])
        part.pop({'method': 'method', 'alpha': 'alpha', 'area': 'maxl_from_area'}[case['drop']])
        full.update(part)
    z = np.zeros((5*mod.n, 5*mod.n))
    K1 = add_k0s(z.copy(), mod.mesh, case['pn'], **part)
    K2 = add_k0s(z.copy(), mod.mesh, case['pn'], **full)
    ensure(np.allclose(K1, K2, rtol=1e-12, atol=1e-14*np.abs(K2).max()), 'options left out are not method="cell-based", alpha=0.08, maxl_from_area=False (%s)', case['drop'])
    rec.label('left out:' + case['drop'])
    rec.hit()


SUBS = [Sub('factor', pieces, check_factor, 500, 10000),
        Sub('general', general, check_general, 350, 10000),
        Sub('defaults', defaults, check_defaults, 200, 2000)]
