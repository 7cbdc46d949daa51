"""Independence from numbering, position, orientation and units"""
import random

import numpy as np

from lib import gen, kit, ref, shear
from lib import mesh as M
from lib.core import Sub, as_matrix, call, close
from lib.gen import st

RULE = ('Pairs of equivalent models: renumbered nodes and triangles, other point-cloud order, moved, rotated '
        '(with the laminates), mirrored, other units; constitutive, shear and geometric stiffness of both are compared '
        'in a common order; non-trivial: the second model differs from the first one and has more than one triangle.')
ASSUMPTIONS = ['rotated laminates: ply angles are rotated with the plate, shear correction factors are 5/6',
               'shear under rotation is compared for equal transverse moduli only (the off-diagonal transverse modulus '
               'is deliberately neglected by the code)',
               'shear without smoothing and edge-based shear depend on the local node order resp. on the order of the '
               'triangles by definition: those orders are kept for them']


def matrices(m, props, pn, d, method, alpha, area, order=None, lams=None):
    """(k0, shear, kG) in the order `order` of the nodes of m"""
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    mod = M.make(m)
    lams = mod.assign(props, lams=lams)
    K = mod.ordered(as_matrix('stiffness', call('calc_k0', calc_k0, mod.mesh, pn), 5*mod.n))
    Z = np.zeros_like(K)
    Z = mod.ordered(as_matrix('shear stiffness', call('add_k0s', add_k0s, Z, mod.mesh, pn, method, alpha=alpha,
                                                      maxl_from_area=area), 5*mod.n))
    G = mod.ordered(as_matrix('geometric stiffness', call('calc_kG', calc_kG, mod.scatter(d), mod.mesh, pn), 5*mod.n))
    if order is not None:
        p = (np.array(order)[:, None]*5 + np.arange(5)).ravel()
        K, Z, G = [x[np.ix_(p, p)] for x in (K, Z, G)]
    return K, Z, G, lams


def scales(m, props, pn, d, lams, method, alpha, area):
    case = dict(mesh=m, props=props, pn=pn)
    N, T = kit.refprops(case, lams)
    _, S0 = ref.k0(m['pts'], m['tris'], N, T)
    _, Sg = ref.kG(m['pts'], m['tris'], d, N, T)
    if method == 'edge-based':
        _, Ss = ref.k0s_edge(m['pts'], m['tris'], alpha, area, N, T)
        _, S2 = ref.k0s_edge(m['pts'], m['tris'], alpha, area, N, T, defect='y')
        Ss = np.maximum(Ss, S2)
    else:
        _, Ss = ref.k0s_cell(m['pts'], m['tris'], alpha, area, N, T, smoothing=method == 'cell-based')
    return S0, Ss, Sg


@st.composite
def base(draw, methods=M.METHODS, **kw):
    c = draw(kit.model(deck=False, **kw))
    c['d'] = draw(gen.vector(5*len(c['mesh']['pts'])))
    c['method'] = draw(st.sampled_from(methods))
    c['alpha'] = draw(st.sampled_from([0., 0.08, 0.5]))
    c['area'] = draw(st.booleans())
    c['seed'] = draw(st.integers(0, 2**31))
    return c


def compare(case, rec, m2, props2, d2, order=None, back=None, tol=1e-9, which=(0, 1, 2), factors=(1, 1, 1), lams2=None):
    m, props, pn = case['mesh'], case['props'], case['pn']
    d = np.array(case['d'], dtype=float)
    opt = case['method'], case['alpha'], case['area']
    *A, lams = matrices(m, props, pn, d, *opt)
    *B, _ = matrices(m2, props2, pn, d2, *opt, order=order, lams=lams2)
    S = scales(m, props, pn, d, lams, *opt)
    names = ('constitutive', case['method'] + ' shear', 'geometric')
    for k in which:
        X = B[k]
        if back is not None:
            X = back[k].T.dot(X).dot(back[k])
        close('%s stiffness of the equivalent model' % names[k], X/factors[k], A[k], S[k], tol, rec)
    kit.labels(case, rec)
    rec.label('method:' + case['method'])
    rec.hit(len(m['tris']) > 1)


@st.composite
def renumbered(draw):
    c = draw(base(big=True))
    c['src2'] = draw(kit.source(len(c['mesh']['pts']), len(c['mesh']['tris'])))
    # a deck has fewer digits: start from what it can express
    if c['src2']['kind'] == 'deck':
        from lib.deck import roundtrip
        c['mesh']['pts'] = [[roundtrip(x) for x in p] for p in c['mesh']['pts']]
    return c


def check_renumbered(case, rec):
    rnd = random.Random(case['seed'])
    m, props = case['mesh'], case['props']
    n = len(m['pts'])
    new = list(range(n))
    rnd.shuffle(new)                       # node i becomes node new[i]
    old = sorted(range(n), key=lambda i: new[i])
    keep_tris = case['method'] == 'edge-based'
    keep_local = case['method'] == 'cell-based-no-smoothing'
    tris = [[new[i] for i in t] for t in m['tris']]
    ks = list(range(len(tris)))
    src2 = case['src2']
    if keep_tris and src2['kind'] == 'deck':
        # the order of the triangles is kept: ascending ids, unshuffled cards
        src2 = dict(src2, eids=sorted(src2['eids']), shuffle=False)
    if not keep_tris:
        rnd.shuffle(ks)
    out = []
    for k in ks:
        t = tris[k]
        if not keep_local:
            q = rnd.randrange(3)
            t = t[q:] + t[:q]
            if rnd.random() < 0.4:
                t = t[::-1]
        out.append(t)
    m2 = dict(m, pts=[m['pts'][i] for i in old], tris=out, src=src2)
    props2 = dict(props, node=[props['node'][i] for i in old], tria=[props['tria'][k] for k in ks])
    d2 = np.array(case['d'], dtype=float).reshape(-1, 5)[old].ravel()
    compare(case, rec, m2, props2, d2, order=new)


def check_moved(case, rec):
    rnd = random.Random(case['seed'])
    m = case['mesh']
    s = m['size']
    v = [rnd.choice([0., 0.5, -3., 17.25])*s, rnd.choice([0., 1.5, -4., 9.])*s, rnd.choice([0., 2., -1.])*s]
    m2 = dict(m, pts=[[a+b for a, b in zip(p, v)] for p in m['pts']])
    compare(case, rec, m2, case['props'], np.array(case['d'], dtype=float))


def turned(spec, deg):
    if spec['kind'] == 'iso':
        return dict(spec, scf=False)
    return dict(spec, stack=[a + deg for a in spec['stack']], scf=False)


def check_rotated(case, rec):
    """plate and plies turned by the same angle about z"""
    rnd = random.Random(case['seed'])
    deg = rnd.choice([30, 90, 180, -45, 271, 17])
    # quarter turns exchange the two transverse directions exactly
    iso_shear = deg % 90 == 0
    a = np.radians(deg)
    R = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    m = case['mesh']
    pool = [turned(s, 0) for s in case['props']['pool']]
    if not iso_shear:
        for s in pool:
            if s['kind'] != 'iso':
                s['prop'] = s['prop'][:4] + [s['prop'][4], s['prop'][4]]
    # composites keeps G13 and G23 in this order: (E1, E2, nu12, G12, G13, G23)
    case = dict(case, props=dict(case['props'], pool=pool))
    props2 = dict(case['props'], pool=[turned(s, deg) for s in pool])
    m2 = dict(m, pts=np.array(m['pts']).dot(R.T).tolist())
    n = len(m['pts'])
    # u = R u, (phix, phiy) is a vector as well
    Q = np.zeros((5, 5))
    Q[:3, :3] = R
    Q[3:, 3:] = R[:2, :2]
    T = np.kron(np.eye(n), Q)
    d2 = T.dot(np.array(case['d'], dtype=float))
    which = (0, 1, 2) if case['method'] != 'edge-based' else (0, 2)
    # T mixes u and v: the tolerance of an entry is that of its block
    compare(case, rec, m2, props2, d2, back=(T, T, T), tol=1e-8, which=which)
    rec.label('deg:%d' % deg)


def check_mirrored(case, rec):
    """x -> -x with ply angles changing sign"""
    m = case['mesh']
    pool = [dict(s, scf=False) for s in case['props']['pool']]
    case = dict(case, props=dict(case['props'], pool=pool))
    props2 = dict(case['props'], pool=[s if s['kind'] == 'iso' else dict(s, stack=[-a for a in s['stack']])
                                       for s in pool])
    m2 = dict(m, pts=[[-p[0], p[1], p[2]] for p in m['pts']])
    n = len(m['pts'])
    T = np.kron(np.eye(n), np.diag([-1., 1, 1, -1, 1]))
    d2 = T.dot(np.array(case['d'], dtype=float))
    # the mirrored triangles keep their local node order: without smoothing, the
    # code takes the first two nodes of clockwise triangles in the other order
    which = (0, 1, 2) if case['method'] == 'cell-based' else (0, 2)
    compare(case, rec, m2, props2, d2, back=(T, T, T), which=which)


def check_units(case, rec):
    """lengths in other units: forces per length etc. follow"""
    rnd = random.Random(case['seed'])
    f = rnd.choice([1e-3, 2., 1000., 25.4, 0.125])      # lengths times f
    q = rnd.choice([1., 1e-6, 1e3, 6894.757])           # stresses times q
    m = case['mesh']
    # the factors that composites calculates do not matter here
    pool = [dict(s, scf=False) for s in case['props']['pool']]
    case = dict(case, props=dict(case['props'], pool=pool))

    def conv(s):
        s = dict(s, offset=s['offset']*f)
        if s['kind'] == 'iso':
            return dict(s, E=s['E']*q, h=s['h']*f)
        return dict(s, plyts=[t*f for t in s['plyts']],
                    prop=[s['prop'][0]*q, s['prop'][1]*q, s['prop'][2]] + [g*q for g in s['prop'][3:]])
    props2 = dict(case['props'], pool=[conv(s) for s in pool])
    m2 = dict(m, pts=[[c*f for c in p] for p in m['pts']], size=m['size']*f)
    n = len(m['pts'])
    # displacements times f, rotations unchanged; work is stress times volume
    T = np.kron(np.eye(n), np.diag([f, f, f, 1., 1.]))
    d2 = T.dot(np.array(case['d'], dtype=float))
    w = q*f**3
    compare(case, rec, m2, props2, d2, back=(T, T, T), factors=(w, w, w),
            which=(0, 1, 2))


SUBS = [Sub('renumbered', renumbered, check_renumbered, 200, 5000),
        Sub('moved', lambda: base(methods=M.METHODS[:2]), check_moved, 150, 4000),
        Sub('rotated', base, check_rotated, 150, 4000),
        Sub('mirrored', base, check_mirrored, 120, 4000),
        Sub('units', base, check_units, 120, 4000)]
