"""Constitutive stiffness: symmetry, semi-definiteness, rigid motions, exact
energy of linear fields, no coupling with the transverse displacement"""
import numpy as np

from lib import kit, ref
from lib.core import Sub, as_matrix, call, close, ensure
from lib.gen import st

RULE = ('Same plates and laminates as C04/C05 plus random linear fields (membrane and rotations) and random '
        'displacement vectors; non-trivial: more than one triangle or two laminates.')
ASSUMPTIONS = ['laminates of composites 0.2.5 are positive definite']


@st.composite
def strategy(draw):
    c = draw(kit.model())
    c['lin'] = draw(st.lists(st.integers(-9, 9), min_size=12, max_size=12))
    return c


def centred(pts):
    P = np.array(pts)[:, :2]
    return P - P.mean(axis=0)


def check(case, rec):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    mod, lams = kit.setup(case)
    kit.labels(case, rec)
    m = case['mesh']
    n = mod.n
    Kc = call('calc_k0', calc_k0, mod.mesh, case['pn'])
    K = mod.ordered(as_matrix('stiffness', Kc, 5*n))
    N, T = kit.refprops(case, lams)
    S = np.zeros_like(K)
    doms = ref.domains(m['pts'], m['tris'])
    _, S = ref.k0(m['pts'], m['tris'], N, T)
    close('transposed stiffness', K, K.T, S, 1e-10, rec)
    ensure(not K[2::5].any() and not K[:, 2::5].any(), 'constitutive stiffness for the transverse displacement')
    used = set(i for t in m['tris'] for i in t)
    for i in range(n):
        if i not in used:
            ensure(not K[5*i:5*i+5].any(), 'stiffness for node %d, which no triangle uses', i)

    # semi-definite, after scaling the rotations with the thickness (units)
    h = max(l.h for l in lams)
    D = np.tile([1., 1., 1., 1/h, 1/h], n)
    Ks = K*np.outer(D, D)
    w = np.linalg.eigvalsh((Ks + Ks.T)/2)
    ensure(w[0] >= -1e-9*max(abs(w[-1]), 1e-300), 'negative eigenvalue %g (largest %g)', w[0], w[-1])

    # rigid motions and constant rotations: no forces
    X = centred(m['pts'])
    fields = []
    for (a, b) in ((0, 1), (3, 4)):
        for f in (0, 1, 2):
            v = np.zeros((n, 5))
            if f < 2:
                v[:, (a, b)[f]] = 1
            else:
                v[:, a], v[:, b] = -X[:, 1], X[:, 0]
            fields.append(v.ravel())
    for k, v in enumerate(fields):
        r = K.dot(v)
        close('forces of rigid field %d' % k, r, 0*r, np.abs(S).dot(np.abs(v)), 1e-10, rec)

    # energy of linear fields: area times the constant strains
    G = np.array(case['lin'], dtype=float).reshape(2, 2, 3)
    v = np.zeros((n, 5))
    rot = 1/h
    for a, cols in enumerate(((0, 1), (3, 4))):
        f = rot if a else 1.
        for b in (0, 1):
            v[:, cols[b]] = f*(X.dot(G[a, b, :2]) + G[a, b, 2]*m['size'])
    e = np.array([G[0, 0, 0], G[0, 1, 1], G[0, 0, 1] + G[0, 1, 0]])
    k = rot*np.array([G[1, 0, 0], G[1, 1, 1], G[1, 0, 1] + G[1, 1, 0]])
    U = 0.
    if case['pn']:
        parts = [(d.area, [ref.dom_prop(d, m['tris'], lambda p: np.asarray(getattr(p, q)), N, T) for q in 'ABD'])
                 for d in doms]
    else:
        parts = [(abs(ref.area2(*[m['pts'][i] for i in t]))/2, [np.asarray(getattr(T[q], x)) for x in 'ABD'])
                 for q, t in enumerate(m['tris'])]
    for area, (A, B, Dm) in parts:
        U += area*(e.dot(A).dot(e) + 2*e.dot(B).dot(k) + k.dot(Dm).dot(k))
    v = v.ravel()
    close('energy of a linear field', [v.dot(K).dot(v)], [U], [np.abs(v).dot(S).dot(np.abs(v))], 1e-10, rec)
    rec.hit(len(m['tris']) > 1 or len(case['props']['pool']) > 1)


SUBS = [Sub('structure', strategy, check, 600, 15000)]
