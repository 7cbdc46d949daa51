"""Geometric stiffness"""
import numpy as np

from lib import gen, kit, ref
from lib.core import Sub, as_matrix, call, close, ensure
from lib.gen import st

RULE = ('Same plates as C04/C05 with random displacement vectors (dense, sparse, linear fields, magnitudes 1e-9..1e3); '
        'non-trivial: the membrane forces of the reference are not all zero.')
ASSUMPTIONS = ['the constitutive stiffness was calculated before (it sets up the mesh)']


@st.composite
def strategy(draw, **kw):
    c = draw(kit.model(**kw))
    n = len(c['mesh']['pts'])
    c['d'] = draw(gen.vector(5*n))
    c['e'] = draw(gen.vector(5*n))
    c['mag'] = draw(st.sampled_from([1., 1e-3, 1e-9, 1e3, -1.]))
    c['form'] = draw(st.sampled_from([None, None, None, 'int', 'float32', 'strided', 'reversed', 'readonly', 'longdouble']))
    c['lin'] = draw(st.lists(st.integers(-9, 9), min_size=9, max_size=9))
    return c


def prepare(case):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    mod, lams = kit.setup(case)
    call('calc_k0', calc_k0, mod.mesh, case['pn'])
    return mod, lams


def kG(mod, case, v):
    from meshless.espim.plate2d_calc_kG import calc_kG
    d = mod.scatter(v)
    if case['form'] == 'int':
        d = np.round(d).astype(int)
    elif case['form'] == 'strided':
        d = np.repeat(d, 3)[::3]
    elif case['form'] == 'reversed':
        d = d[::-1].copy()[::-1]
    elif case['form'] == 'readonly':
        d.setflags(write=False)
    elif case['form']:
        d = d.astype(case['form'])
    keep = d.copy()
    K = as_matrix('geometric stiffness', call('calc_kG', calc_kG, d, mod.mesh, case['pn']), 5*mod.n)
    ensure((d == keep).all(), 'the displacements passed were modified')
    return mod.ordered(K)


def check_reference(case, rec):
    mod, lams = prepare(case)
    kit.labels(case, rec)
    m = case['mesh']
    N, T = kit.refprops(case, lams)
    v = case['mag']*np.array(case['d'], dtype=float)
    if case['form'] == 'int':   # more than single precision holds
        v = np.array(case['d'], dtype=float)*10**7 + np.arange(5*mod.n)
    elif case['form'] == 'float32':
        v = v.astype(np.float32).astype(float)
    rec.label('form:%s' % case['form'])
    R, S = ref.kG(m['pts'], m['tris'], v, N, T)
    close('geometric stiffness', kG(mod, case, v), R, S, 1e-9, rec)
    rec.hit(np.abs(R).max() > 0)


def check_structure(case, rec):
    case = dict(case, form=None)
    mod, lams = prepare(case)
    kit.labels(case, rec)
    m = case['mesh']
    n = mod.n
    N, T = kit.refprops(case, lams)
    v = case['mag']*np.array(case['d'], dtype=float)
    u = np.array(case['e'], dtype=float)
    Kv, Ku = kG(mod, case, v), kG(mod, case, u)
    _, Sv = ref.kG(m['pts'], m['tris'], v, N, T)
    _, Su = ref.kG(m['pts'], m['tris'], u, N, T)
    close('transposed geometric stiffness', Kv, Kv.T, Sv, 1e-10, rec)
    w = np.zeros(5*n, bool)
    w[2::5] = True
    ensure(not Kv[~w].any() and not Kv[:, ~w].any(), 'geometric stiffness for other than the transverse displacements')
    # linear in the displacements, which are those of the membrane
    close('geometric stiffness of a sum', kG(mod, case, 2*v - 3*u), 2*Kv - 3*Ku, 2*Sv + 3*Su, 1e-10, rec)
    v2 = v.copy()
    v2[2::5] = u[2::5]
    close('geometric stiffness with other transverse displacements', kG(mod, case, v2), Kv, Sv, 1e-12, rec)
    close('geometric stiffness of zero', kG(mod, case, 0*v), 0*Kv, Sv + Su, 1e-12, rec)
    # a constant transverse displacement does no work
    one = np.where(w, 1., 0.)
    g = Kv.dot(one)
    close('geometric forces of a translation', g, 0*g, Sv.dot(one), 1e-10, rec)
    # uniform strains: energy of a slope is area times membrane forces
    P = np.array(m['pts'])[:, :2]
    X = P - P.mean(axis=0)
    h = max(l.h for l in lams)
    a = np.array(case['lin'][:8], dtype=float).reshape(2, 2, 2)
    f = np.zeros((n, 5))
    f[:, 0], f[:, 1] = X.dot(a[0, 0]), X.dot(a[0, 1])
    f[:, 3], f[:, 4] = X.dot(a[1, 0])/h, X.dot(a[1, 1])/h
    e = np.array([a[0, 0, 0], a[0, 1, 1], a[0, 0, 1] + a[0, 1, 0]])
    k = np.array([a[1, 0, 0], a[1, 1, 1], a[1, 0, 1] + a[1, 1, 0]])/h
    f = f.ravel()
    Kf = kG(mod, case, f)
    _, Sf = ref.kG(m['pts'], m['tris'], f, N, T)
    for sx, sy in ((1, 0), (0, 1), (1, -2)):
        slope = np.zeros(5*n)
        slope[2::5] = X.dot([sx, sy])
        W = 0.
        if case['pn']:
            parts = [(d.area, ref.dom_prop(d, m['tris'], lambda p: np.asarray(p.A), N, T),
                      ref.dom_prop(d, m['tris'], lambda p: np.asarray(p.B), N, T))
                     for d in ref.domains(m['pts'], m['tris'])]
        else:
            parts = [(abs(ref.area2(*[m['pts'][i] for i in t]))/2, np.asarray(T[q].A), np.asarray(T[q].B))
                     for q, t in enumerate(m['tris'])]
        for area, A, B in parts:
            Nx, Ny, Nxy = A.dot(e) + B.dot(k)
            W += area*(Nx*sx*sx + Ny*sy*sy + 2*Nxy*sx*sy)
        close('work of uniform membrane forces', [slope.dot(Kf).dot(slope)], [W],
              [np.abs(slope).dot(Sf).dot(np.abs(slope))], 1e-10, rec)
    # rigid in-plane motions: no membrane forces
    r = np.zeros((n, 5))
    r[:, 0], r[:, 1] = 3*m['size'] - X[:, 1], X[:, 0] - m['size']
    r = r.ravel()
    _, Sr = ref.kG(m['pts'], m['tris'], r, N, T)
    close('geometric stiffness of a rigid motion', kG(mod, case, r), 0*Kv, Sr, 1e-10, rec)
    rec.hit(np.abs(Kv).max() > 0)


SUBS = [Sub('reference', lambda: strategy(big=True), check_reference, 600, 15000),
        Sub('large', lambda: strategy(kinds=('grid',), big='always', transform=False), check_reference, 16, 300),
        Sub('structure', strategy, check_structure, 250, 6000)]
