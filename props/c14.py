"""Static solutions: superposition, reciprocity, equilibrium with the
reactions, patch test, known deflections and convergence"""
import random

import numpy as np

from lib import kit, shear, ssplate
from lib import mesh as M
from lib.core import Skip, Sub, as_matrix, call, close, ensure
from lib.gen import st

RULE = ('Random plates, laminates, supports and loads solved with the assembled stiffness; rectangular simply '
        'supported plates with known (Navier) solution, aspect 0.8-1.5, thickness 1/100-1/10, jittered grids; '
        'non-trivial: more than one triangle and a non-zero deflection.')
ASSUMPTIONS = ['structures whose supported stiffness is singular or worse conditioned than 1e9 are outside of the domain',
               'edge-based shear: see C11 (known finding), only the symmetric part of the property is checked for it',
               'accuracy of simply supported plates: correction constants up to 0.2, 8-12 elements per side, 25% (observed 15%)']


@st.composite
def supported(draw):
    c = draw(kit.model(connected=True, attached_only=True))
    c['method'] = draw(st.sampled_from(M.METHODS))
    c['alpha'] = draw(st.sampled_from(kit.ALPHAS[:6]))
    c['area'] = draw(st.booleans())
    c['seed'] = draw(st.integers(0, 2**31))
    c['share'] = draw(st.sampled_from([.3, .5, .7]))
    return c


def scaled_solve(A, B):
    s = 1/np.sqrt(np.maximum(np.abs(np.diag(A)), 1e-300))
    As = A*np.outer(s, s)
    if not As.size or np.linalg.cond(As) > 1e9:
        raise Skip()
    return s[:, None]*np.linalg.solve(As, B*s[:, None])


def check_supported(case, rec):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_add_k0s import add_k0s
    mod, lams = kit.setup(case)
    kit.labels(case, rec)
    n = mod.n
    pn = case['pn']
    Kc = call('calc_k0', calc_k0, mod.mesh, pn)
    Kc = call('add_k0s', add_k0s, Kc, mod.mesh, pn, case['method'], alpha=case['alpha'], maxl_from_area=case['area'])
    K = mod.ordered(as_matrix('stiffness', Kc, 5*n))
    rnd = random.Random(case['seed'])
    rng = np.random.RandomState(case['seed'] % 2**31)
    k = max(2, int(round(case['share']*n)))
    sup = sorted(rnd.sample(range(n), min(k, n - 1)))
    fix = np.zeros((n, 5), dtype=bool)
    fix[sup] = True
    if rnd.random() < .5:   # some of the supported nodes only partly
        for i in sup[2:]:
            fix[i] = [rnd.random() < .7 for _ in range(5)]
    free = np.flatnonzero(~fix.ravel())
    F = np.zeros((5*n, 2))
    size = case['mesh']['size']
    w = np.tile([1., 1., 1., size, size], n)
    F[free] = rng.randint(-9, 10, (len(free), 2))*w[free, None]
    U = np.zeros_like(F)
    U[free] = scaled_solve(K[np.ix_(free, free)], F[free])
    ensure(np.isfinite(U).all(), 'deflection is not finite')

    a, b = U[:, 0].dot(F[:, 1]), U[:, 1].dot(F[:, 0])
    s = np.abs(U[:, 0]).dot(np.abs(F[:, 1])) + np.abs(U[:, 1]).dot(np.abs(F[:, 0])) + 1e-300
    ensure(abs(a - b) <= 1e-6*s, 'reciprocity: %g, %g', a, b)
    for q in range(2):
        work, sw = U[:, q].dot(F[:, q]), np.abs(U[:, q]).dot(np.abs(F[:, q]))
        ensure(work >= -1e-6*sw, 'the load does the negative work %g', work)
    rec.label('method:' + case['method'])
    if case['method'] != 'edge-based':
        # forces of the plate on its nodes are in equilibrium
        X = np.array(case['mesh']['pts'])
        X = X - X.mean(axis=0)
        R = K.dot(U).reshape(n, 5, 2)
        S = np.abs(K).dot(np.abs(U)).reshape(n, 5, 2)
        x, y = X[:, 0, None], X[:, 1, None]
        for what, r, sc in (
                ('x forces', R[:, 0], S[:, 0]), ('y forces', R[:, 1], S[:, 1]), ('z forces', R[:, 2], S[:, 2]),
                ('moments about z', x*R[:, 1] - y*R[:, 0], abs(x)*S[:, 1] + abs(y)*S[:, 0]),
                ('moments about y', x*R[:, 2] - R[:, 3], abs(x)*S[:, 2] + S[:, 3]),
                ('moments about x', y*R[:, 2] - R[:, 4], abs(y)*S[:, 2] + S[:, 4])):
            tot, sc = r.sum(axis=0), sc.sum(axis=0) + 1e-300
            close('sum of the %s of loads and reactions' % what, tot, 0*tot, sc, 1e-9, rec)
        close('loads', R.reshape(-1, 2)[free], F[free], S.reshape(-1, 2)[free] + np.abs(F).max()*1e-3, 1e-6)
    rec.hit(len(case['mesh']['tris']) > 1 and np.any(U))


@st.composite
def patches(draw):
    c = draw(kit.model(connected=True, attached_only=True, homogeneous=True, big=True))
    c['method'] = draw(st.sampled_from(M.METHODS[:2]))
    c['alpha'] = draw(st.sampled_from(kit.ALPHAS[:6]))
    c['area'] = draw(st.booleans())
    c['lin'] = draw(st.lists(st.integers(-9, 9), min_size=9, max_size=9))
    return c


def check_patch(case, rec):
    """one laminate, linear displacements at the outline (any membrane strain,
    any rigid inclination): the interior follows"""
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_add_k0s import add_k0s
    from lib import ref
    mod, lams = kit.setup(case)
    kit.labels(case, rec)
    n, m = mod.n, case['mesh']
    K = call('calc_k0', calc_k0, mod.mesh, case['pn'])
    K = call('add_k0s', add_k0s, K, mod.mesh, case['pn'], case['method'], alpha=case['alpha'], maxl_from_area=case['area'])
    K = mod.ordered(as_matrix('stiffness', K, 5*n))
    outline = set()
    for (i, j), ts in ref.edges_of(m['tris']).items():
        if len(ts) == 1:
            outline |= set((i, j))
    inner = [i for i in range(n) if i not in outline]
    if not inner:
        raise Skip()
    X = np.array(m['pts'])[:, :2]
    X = (X - X.mean(axis=0))/m['size']
    L = case['lin']
    u = np.zeros((n, 5))
    u[:, 0] = L[0] + L[1]*X[:, 0] + L[2]*X[:, 1]
    u[:, 1] = L[3] + L[4]*X[:, 0] + L[5]*X[:, 1]
    u[:, 2] = L[6] + L[7]*X[:, 0] + L[8]*X[:, 1]
    u[:, 3], u[:, 4] = -L[7]/m['size'], -L[8]/m['size']
    u = u.ravel()
    free = np.concatenate([np.arange(5) + 5*i for i in inner])
    rest = np.setdiff1d(np.arange(5*n), free)
    R, S = K.dot(u), np.abs(K).dot(np.abs(u))
    S = np.tile(S.reshape(n, 5).max(axis=0), n)
    close('forces on the interior nodes', R[free], 0*R[free], S[free] + 1e-300, 1e-9, rec)
    rec.hit(any(L))
    try:
        x = scaled_solve(K[np.ix_(free, free)], -K[np.ix_(free, rest)].dot(u[rest])[:, None])[:, 0]
    except Skip:
        return
    rec.label('interior solved')
    s = np.tile([1., 1., 1., 1/m['size'], 1/m['size']], len(inner))
    h = max(l.h for l in lams)
    s = s*np.abs(u).max()*max(1, m['size']/h)
    close('interior', x, u[free], s + 1e-300, 1e-5)


def deflection(case, nx=None, ny=None, load='sine', solver='dense'):
    """(deflection at the peak)/(exact one)"""
    P = ssplate.Plate(case, nx, ny)
    c = case
    f = np.zeros(5*P.n)
    m, q = case.get('waves', [1, 1])
    shape = np.sin(m*np.pi*P.X[:, 0]/c['a'])*np.sin(q*np.pi*P.X[:, 1]/c['b'])
    f[2::5] = P.nodal_areas()*shape
    free = P.bending_free()
    if solver == 'dense':
        u = ssplate.solve(P.K, f, free)
    else:
        from scipy.sparse import coo_matrix
        from structsolve import solve
        K = P.K.copy()
        fix = np.setdiff1d(np.arange(5*P.n), free)
        K[fix] = 0
        K[:, fix] = 0
        f[fix] = 0
        u = solve(coo_matrix(K), f, silent=True)
    w = u[2::5]
    amp = w.dot(shape)/shape.dot(shape)
    return amp*ssplate.fsdt(P.lam, c['a'], c['b'], m, q), P


LIM = {1: 0.23, 2: 0.30}


@st.composite
def navier(draw):
    c = draw(ssplate.plates())
    c['waves'] = draw(st.sampled_from([[1, 1], [1, 1], [1, 1], [2, 1], [1, 2]]))
    if max(c['waves']) > 1:
        c['nx'] = c['ny'] = 12
    c['solver'] = draw(st.sampled_from(['dense', 'structsolve']))
    return c


def check_navier(case, rec):
    r, P = deflection(case, solver=case['solver'])
    rec.label('method:' + case['method'], 'h/a=%g' % (sum(case['lam'].get('plyts', [case['lam'].get('h')]))/case['a']),
              'waves:%d,%d' % tuple(case['waves']), 'laminate:' + case['lam']['kind'])
    # discretisation error: proportional to the square of the size of the elements
    per = min(case['nx']/case['waves'][0], case['ny']/case['waves'][1])
    lim = LIM[max(case["waves"])]*(8/per)**2
    rec.maxerr = max(rec.maxerr, abs(r - 1)/lim)
    ensure(abs(r - 1) <= lim, 'deflection is %.4f of the exact one', r)
    rec.hit()


def check_convergence(case, rec):
    c = dict(case, jitter=0)
    r1, _ = deflection(c, 4, max(3, round(4*c['b']/c['a'])))
    k = max(3, round(4*c['b']/c['a']))
    r2, _ = deflection(c, 12, 3*k)
    rec.label('method:' + case['method'])
    rec.maxerr = max(rec.maxerr, abs(r2 - 1)/max(0.5*abs(r1 - 1), 0.04))
    ensure(abs(r2 - 1) <= max(0.5*abs(r1 - 1), 0.04), 'three times finer mesh: error of the deflection %.3g, coarse %.3g', r2 - 1, r1 - 1)
    rec.hit()


SUBS = [Sub('supported', supported, check_supported, 500, 12000),
        Sub('patch', patches, check_patch, 400, 10000),
        Sub('navier', navier, check_navier, 48, 600),
        Sub('convergence', lambda: ssplate.plates(), check_convergence, 16, 200)]
