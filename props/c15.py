"""Linear buckling: known buckling loads of simply supported plates, scaling
with the load, and equivalent models"""
import math

import numpy as np

from lib import kit, ref, ssplate
from lib.core import Skip, Sub, call, close, ensure
from lib.gen import st

RULE = ('Simply supported rectangular isotropic and cross-ply plates, aspect 0.8-1.5, h/a 1/100-1/10, jittered grids, '
        'arbitrary numbering, under uniform uniaxial, biaxial or mixed in-plane stress obtained from linear displacements '
        'or from an edge load solved with the assembled stiffness; non-trivial: a finite load factor is compared.')
ASSUMPTIONS = ['first-order shear deformation theory (Navier) is the reference: 8-10 elements per half wave, 25% (observed 13%)',
               'the eigenvalue solvers (structsolve.lb, scipy.linalg.eigh) are trusted']


def kuu_load(P, N):
    """linear displacements whose stress resultants are N = (Nxx, Nyy)"""
    A = np.asarray(P.lam.A)
    e = np.linalg.solve(A, np.array([N[0], N[1], 0.]))
    d = np.zeros((P.n, 5))
    d[:, 0] = e[0]*P.X[:, 0]
    d[:, 1] = e[1]*P.X[:, 1]
    return d.ravel()


def edge_load(P, N):
    """displacements under edge forces N (per length), solved"""
    f = np.zeros((P.n, 5))
    x, y = P.X[:, 0], P.X[:, 1]
    a, b = P.c['a'], P.c['b']
    for j, (u, v, top, n) in enumerate(((x, y, a, N[0]), (y, x, b, N[1]))):
        for at, sgn in ((0., -1), (top, 1)):
            ids = np.flatnonzero(np.abs(u - at) < 1e-9*a)
            ids = ids[np.argsort(v[ids])]
            for p, q in zip(ids[:-1], ids[1:]):
                F = sgn*n*(v[q] - v[p])/2
                f[p, j] += F
                f[q, j] += F
    fix = np.zeros((P.n, 5), dtype=bool)
    fix[:, 2:] = True
    c0 = int(np.argmin(x + y))
    c1 = int(np.argmin(np.abs(x - a) + y))
    fix[c0, :2] = True
    fix[c1, 1] = True
    return ssplate.solve(P.K, f.ravel(), np.flatnonzero(~fix.ravel()))


def exact(P, N):
    a, b = P.c['a'], P.c['b']
    best = math.inf
    for m in range(1, 7):
        for n in range(1, 7):
            q = -(N[0]*(m*math.pi/a)**2 + N[1]*(n*math.pi/b)**2)
            if q > 0:
                best = min(best, ssplate.fsdt(P.lam, a, b, m, n)/q)
    return best


def factor(P, G, solver='dense'):
    """lowest positive load factor"""
    from scipy.linalg import eigh
    free = P.bending_free()
    if solver == 'structsolve':
        from scipy.sparse import coo_matrix
        from structsolve import lb
        fix = np.setdiff1d(np.arange(5*P.n), free)
        K, G = P.K.copy(), G.copy()
        for A in (K, G):
            A[fix] = 0
            A[:, fix] = 0
        vals, _ = lb(coo_matrix(K), coo_matrix(G), silent=True, num_eigvalues=5)
        vals = np.array([v for v in vals if v > 0])
        return vals.min() if vals.size else math.inf
    A, B = P.K[np.ix_(free, free)], G[np.ix_(free, free)]
    s = 1/np.sqrt(np.abs(np.diag(A)))
    mu = eigh(-B*np.outer(s, s), A*np.outer(s, s), eigvals_only=True)
    return 1/mu[-1] if mu[-1] > 0 else math.inf


@st.composite
def navier(draw):
    c = draw(ssplate.plates(jitter=(0, 0, 10)))
    c['N'] = draw(st.sampled_from([[-1, 0], [-1, 0], [0, -1], [-1, -1], [-2, -1], [-1, .3], [.25, -1], [-1, -.5]]))
    c['mag'] = draw(st.sampled_from([1., 1e5, 1e-4]))
    c['how'] = draw(st.sampled_from(['linear', 'linear', 'solved']))
    c['solver'] = draw(st.sampled_from(['dense', 'dense', 'structsolve']))
    return c


def check_navier(case, rec):
    P = ssplate.Plate(case)
    N = np.array(case['N'])*case['mag']
    ex = exact(P, N)
    d = (kuu_load if case['how'] == 'linear' else edge_load)(P, N)
    G = P.kG(d)
    lam = factor(P, G, case['solver'])
    rec.label('method:' + case['method'], 'load:%g,%g' % tuple(case['N']), 'how:' + case['how'],
              'laminate:' + case['lam']['kind'], 'solver:' + case['solver'])
    lim = 0.25
    rec.maxerr = max(rec.maxerr, abs(lam/ex - 1)/lim)
    ensure(abs(lam/ex - 1) <= lim, 'buckling load factor is %g, exact %g (ratio %.4f)', lam, ex, lam/ex)
    # load scaled, reversed
    if case['solver'] == 'dense':
        lam2 = factor(P, P.kG(3.*d))
        ensure(abs(3*lam2/lam - 1) < 1e-6, 'three times the load: load factor %g, was %g', lam2, lam)
    rec.hit()


def check_tension(case, rec):
    """a plate in tension does not buckle"""
    P = ssplate.Plate(case)
    N = -np.array(case['N'])*case['mag']
    if N.min() < 0:
        raise Skip()
    G = P.kG(kuu_load(P, N))
    w = np.linalg.eigvalsh(G[2::5, 2::5])
    ensure(w[0] >= -1e-9*w[-1], 'tension softens the plate: eigenvalue %g of the geometric stiffness (largest %g)', w[0], w[-1])
    ensure(w[-1] > 0, 'no geometric stiffness in tension')
    lam = factor(P, G)
    ex = exact(P, -N)
    ensure(lam > 1e4*ex, 'plate in tension buckles at load factor %g (compression: %g)', lam, ex)
    rec.hit()


@st.composite
def small(draw):
    c = draw(ssplate.plates(nmin=3, nmax=5, jitter=(0, 15, 25)))
    c['N'] = [-1, draw(st.sampled_from([0, -1, .2]))]
    c['k'] = draw(st.sampled_from([1e-3, .5, 7., 1e4]))
    c['unit'] = draw(st.sampled_from([1e-3, 25.4, 1e3]))
    return c


def check_same(case, rec):
    """other numbering, position and units: same load factor; k times stiffer: k times the factor"""
    P = ssplate.Plate(case)
    d = kuu_load(P, case['N'])
    lam = factor(P, P.kG(d))
    c2 = dict(case, shift=[case['shift'][0] + 1.5, -2.], nx=case['nx'])
    L = case['unit']
    lam_c = dict(case['lam'])
    for k in ('h', 'plyts'):
        if k in lam_c:
            lam_c[k] = [t*L for t in lam_c[k]] if k == 'plyts' else lam_c[k]*L
    f = case['k']/L**2
    if 'E' in lam_c:
        lam_c['E'] *= f
    else:
        lam_c['prop'] = [p*f if i != 2 else p for i, p in enumerate(lam_c['prop'])]
    c2.update(a=case['a']*L, b=case['b']*L, lam=lam_c)
    P2 = ssplate.Plate(c2)
    # the stress resultants have the dimension force/length; forces times k
    N2 = [n*case['k']/L for n in case['N']]
    lam2 = factor(P2, P2.kG(kuu_load(P2, N2)))
    rec.maxerr = max(rec.maxerr, abs(lam2/lam - 1)/1e-6)
    ensure(abs(lam2/lam - 1) < 1e-6, 'load factor %g of the same plate in other units is %g', lam, lam2)
    lam3 = factor(P2, P2.kG(kuu_load(P2, case['N'])))
    ensure(abs(lam3/(lam*case['k']/L) - 1) < 1e-6, 'load factor for the unscaled load: %g, expected %g', lam3, lam*case['k']/L)
    rec.label('unit:%g' % L, 'method:' + case['method'])
    rec.hit()


@st.composite
def tension(draw):
    c = draw(ssplate.plates(nmin=3, nmax=6, jitter=(0, 15, 25)))
    c['N'] = draw(st.sampled_from([[-1, 0], [0, -1], [-1, -1], [-2, -1]]))
    c['mag'] = draw(st.sampled_from([1., 1e5]))
    return c


SUBS = [Sub('navier', navier, check_navier, 56, 600),
        Sub('tension', tension, check_tension, 40, 400),
        Sub('same', small, check_same, 64, 800)]
