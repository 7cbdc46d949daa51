"""Simply supported rectangular cross-ply plates: exact (Navier) solutions of
the first-order shear deformation theory, and their models"""
import math
import random

import numpy as np

from lib import mesh as M
from lib.core import as_matrix, call
from lib.gen import st


@st.composite
def plates(draw, nmin=8, nmax=10, jitter=(0, 0, 10, 20)):
    a = draw(st.sampled_from([1., 0.4, 25.]))
    r = draw(st.sampled_from([1., 1., 0.8, 1.25, 1.5]))
    n = draw(st.integers(nmin, nmax))
    nx, ny = (n, max(5, round(n*r))) if r < 1.3 else (n, round(n*1.2))
    hr = draw(st.sampled_from([0.1, 0.05, 0.02, 0.01, 1/300., 1e-3, 1e-4]))
    E = draw(st.sampled_from([71e9, 2.1e5]))
    kind = draw(st.sampled_from(['iso', 'iso', 'cross', 'ortho']))
    h = hr*a
    if kind == 'iso':
        lam = dict(kind='iso', E=E, nu=draw(st.sampled_from([0., 0.3, 0.33])), h=h, offset=0.)
    else:
        stack = dict(cross=[0, 90, 90, 0], ortho=[draw(st.sampled_from([0, 90]))])[kind]
        e2 = draw(st.sampled_from([0.1, 0.3]))
        lam = dict(kind='ortho', stack=stack, plyts=[h/len(stack)]*len(stack), offset=0.,
                   prop=[E, E*e2, 0.3, E*0.06, E*0.06, E*0.04], scf=draw(st.booleans()))
    return dict(a=a, b=a*r, nx=nx, ny=ny, lam=lam, jitter=draw(st.sampled_from(jitter)),
                diag=draw(st.sampled_from(['/', '\\', 'random'])), seed=draw(st.integers(0, 2**31)),
                shift=draw(st.sampled_from([[0., 0.], [0., 0.], [-.5, -.5], [3., -7.]])),
                turn=draw(st.booleans()), method=draw(st.sampled_from(M.METHODS[:2])),
                alpha=draw(st.sampled_from([0., 0.08, 0.1, 0.2] if hr >= 0.05 else [0.08, 0.1, 0.2])), pn=draw(st.booleans()))


def grid(c, nx=None, ny=None):
    """mesh data; the plate occupies (0, a) x (0, b) before the shift"""
    nx, ny = nx or c['nx'], ny or c['ny']
    rnd = random.Random(c['seed'])
    dx, dy = c['a']/nx, c['b']/ny
    P = []
    for j in range(ny + 1):
        for i in range(nx + 1):
            x, y = i*dx, j*dy
            if 0 < i < nx and 0 < j < ny:
                x += rnd.uniform(-1, 1)*dx*c['jitter']/100.
                y += rnd.uniform(-1, 1)*dy*c['jitter']/100.
            P.append([x, y, 0.])
    tris = []
    for j in range(ny):
        for i in range(nx):
            p = j*(nx + 1) + i
            q, r, s = p + 1, p + nx + 2, p + nx + 1
            d = c['diag'] if c['diag'] != 'random' else rnd.choice('/\\')
            tris += [[p, q, r], [p, r, s]] if d == '/' else [[p, q, s], [q, r, s]]
    tris = [t if rnd.random() < .5 else [t[0], t[2], t[1]] for t in tris]
    perm = list(range(len(P)))
    rnd.shuffle(perm)
    Q = [None]*len(P)
    for i, p in enumerate(perm):
        Q[p] = P[i]
    return dict(kind='grid', pts=Q, tris=[[perm[i] for i in t] for t in tris], size=dx, src=dict(kind='cloud'))


class Plate(object):
    """Assembled model. X: positions in the plate's axes, ex/ey: nodes at the
    edges x = const / y = const, K: stiffness in the order of the nodes"""
    def __init__(self, c, nx=None, ny=None):
        from meshless.espim.plate2d_calc_k0 import calc_k0
        from meshless.espim.plate2d_add_k0s import add_k0s
        m = grid(c, nx, ny)
        self.X = np.array(m['pts'])
        m = dict(m, pts=[[x + c['shift'][0]*c['a'], y + c['shift'][1]*c['b'], 0.] for x, y, _ in m['pts']])
        self.c, self.m = c, m
        self.mod = M.make(m)
        self.lam = M.build_laminate(c['lam'])
        for o in self.mod.nodes if c['pn'] else self.mod.trias:
            o.prop = self.lam
        self.n = n = self.mod.n
        K = call('calc_k0', calc_k0, self.mod.mesh, c['pn'])
        self.K0 = self.mod.ordered(as_matrix('stiffness', K, 5*n))
        K = call('add_k0s', add_k0s, K, self.mod.mesh, c['pn'], c['method'], alpha=c['alpha'])
        self.K = self.mod.ordered(as_matrix('stiffness', K, 5*n))
        x, y = self.X[:, 0], self.X[:, 1]
        e = 1e-9*c['a']
        self.ex = np.flatnonzero((x < e) | (x > c['a'] - e))
        self.ey = np.flatnonzero((y < e) | (y > c['b'] - e))

    def bending_free(self):
        """free degrees of freedom of bending of the simply supported plate"""
        fix = np.zeros((self.n, 5), dtype=bool)
        fix[:, :2] = True
        fix[self.ex, 2] = fix[self.ey, 2] = True
        fix[self.ex, 4] = True
        fix[self.ey, 3] = True
        return np.flatnonzero(~fix.ravel())

    def nodal_areas(self):
        A = np.zeros(self.n)
        for t in self.m['tris']:
            p, q, r = self.X[t, :2]
            A[t] += abs((q[0]-p[0])*(r[1]-p[1]) - (r[0]-p[0])*(q[1]-p[1]))/6
        return A

    def kG(self, d):
        from meshless.espim.plate2d_calc_kG import calc_kG
        G = call('calc_kG', calc_kG, self.mod.scatter(d), self.mod.mesh, self.c['pn'])
        return self.mod.ordered(as_matrix('geometric stiffness', G, 5*self.n))


def fsdt(lam, a, b, m, n):
    """condensed stiffness of w = sin(m pi x/a) sin(n pi y/b)"""
    al, be = m*math.pi/a, n*math.pi/b
    D = np.asarray(lam.D)
    E = np.asarray(lam.E)
    A44 = E[0, 0]*lam.scf_k23
    A55 = E[1, 1]*lam.scf_k13
    K = np.array([[A55*al**2 + A44*be**2, A55*al, A44*be],
                  [A55*al, D[0, 0]*al**2 + D[2, 2]*be**2 + A55, (D[0, 1] + D[2, 2])*al*be],
                  [A44*be, (D[0, 1] + D[2, 2])*al*be, D[2, 2]*al**2 + D[1, 1]*be**2 + A44]])
    return K[0, 0] - K[0, 1:].dot(np.linalg.solve(K[1:, 1:], K[1:, 0]))


def solve(K, f, free):
    """deflections under nodal forces f (scaled to be well conditioned)"""
    A = K[np.ix_(free, free)]
    s = 1/np.sqrt(np.maximum(np.abs(np.diag(A)), 1e-300))
    u = np.zeros(len(f))
    u[free] = s*np.linalg.solve(A*np.outer(s, s), f[free]*s)
    return u
