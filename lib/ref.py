"""Reference model of the discretisation, written from the theory (README.rst
of theory/espim/2D/plate/FSDT and the ES-PIM literature), not from the code:
constant-strain triangle gradients, area-weighted strain smoothing, and
discrete shear gap (DSG3) matrices. Everything is in the order of the
generated nodes.

Each matrix comes with S, the matrix of accumulated absolute values of the
terms that were added up: the scale against which round-off is measured.
"""
import numpy as np

DOF = 5


def edges_of(tris):
    """{(i, j), i < j: [triangles, in order]}"""
    out = {}
    for k, t in enumerate(tris):
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            out.setdefault((min(a, b), max(a, b)), []).append(k)
    return out


def area2(p, q, r):
    return (q[0]-p[0])*(r[1]-p[1]) - (q[1]-p[1])*(r[0]-p[0])


def gradients(pts, tris):
    """[(area, {node: (d/dx, d/dy)})] of the linear shape functions"""
    out = []
    for t in tris:
        p, q, r = [pts[i] for i in t]
        d = area2(p, q, r)
        g = {}
        for (i, j, k) in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
            pj, pk = pts[t[j]], pts[t[k]]
            g[t[i]] = ((pj[1]-pk[1])/d, (pk[0]-pj[0])/d)
        out.append((abs(d)/2, g))
    return out


class Domain(object):
    """Smoothing domain of one edge"""
    def __init__(self, edge, ts, area, grad, areas):
        self.edge = edge
        self.ts = ts
        self.area = area
        self.grad = grad       # {node: (gx, gy)} smoothed
        self.areas = areas     # part in each adjacent triangle


def domains(pts, tris, order=None):
    cst = gradients(pts, tris)
    out = []
    for e, ts in edges_of(tris).items():
        if order is not None:
            ts = order[e]
        areas = [cst[t][0]/3 for t in ts]
        A = sum(areas)
        g = {}
        for t, a in zip(ts, areas):
            for i, (gx, gy) in cst[t][1].items():
                ox, oy = g.get(i, (0., 0.))
                g[i] = (ox + a/A*gx, oy + a/A*gy)
        out.append(Domain(e, ts, A, g, areas))
    return out


def other(tri, e):
    return [i for i in tri if i not in e][0]


def mix(vals):
    return sum(w*v for w, v in vals)


def corner_weights(dom, tris):
    """{node: weight}: average over the corners of the smoothing domain of the
    values interpolated to those corners"""
    i, j = dom.edge
    corners = [{i: 1.}, {j: 1.}]
    for t in dom.ts:
        corners.append(dict((n, 1/3.) for n in tris[t]))
    w = {}
    for c in corners:
        for n, v in c.items():
            w[n] = w.get(n, 0.) + v/len(corners)
    return w


def dom_prop(dom, tris, get, nodeprops, triaprops):
    """Constitutive quantity `get(laminate)` of a smoothing domain"""
    if nodeprops is not None:
        return mix([(w, get(nodeprops[n])) for n, w in corner_weights(dom, tris).items()])
    return mix([(a/dom.area, get(triaprops[t])) for t, a in zip(dom.ts, dom.areas)])


def _strain_matrices(dom, n):
    nodes = list(dom.grad)
    Bm = np.zeros((3, 5*len(nodes)))
    Bb = np.zeros((3, 5*len(nodes)))
    for k, i in enumerate(nodes):
        gx, gy = dom.grad[i]
        for B, o in ((Bm, 0), (Bb, 3)):
            B[0, 5*k+o] = gx
            B[1, 5*k+o+1] = gy
            B[2, 5*k+o] = gy
            B[2, 5*k+o+1] = gx
    idx = np.concatenate([np.arange(5) + 5*i for i in nodes])
    return Bm, Bb, idx


def k0(pts, tris, nodeprops=None, triaprops=None):
    n = len(pts)
    K = np.zeros((5*n, 5*n))
    S = np.zeros_like(K)
    for dom in domains(pts, tris):
        A = dom_prop(dom, tris, lambda p: np.asarray(p.A), nodeprops, triaprops)
        B = dom_prop(dom, tris, lambda p: np.asarray(p.B), nodeprops, triaprops)
        D = dom_prop(dom, tris, lambda p: np.asarray(p.D), nodeprops, triaprops)
        C = np.block([[A, B], [B, D]])
        Bm, Bb, idx = _strain_matrices(dom, n)
        G = np.vstack([Bm, Bb])
        K[np.ix_(idx, idx)] += dom.area*G.T.dot(C).dot(G)
        # scale: largest gradient of the domain, so that the cancellation of
        # the boundary integrals is covered
        gm = max(max(abs(gx), abs(gy)) for gx, gy in dom.grad.values())
        Ga = np.where(np.abs(G) > 0, gm, 0.)
        for row in range(6):
            Ga[row] = np.where(np.abs(Ga).max(axis=0) > 0, gm, 0.)
        uv = np.tile(np.array([1., 1., 0, 0, 0]), len(dom.grad))
        ph = np.tile(np.array([0, 0, 0, 1., 1.]), len(dom.grad))
        S[np.ix_(idx, idx)] += dom.area*gm*gm*(
            np.outer(uv, uv)*np.abs(A).max() + np.outer(ph, ph)*np.abs(D).max()
            + (np.outer(uv, ph) + np.outer(ph, uv))*max(np.abs(B).max(), 1e-3*np.sqrt(np.abs(A).max()*np.abs(D).max())))
    return K, S


def resultants(dom, tris, d, nodeprops, triaprops):
    """(Nxx, Nyy, Nxy) of a smoothing domain, and its scale"""
    A = dom_prop(dom, tris, lambda p: np.asarray(p.A), nodeprops, triaprops)
    B = dom_prop(dom, tris, lambda p: np.asarray(p.B), nodeprops, triaprops)
    Bm, Bb, idx = _strain_matrices(dom, None)
    dl = d[idx]
    N = A.dot(Bm.dot(dl)) + B.dot(Bb.dot(dl))
    gm = max(max(abs(gx), abs(gy)) for gx, gy in dom.grad.values())
    dm = np.abs(dl).reshape(-1, 5)
    # couplings that cancel (of a laminate or of the neighbours) leave roundings
    # behind: the scale of B is not zero where B is
    D = dom_prop(dom, tris, lambda p: np.asarray(p.D), nodeprops, triaprops)
    Bs = max(np.abs(B).max(), 1e-3*np.sqrt(np.abs(A).max()*np.abs(D).max()))
    Ns = np.abs(A).max()*gm*dm[:, :2].sum()*2 + Bs*gm*dm[:, 3:].sum()*2
    return N, Ns


def kG(pts, tris, d, nodeprops=None, triaprops=None):
    n = len(pts)
    K = np.zeros((5*n, 5*n))
    S = np.zeros_like(K)
    d = np.asarray(d, dtype=float)
    for dom in domains(pts, tris):
        (Nxx, Nyy, Nxy), Ns = resultants(dom, tris, d, nodeprops, triaprops)
        nodes = list(dom.grad)
        G = np.array([dom.grad[i] for i in nodes]).T
        Nm = np.array([[Nxx, Nxy], [Nxy, Nyy]])
        idx = np.array(nodes)*5 + 2
        K[np.ix_(idx, idx)] += dom.area*G.T.dot(Nm).dot(G)
        gm = np.abs(G).max()
        S[np.ix_(idx, idx)] += dom.area*4*gm*gm*Ns
    return K, S


# --- transverse shear: discrete shear gap ---------------------------------

def dsg(p0, p1, p2, area=None):
    """DSG3 matrices of the three nodes (each 2x3 for w, phix, phiy; rows gxz,
    gyz): p0 is the node at which both shear gaps vanish. Counter-clockwise."""
    a, b = p1[0]-p0[0], p1[1]-p0[1]
    c, d = p2[0]-p0[0], p2[1]-p0[1]
    if area is None:
        area = (a*d - b*c)/2
    f = 1/(2*area)
    B0 = f*np.array([[b-d, area, 0], [c-a, 0, area]])
    B1 = f*np.array([[d, a*d/2, b*d/2], [-c, -a*c/2, -b*c/2]])
    B2 = f*np.array([[-b, -b*c/2, -b*d/2], [a, a*c/2, a*d/2]])
    return B0, B1, B2


def _add_shear(K, S, area, nodes, Bs, C):
    """Bs: {node: 2x3}"""
    nodes = list(nodes)
    G = np.hstack([Bs[i] for i in nodes])
    idx = np.concatenate([np.array([2, 3, 4]) + 5*i for i in nodes])
    K[np.ix_(idx, idx)] += area*G.T.dot(C).dot(G)
    ww = np.tile([True, False, False], len(nodes))
    gw = np.abs(G[:, ww]).max()
    gp = max(np.abs(G[:, ~ww]).max(), 0.25)
    g = np.where(ww, gw, gp)
    S[np.ix_(idx, idx)] += area*np.abs(C).max()*4*np.outer(g, g)


def ccw(pts, t):
    """As documented in the code under test: a clockwise triangle is taken with
    its first two nodes exchanged"""
    t = list(t)
    if area2(*[pts[i] for i in t]) < 0:
        t[0], t[1] = t[1], t[0]
    return t


def tri_shear_prop(t, k, nodeprops, triaprops, get):
    if nodeprops is not None:
        return sum(get(nodeprops[i]) for i in t)/3.
    return get(triaprops[k])


def shear_moduli(get, alpha, length):
    """Diagonal stiffness (xz, yz), reduced with the shear correction"""
    k13 = get(lambda p: p.scf_k13)
    k23 = get(lambda p: p.scf_k23)
    E = get(lambda p: np.asarray(p.E))
    h = get(lambda p: p.h)
    r = 1/(1 + alpha*length**2/h**2)
    return r*k13*E[1, 1], r*k23*E[0, 0], r*min(k13, k23)*E[0, 1]


def k0s_cell(pts, tris, alpha, from_area, nodeprops=None, triaprops=None, smoothing=True):
    n = len(pts)
    K = np.zeros((5*n, 5*n))
    S = np.zeros_like(K)
    for k, t in enumerate(tris):
        t = ccw(pts, t)
        P = [np.array(pts[i][:2]) for i in t]
        A = area2(*P)/2
        length = np.sqrt(A) if from_area else max(np.hypot(*(P[i]-P[j])) for i, j in ((0, 1), (1, 2), (2, 0)))
        cx, cy, _ = shear_moduli(lambda f: tri_shear_prop(t, k, nodeprops, triaprops, f), alpha, length)
        if smoothing:
            mid = (P[0]+P[1]+P[2])/3
            Bs = dict((i, np.zeros((2, 3))) for i in t)
            for i, j in ((0, 1), (1, 2), (2, 0)):
                B0, B1, B2 = dsg(mid, P[i], P[j])
                w = (area2(mid, P[i], P[j])/2)/A
                for q in t:
                    Bs[q] += w*B0/3
                Bs[t[i]] += w*B1
                Bs[t[j]] += w*B2
        else:
            Bs = dict(zip(t, dsg(*P)))
        _add_shear(K, S, A, t, Bs, np.diag([cx, cy]))
    return K, S


def k0s_edge(pts, tris, alpha, from_area, nodeprops=None, triaprops=None, defect=None, order=None):
    """order: {edge: triangles} says which triangle of an edge comes first (the
    shear gaps of the second one vanish at a node instead of its centre).
    defect='y': the first sub-triangle of interior edges is given the z
    instead of the y coordinate of its first node (known finding)"""
    n = len(pts)
    K = np.zeros((5*n, 5*n))
    S = np.zeros_like(K)
    for dom in domains(pts, tris, order):
        i, j = dom.edge
        mids = [sum(np.array(pts[q][:2]) for q in tris[t])/3 for t in dom.ts]
        if area2(pts[i], pts[j], mids[0]) < 0:
            i, j = j, i
        Pi, Pj = np.array(pts[i][:2]), np.array(pts[j][:2])
        L = np.hypot(*(Pi-Pj))
        legs = [np.hypot(*(p-m)) for p in (Pi, Pj) for m in mids]
        length = np.sqrt(dom.area) if from_area else max([L] + legs)
        cx, cy, cxy = shear_moduli(lambda f: dom_prop(dom, tris, f, nodeprops, triaprops), alpha, length)
        nodes = list(dom.grad)
        Bs = dict((q, np.zeros((2, 3))) for q in nodes)
        a1 = area2(mids[0], Pi, Pj)/2
        Pd = Pi
        if defect == 'y' and len(mids) == 2:
            Pd = np.array([Pi[0], pts[i][2]])
        B0, B1, B2 = dsg(mids[0], Pd, Pj, area=a1)
        w = a1/dom.area
        for q in tris[dom.ts[0]]:
            Bs[q] = Bs[q] + w*B0/3
        Bs[i] = Bs[i] + w*B1
        Bs[j] = Bs[j] + w*B2
        if len(mids) == 2:
            a2 = area2(Pi, mids[1], Pj)/2
            B0, B1, B2 = dsg(Pi, mids[1], Pj)
            w = a2/dom.area
            Bs[i] = Bs[i] + w*B0
            for q in tris[dom.ts[1]]:
                Bs[q] = Bs[q] + w*B1/3
            Bs[j] = Bs[j] + w*B2
            C = np.array([[cx, cxy], [cxy, cy]])
        else:
            C = np.diag([cx, cy])
        _add_shear(K, S, dom.area, nodes, Bs, C)
    return K, S
