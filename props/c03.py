"""Edge-based smoothing domains"""
import numpy as np

from lib import kit, ref
from lib.core import Sub, call, close, ensure
from lib.gen import st

RULE = ('Same plates as C04; every smoothing domain that the constitutive stiffness sets up is examined; '
        'non-trivial: at least one interior edge.')
ASSUMPTIONS = []


def check(case, rec):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    mod, lams = kit.setup(case)
    inner = kit.labels(case, rec)
    m = case['mesh']
    pts = np.array(m['pts'], dtype=float)
    for _ in range(case['calls']):
        call('calc_k0', calc_k0, mod.mesh, case['pn'])
    size = m['size']
    # round-off: coordinates can be large compared to the triangles
    big = np.abs(pts).max() + size
    tolx = 1e-11*big
    tola = 1e-11*big*big
    areas = [abs(ref.area2(*pts[list(t)][:, :2]))/2 for t in m['tris']]
    want = ref.edges_of(m['tris'])
    pos = dict((id(nd), k) for k, nd in enumerate(mod.nodes))
    tpos = dict((id(t), k) for k, t in enumerate(mod.trias))
    total = 0.
    ensure(len(mod.mesh.edges) == len(want), '%d smoothing domains for %d edges', len(mod.mesh.edges), len(want))
    for e in mod.mesh.edges.values():
        i, j = sorted((pos[id(e.n1)], pos[id(e.n2)]))
        ts = want[i, j]
        name = 'domain of edge %s' % ((i, j),)
        A = sum(areas[t] for t in ts)/3
        close('area of the ' + name, [e.Ac], [A], [1.], tola, rec)
        total += e.Ac
        # corners: ends of the edge and centres of the adjacent triangles
        mids = [pts[list(m['tris'][t])].mean(axis=0) for t in ts]
        corners = [pts[i], pts[j]] + mids
        sd = np.asarray(e.sdomain, dtype=float)
        ensure(sd.ndim == 2 and sd.shape[1] == 3, '%s: corners of shape %s', name, sd.shape)
        for c in corners:
            ensure(np.abs(sd - c).max(axis=1).min() <= tolx, '%s has no corner at %s', name, c)
        for c in sd:
            ensure(min(np.abs(c - q).max() for q in corners) <= tolx, '%s has the foreign corner %s', name, c)
        # opposite nodes
        opp = [ref.other(m['tris'][t], (i, j)) for t in ts]
        got = [pos[id(q)] for q in (e.othernode1, e.othernode2) if q is not None]
        ensure(sorted(got) == sorted(opp) and e.othernode1 is not None, '%s: opposite nodes %s, not %s', name, got, opp)
        ensure([tpos[id(t)] for t in e.trias][0] in [t for t in ts if ref.other(m['tris'][t], (i, j)) == got[0]],
               '%s: the first opposite node is not of the first triangle', name)
        # sides: each side of the polygon has one integration point at its middle
        ring = [pts[i], mids[0], pts[j]] + ([mids[1]] if len(mids) == 2 else [])
        sides = [(ring[k], ring[(k+1) % len(ring)]) for k in range(len(ring))]
        ensure(len(e.ipts) == len(sides), '%s has %d integration points for %d sides', name, len(e.ipts), len(sides))
        cen = np.mean(ring, axis=0)
        todo = list(range(len(sides)))
        flux = np.zeros(2)
        gauss = np.zeros((2, 2))
        for ip in e.ipts:
            d = [np.abs(ip.xyz - (sides[k][0] + sides[k][1])/2).max() if k in todo else np.inf for k in range(len(sides))]
            k = int(np.argmin(d))
            ensure(d[k] <= tolx, '%s: integration point at %s is not at the middle of a side', name, ip.xyz)
            todo.remove(k)
            a, b = sides[k]
            L = np.hypot(*(b-a)[:2])
            close('%s: length of a side' % name, [ip.le], [L], [1.], tolx, rec)
            nv = np.array([ip.nx, ip.ny])
            # directions: round-off relative to the side
            tn = max(1e-11, 10*tolx/L)
            close('%s: norm of a normal' % name, [np.hypot(*nv)], [1.], [1.], 1e-12)
            close('%s: normal along its side' % name, [nv.dot((b-a)[:2])/L], [0.], [1.], tn, rec)
            # outward: the domain lies behind the side (star-shaped about the middle of the edge)
            mid_edge = (pts[i] + pts[j])[:2]/2
            inside = mid_edge if len(ts) == 2 else np.mean([pts[i], pts[j], mids[0]], axis=0)[:2]
            ensure(nv.dot(((a+b)/2)[:2] - inside) > 0, '%s: normal at %s points inwards', name, ip.xyz)
            close('%s: z of a normal' % name, [ip.nz], [0.], [1.], 1e-12)
            # shape functions
            ensure(ip.tria in e.trias, '%s: integration point of a foreign triangle', name)
            ns = [pos[id(q)] for q in (ip.n1, ip.n2, ip.n3)]
            ensure(sorted(ns) == sorted(m['tris'][tpos[id(ip.tria)]]), '%s: integration point with nodes %s', name, ns)
            f = np.array([ip.f1, ip.f2, ip.f3], dtype=float)
            close('%s: sum of shape functions' % name, [f.sum()], [1.], [1.], 1e-13)
            close('%s: interpolated position' % name, f.dot(pts[ns]), (a+b)/2, np.ones(3), tolx, rec)
            flux += ip.le*nv
            gauss += ip.le*np.outer(nv, np.asarray(ip.xyz)[:2] - cen[:2])
        per = sum(ip.le for ip in e.ipts)
        close('%s: closed boundary' % name, flux, [0., 0.], [1., 1.], max(10*tolx, 1e-12*per), rec)
        close('%s: divergence theorem' % name, gauss, np.eye(2)*A, np.ones((2, 2)), max(10*tola, 1e-11*per**2), rec)
    close('total area of the domains', [total], [sum(areas)], [1.], tola*max(1, len(areas)), rec)
    # degrees of freedom: every node has its own rows
    idx = sorted(int(nd.index) for nd in mod.nodes)
    ensure(idx == list(range(mod.n)), 'positions of the nodes in the matrices are %s', idx)
    rec.hit(inner)


@st.composite
def strategy(draw, **kw):
    c = draw(kit.model(simple=True, **kw))
    c['calls'] = draw(st.sampled_from([1, 1, 1, 2]))
    return c


SUBS = [Sub('domains', lambda: strategy(big=True), check, 600, 12000),
        Sub('large', lambda: strategy(kinds=('grid',), big='always'), check, 16, 300)]
