"""Generators (Hypothesis strategies) of triangulated plates, laminates and
displacement vectors. Every strategy yields plain JSON data: the generated case
is fully expanded, so that a replay does not depend on the generator."""
import math
import random

from lib import env
env.import_hypothesis()
from hypothesis import strategies as st  # noqa

KINDS = ('grid', 'grid', 'grid', 'grid', 'delaunay', 'delaunay', 'delaunay', 'fan', 'fan', 'single', 'pair',
         'cross', 'stagger', 'lattice', 'rect', 'rect')
SCALES = [1., 0.37, 1e-2, 1e-3, 1e2, 1e4, 2.5e-5, 1e-7, 3e6]


def tri_quality(p, q, r):
    """4*sqrt(3)*area/sum(l^2): 1 for equilateral, 0 for degenerate"""
    a = (q[0]-p[0])*(r[1]-p[1]) - (q[1]-p[1])*(r[0]-p[0])
    l2 = ((q[0]-p[0])**2+(q[1]-p[1])**2 + (r[0]-q[0])**2+(r[1]-q[1])**2
          + (p[0]-r[0])**2+(p[1]-r[1])**2)
    return 2*math.sqrt(3)*abs(a)/l2 if l2 else 0.


def _orient(rnd, tris, xy, how, rot):
    out = []
    for t in tris:
        t = list(t)
        p, q, r = [xy[i] for i in t]
        a = (q[0]-p[0])*(r[1]-p[1]) - (q[1]-p[1])*(r[0]-p[0])
        ccw = a > 0
        want = {'ccw': True, 'cw': False}.get(how)
        if want is None:
            want = rnd.random() < 0.5
        if ccw != want:
            t[1], t[2] = t[2], t[1]
        if rot:
            k = rnd.randrange(3)
            t = t[k:] + t[:k]
        out.append(t)
    return out


@st.composite
def base_mesh(draw, max_cells=4, kinds=('grid', 'delaunay', 'fan', 'single', 'pair'), big=False,
              connected=False):
    """Integer coordinates, triangles (local node order matters)"""
    kind = draw(st.sampled_from(kinds))
    # neighbours of very different size, needles
    graded = draw(st.integers(0, 9)) == 0 and big != 'always'
    rnd = random.Random(draw(st.integers(0, 2**32 - 1)))
    deep = env.DEEP and draw(st.integers(0, 3)) == 0
    if deep:
        max_cells += 3
    if kind == 'grid':
        nx = draw(st.integers(1, max_cells))
        ny = draw(st.integers(1, max_cells))
        if big and draw(st.integers(0, 9)) == 0:
            nx, ny = draw(st.integers(5, 9)), draw(st.integers(5, 8))
        if big == 'always':     # more than 256 nodes
            nx, ny = draw(st.integers(15, 19)), draw(st.integers(16, 18))
        jit = draw(st.sampled_from([0, 0, 10, 25]))
        ax, ay = draw(st.sampled_from([(100, 100), (100, 100), (100, 60), (40, 100), (100, 20)]))
        if graded:
            xs, ys = [0], [0]
            for k, w in ((nx, xs), (ny, ys)):
                for _ in range(k):
                    w.append(w[-1] + rnd.choice([200, 100, 100, 30, 3, 1]))
        xy = []
        for j in range(ny+1):
            for i in range(nx+1):
                xy.append([xs[i], ys[j]] if graded else
                          [i*ax + rnd.randint(-jit, jit)*ax//100, j*ay + rnd.randint(-jit, jit)*ay//100])
        diag = draw(st.sampled_from(['/', '\\', 'random']))
        tris = []
        for j in range(ny):
            for i in range(nx):
                a = j*(nx+1)+i
                b, c, d = a+1, a+nx+2, a+nx+1
                dg = diag if diag != 'random' else rnd.choice('/\\')
                tris += [[a, b, c], [a, c, d]] if dg == '/' else [[a, b, d], [b, c, d]]
    elif kind == 'cross':
        # the centroids are exactly above or beside nodes
        nx, ny = draw(st.integers(1, max(1, max_cells - 1))), draw(st.integers(1, max(1, max_cells - 1)))
        ax, ay = draw(st.sampled_from([(100, 100), (100, 60), (60, 120)]))
        xy = [[i*ax, j*ay] for j in range(ny+1) for i in range(nx+1)]
        tris = []
        for j in range(ny):
            for i in range(nx):
                a = j*(nx+1)+i
                b, c, d, m = a+1, a+nx+2, a+nx+1, len(xy)
                xy.append([i*ax + ax//2, j*ay + ay//2])
                tris += [[a, b, m], [b, c, m], [c, d, m], [d, a, m]]
    elif kind == 'stagger':
        nx, ny = draw(st.integers(1, max_cells)), draw(st.integers(1, max(1, max_cells - 1)))
        ay = draw(st.sampled_from([90, 60, 150]))
        flip = draw(st.booleans())
        xy = [[i*100 + (j % 2)*50, j*ay] for j in range(ny+1) for i in range(nx+1)]
        if flip:
            xy = [p[::-1] for p in xy]
        tris = []
        for j in range(ny):
            for i in range(nx):
                a = j*(nx+1)+i
                b, c, d = a+1, a+nx+2, a+nx+1
                tris += [[a, b, d], [b, c, d]] if j % 2 == 0 else [[a, b, c], [a, c, d]]
    elif kind in ('delaunay', 'lattice'):
        # on the lattice, sides and lines to centres often have the same
        # lengths and the directions of the axes
        lattice = kind == 'lattice'
        n = draw(st.integers(3, 15 if deep else 9) if lattice else st.integers(4, 45 if deep else 14))
        pts = set()
        while len(pts) < n:
            pts.add((75*rnd.randint(0, 4), 75*rnd.randint(0, 3)) if lattice else (rnd.randint(0, 300), rnd.randint(0, 200)))
        xy = [list(p) for p in sorted(pts)]
        rnd.shuffle(xy)
        from scipy.spatial import Delaunay
        import numpy as np
        try:
            tris = Delaunay(np.array(xy, dtype=float)).simplices.tolist()
        except Exception:  # collinear cloud
            xy[0], xy[1], xy[2] = [0, 0], [300, 10], [20, 200]
            xy = [list(p) for p in sorted(set(map(tuple, xy)))]
            tris = Delaunay(np.array(xy, dtype=float)).simplices.tolist()
    elif kind == 'rect':
        # the domain of one side is a rectangle along the axes, or half of it
        a, b = draw(st.sampled_from([(60, 60), (60, 30), (30, 50)]))
        xy = [[0, -b], [-a, 0], [a, b], [-2*a, -2*b]]
        tris = [[0, 2, 1]]
        if draw(st.booleans()):
            tris.append([0, 1, 3])
        else:
            xy.pop()
        if draw(st.booleans()):
            xy = [[x, -y] for x, y in xy]
    elif kind == 'fan':
        k = draw(st.one_of(st.integers(3, 13), st.integers(3, 13), st.integers(14, 40)))
        closed = draw(st.booleans())
        xy = [[0, 0]]
        for i in range(k):
            ang = 2*math.pi*i/k
            r = 200 + rnd.randint(-40, 40)
            xy.append([int(round(r*math.cos(ang))), int(round(r*math.sin(ang)))])
        tris = [[0, 1+i, 1+(i+1) % k] for i in range(k if closed else max(1, k-1))]
    elif kind == 'single':
        xy = [[0, 0], [100, rnd.randint(-30, 30)], [rnd.randint(-60, 160), 90]]
        tris = [[0, 1, 2]]
    else:
        xy = [[0, 0], [100, rnd.randint(-20, 20)], [rnd.randint(0, 100), 80], [rnd.randint(0, 100), -90]]
        if graded:
            xy[2][1] = rnd.choice([24, 30, 80, 800])
            xy[3][1] = rnd.choice([-21, -22, -24, -900])
        tris = [[0, 1, 2], [1, 0, 3]]
    tris = [t for t in tris if tri_quality(*[xy[i] for i in t]) > (0.005 if graded else 0.05)]
    if not tris:
        xy = [[0, 0], [100, 0], [30, 90]]
        tris = [[0, 1, 2]]
    if not connected and len(tris) > 3 and draw(st.integers(0, 3)) == 0:
        # holes, notches, separate pieces, nodes without triangles
        k = draw(st.integers(1, max(1, len(tris)//3)))
        tris = [tris[i] for i in sorted(rnd.sample(range(len(tris)), len(tris)-k))]
    how = draw(st.sampled_from(['ccw', 'cw', 'mixed', 'mixed']))
    rot = draw(st.booleans())
    # numbering of nodes and order of the triangles
    if draw(st.booleans()):
        perm = list(range(len(xy)))
        rnd.shuffle(perm)
        new = [None]*len(xy)
        for i, p in enumerate(perm):
            new[p] = xy[i]
        xy = new
        tris = [[perm[i] for i in t] for t in tris]
    tris = _orient(rnd, tris, xy, how, rot)
    if draw(st.booleans()):
        rnd.shuffle(tris)
    return dict(kind=kind, xy=xy, tris=tris, graded=graded)


@st.composite
def plate(draw, max_cells=4, big=False, transform=True, kinds=KINDS,
          attached_only=False, z=True, connected=False):
    """Physical coordinates (n, 3) and triangles. `size` is the length scale of
    one triangle edge"""
    m = draw(base_mesh(max_cells=max_cells, big=big, kinds=kinds, connected=connected))
    xy, tris = m['xy'], m['tris']
    if attached_only:
        used = sorted(set(i for t in tris for i in t))
        pos = dict((o, i) for i, o in enumerate(used))
        xy = [xy[i] for i in used]
        tris = [[pos[i] for i in t] for t in tris]
    scale = draw(st.sampled_from(SCALES)) if transform else 1.
    shift = ang = 0
    sh = 0.
    thin = 1.
    if transform:
        ang = draw(st.sampled_from([0, 0, 30, 90, 180, 217, 305]))
        sh = draw(st.sampled_from([0., 0., 0.4]))
        thin = draw(st.sampled_from([1.]*14 + [1/64., 1/300.]))
        if m['graded'] or m['kind'] in ('delaunay', 'lattice'):
            thin = 1.
        shift = draw(st.sampled_from([[0., 0.], [0., 0.], [-1.3, -0.7], [8.25, -3.5], [120., 77.]]))
        if thin != 1 or m['graded']:
            shift = [0.5*c/max(1, abs(shift[0])) for c in shift]
    s = scale/100.
    c_, s_ = math.cos(math.radians(ang)), math.sin(math.radians(ang))
    zc = 0.
    if z and transform and draw(st.integers(0, 5)) == 0:
        zc = draw(st.sampled_from([1., -0.4, 5., 0.7312, -37.713]))*scale
    pts = []
    for x, y in xy:
        x = x + sh*y
        y = y*thin
        X = (c_*x - s_*y)*s
        Y = (s_*x + c_*y)*s
        if shift:
            X += shift[0]*scale
            Y += shift[1]*scale
        pts.append([X, Y, zc])
    return dict(kind=m['kind'], pts=pts, tris=tris, size=scale, needles=bool(m['graded'] or thin != 1))


ANGLES = [0, 0, 90, 45, -45, 30, -60, 15, 75, 17, -82, 120, 0.3, 1, -1.5, 89.5]


@st.composite
def laminate(draw, size=1., simple=False):
    """Specification of a composites' laminate (see mesh.build_laminate)"""
    kind = draw(st.sampled_from(['iso', 'ortho', 'ortho', 'ortho']))
    if simple:
        kind = 'iso'
    h = size*draw(st.sampled_from([0.05, 0.01, 0.2, 0.5, 1e-3]))
    E = draw(st.sampled_from([71e9, 1.295e11, 2.1e5, 1.0]))
    if kind == 'iso':
        nu = draw(st.sampled_from([0.33, 0., 0.25, 0.45, -0.2]))
        return dict(kind='iso', E=E, nu=nu, h=h, offset=draw(st.sampled_from([0., 0., 0.3]))*h)
    n = draw(st.integers(1, 9 if env.DEEP else 4))
    stack = [draw(st.sampled_from(ANGLES)) for _ in range(n)]
    w = [draw(st.integers(1, 3)) for _ in range(n)]
    tot = float(sum(w))
    plyts = [h*wi/tot for wi in w]
    prop = [E, E*draw(st.sampled_from([0.07, 0.4, 1.])), draw(st.sampled_from([0.3, 0.38])),
            E*draw(st.sampled_from([0.04, 0.2])), E*draw(st.sampled_from([0.05, 0.3])),
            E*draw(st.sampled_from([0.02, 0.15]))]
    return dict(kind='ortho', stack=stack, plyts=plyts, prop=prop,
                offset=draw(st.sampled_from([0., 0., 0.25, -0.5]))*h, scf=draw(st.booleans()))


@st.composite
def variant(draw, spec):
    """A laminate that shares some of its properties with the given one"""
    s = dict(spec)
    h = s['h'] if s['kind'] == 'iso' else sum(s['plyts'])
    what = draw(st.sampled_from(['offset', 'reversed', 'signs', 'equal', 'stiffer', 'thinner', 'shear']))
    if what == 'reversed' and s['kind'] == 'ortho':
        s['stack'], s['plyts'] = s['stack'][::-1], s['plyts'][::-1]
    elif what == 'signs' and s['kind'] == 'ortho':
        s['stack'] = [-a for a in s['stack']]
    elif what == 'equal':
        pass
    elif what == 'stiffer':
        f = draw(st.sampled_from([2., 0.5, 1.01, 1.0001]))
        if s['kind'] == 'iso':
            s['E'] = s['E']*f
        else:
            p = s['prop']
            s['prop'] = [p[0]*f, p[1]*f, p[2], p[3]*f, p[4]*f, p[5]*f]
    elif what == 'thinner':
        f = draw(st.sampled_from([0.5, 2., 1.01]))
        s['offset'] = s['offset']*f
        if s['kind'] == 'iso':
            s['h'] = s['h']*f
        else:
            s['plyts'] = [t*f for t in s['plyts']]
    elif what == 'shear' and s['kind'] == 'ortho':
        p = s['prop']
        s['prop'] = p[:4] + [p[4]*2, p[5]*3]
    else:
        s['offset'] = s['offset'] + draw(st.sampled_from([0.1, -0.25, 0.5]))*h
    return s


@st.composite
def properties(draw, mesh, homogeneous=None, simple=False):
    """Pool of laminates, and the index in the pool for each node and tria"""
    n, m = len(mesh['pts']), len(mesh['tris'])
    if homogeneous is None:
        homogeneous = draw(st.integers(0, 3)) == 0
    k = 1 if homogeneous else draw(st.integers(2, 4))
    pool = [draw(laminate(mesh['size'], simple=simple)) for _ in range(k)]
    if k > 1 and draw(st.integers(0, 2)) == 0:
        # two laminates that agree in some respects
        pool[1] = draw(variant(pool[0]))
    rnd = random.Random(draw(st.integers(0, 2**32 - 1)))
    return dict(pool=pool, node=[rnd.randrange(k) for _ in range(n)],
                tria=[rnd.randrange(k) for _ in range(m)])


@st.composite
def vector(draw, n, lo=-50, hi=50):
    """n small integers"""
    rnd = random.Random(draw(st.integers(0, 2**32 - 1)))
    sparse = draw(st.integers(0, 3)) == 0
    return [rnd.randint(lo, hi) if not sparse or rnd.random() < 0.2 else 0 for _ in range(n)]
