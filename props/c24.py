"""Geometry helpers"""
import math
from fractions import Fraction

import numpy as np

from lib import gen, kit, ref
from lib import mesh as M
from lib.core import Sub, call, close, ensure
from lib.gen import st

RULE = ('Random simple polygons (star-shaped, clockwise or not, any first vertex, 3-300 corners, lists or arrays, offset '
        'and scaled), vectors of 1-6 components and triangles of generated meshes; exact rational oracle; '
        'non-trivial: non-zero area / vector.')
ASSUMPTIONS = []


@st.composite
def polygons(draw):
    import random
    rnd = random.Random(draw(st.integers(0, 2**32-1)))
    kind = draw(st.sampled_from(['star', 'star', 'triangle', 'rectangle', 'arbitrary', 'comb']))
    if kind == 'triangle':
        P = [[rnd.randint(-50, 50), rnd.randint(-50, 50)] for _ in range(3)]
    elif kind == 'rectangle':
        a, b, c, d = [rnd.randint(1, 40) for _ in range(4)]
        P = [[-a, -b], [c, -b], [c, d], [-a, d]]
    elif kind == 'star':
        k = draw(st.one_of(st.integers(3, 30), st.integers(3, 30), st.integers(31, 300)))
        P = [[round(rnd.uniform(0.2, 1)*1000*math.cos(2*math.pi*i/k)), round(rnd.uniform(0.2, 1)*1000*math.sin(2*math.pi*i/k))]
             for i in range(k)]
    elif kind == 'comb':
        k = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 20, 70]))
        P = []
        for i in range(k):
            P += [[4*i, 0], [4*i+1, rnd.randint(1, 9)], [4*i+2, rnd.randint(1, 9)], [4*i+3, 0]]
        P += [[4*k, 0], [4*k, -3], [0, -3]]
    else:
        P = [[rnd.randint(-99, 99), rnd.randint(-99, 99)] for _ in range(draw(st.integers(3, 9)))]
    if draw(st.booleans()):
        P = P[::-1]
    q = rnd.randrange(len(P))
    P = P[q:] + P[:q]
    return dict(kind=kind, P=P, num=draw(st.integers(1, 9)), den=draw(st.sampled_from([1, 1, 3, 1000, 10**9, 10**20])),
                off=draw(st.sampled_from([[0, 0], [0, 0], [1000, -777], [-3, 10**6]])),
                form=draw(st.sampled_from(['list', 'array', 'tuple', 'int', 'column'])))


def check_polygon(case, rec):
    from meshless.utils import area_of_polygon
    P = [[(c + o) for c, o in zip(p, case['off'])] for p in case['P']]
    s = 1.
    if case['form'] != 'int':
        s = case['num']/case['den']
        P = [[c*s for c in p] for p in P]
    x, y = [p[0] for p in P], [p[1] for p in P]
    f = case['form']
    if f == 'array':
        a, b = np.array(x), np.array(y)
    elif f == 'tuple':
        a, b = tuple(x), tuple(y)
    elif f == 'column':
        A = np.array(P)
        a, b = A[:, 0], A[:, 1]
    elif f == 'int':
        a, b = np.array(x, dtype=int), np.array(y, dtype=int)
    else:
        a, b = x, y
    X, Y = [Fraction(v) for v in x], [Fraction(v) for v in y]
    k = len(X)
    exact = abs(sum(X[i]*Y[(i+1) % k] - X[(i+1) % k]*Y[i] for i in range(k)))/2
    scale = float(sum(abs(X[i])*(abs(Y[(i+1) % k]) + abs(Y[i-1])) for i in range(k))) + 1e-300
    got = call('area_of_polygon', area_of_polygon, a, b)
    close('area of the polygon', [float(got)], [float(exact)], [scale], 1e-13, rec)
    rec.label('polygon:' + case['kind'], 'form:' + f)
    rec.hit(exact > 0)


@st.composite
def vectors(draw):
    n = draw(st.integers(1, 6))
    v = draw(st.lists(st.integers(-100, 100), min_size=n, max_size=n).filter(any))
    return dict(v=v, s=draw(st.sampled_from([1., 1e-8, 1e12, 0.37, 1e-14, 1e-30, 1e-100, 1e100])), int=draw(st.booleans()))


def check_unit(case, rec):
    from meshless.utils import unitvec
    v = np.array(case['v'], dtype=int) if case['int'] else np.array(case['v'])*case['s']
    keep = v.copy()
    u = np.asarray(call('unitvec', unitvec, v))
    ensure(u.shape == v.shape, 'shape of the unit vector')
    ensure((v == keep).all(), 'the vector was modified')
    n = math.sqrt(sum(int(c)**2 for c in case['v']))
    close('unit vector', u, np.array(case['v'])/n, np.ones(len(v)), 1e-14, rec)
    rec.hit()


def check_centres(case, rec):
    from meshless.utils import getMid
    mod = M.make(case)
    for t, ids in zip(mod.trias, case['tris']):
        P = [[Fraction(c) for c in case['pts'][i]] for i in ids]
        c = [float(sum(p[k] for p in P)/3) for k in range(3)]
        s = max(abs(float(v)) for p in P for v in p) + 1e-300
        close('centre of a triangle', call('getMid', getMid, t), c, np.ones(3)*s, 1e-14, rec)
    pos = dict((id(nd), k) for k, nd in enumerate(mod.nodes))
    for e in mod.mesh.edges.values():
        P = np.array([case['pts'][pos[id(q)]] for q in (e.n1, e.n2)])
        close('middle of an edge', call('Edge.getMid', e.getMid), P.mean(axis=0), np.ones(3)*(np.abs(P).max() + 1e-300), 1e-14, rec)
    rec.hit()


@st.composite
def points(draw):
    m = draw(kit.mesh(max_cells=1))
    rnd = draw(st.integers(1, 10))
    return dict(m, f=[rnd/20., draw(st.integers(-5, 10))/10.], extra=[draw(st.integers(-9, 9))/4. for _ in range(4)])


def check_ipt(case, rec):
    """integration points carry what they were made of"""
    from meshless.espim.classes import Edge, IntegrationPoint
    mod = M.make(case)
    t = mod.trias[0]
    f = case['f'] + [1 - sum(case['f'])]
    n1, n2, n3 = t.nodes
    x = case['extra']
    ip = call('IntegrationPoint', IntegrationPoint, t, n1, n2, n3, f[0], f[1], f[2], x[0], x[1], x[2], x[3])
    P = np.array([case['pts'][i] for i in case['tris'][0]])
    close('position of an integration point', ip.xyz, np.array(f).dot(P), np.ones(3)*(np.abs(P).max() + 1e-300), 1e-13, rec)
    ensure((ip.n1, ip.n2, ip.n3, ip.tria) == (n1, n2, n3, t) and [ip.f1, ip.f2, ip.f3] == f and
           [ip.nx, ip.ny, ip.nz, ip.le] == x, 'data of the integration point')
    e, e2 = Edge(n1, n2), Edge(n2, n3)
    ensure(e.n1 is n1 and e.n2 is n2 and list(e.nodes) == [n1, n2] and list(e.node_ids) == [n1.nid, n2.nid], 'ends of an edge')
    e.trias.append(t)
    e.ipts.append(ip)
    e.sdomain.append(1)
    ensure(not list(e2.trias) and not list(e2.ipts) and not list(e2.sdomain), 'two edges share their lists')
    s = str(e)
    ensure(str(n1.nid) in s and str(n2.nid) in s, 'name of an edge: %r', s)
    rec.hit()


SUBS = [Sub('polygon', polygons, check_polygon, 4000, 40000),
        Sub('unit vector', vectors, check_unit, 2500, 20000),
        Sub('centres', lambda: kit.mesh(), check_centres, 300, 5000),
        Sub('integration point', points, check_ipt, 200, 2000)]
