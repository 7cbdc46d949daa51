"""Import of a point cloud with its triangulation"""
import numpy as np

from lib import gen, kit, ref
from lib import mesh as M
from lib.core import Sub, call, ensure
from lib.gen import st

RULE = ('Point clouds of 3..~80 points, some with hundreds to thousands, some with coincident points (lists, tuples, arrays of float64/float32/int, 2 or 3 columns, C or Fortran '
        'order) with SciPy\'s own Delaunay triangulation or a hand-made one (structured, fan, holes, loose nodes, '
        'clockwise or mixed orientation); non-trivial: at least one edge shared by two triangles.')
ASSUMPTIONS = ['the triangulation is given by the simplices of a scipy.spatial.Delaunay object']


def topology(mesh, nodes, trias, pts, tris, where):
    """The mesh has exactly these nodes and triangles, and the edge references
    that follow from them"""
    ensure(len(mesh.nodes) == len(pts), '%s: %d nodes for %d points', where, len(mesh.nodes), len(pts))
    ensure(len(mesh.elements) == len(tris), '%s: %d elements for %d triangles', where, len(mesh.elements), len(tris))
    pos = {}
    for k, nd in enumerate(nodes):
        pos[id(nd)] = k
        ensure(len(nd.xyz) == 3 and np.array_equal(np.asarray(nd.xyz, dtype=float), np.asarray(pts[k], dtype=float)),
               '%s: node %d is at %s, not at %s', where, k, nd.xyz, pts[k])
        ensure(nd.prop is None, '%s: new node with properties', where)
    ensure(len(set(nd.nid for nd in nodes)) == len(nodes), '%s: repeated node ids', where)
    tpos = {}
    for k, t in enumerate(trias):
        tpos[id(t)] = k
        got = [pos.get(id(nd)) for nd in t.nodes]
        ensure(got == list(tris[k]), '%s: triangle %d has nodes %s, not %s', where, k, got, tris[k])
        ensure([pos.get(id(nd)) for nd in t.nodes_ref] == got, '%s: node references of triangle %d', where, k)
        ensure(list(t.node_ids) == [nodes[i].nid for i in tris[k]], '%s: node ids of triangle %d', where, k)
        ensure(t.prop is None, '%s: new triangle with properties', where)
        P = np.array([pts[i] for i in tris[k]], dtype=float)
        c = np.asarray(t.get_node_positions(), dtype=float)
        ensure(np.array_equal(c, P), '%s: node positions of triangle %d', where, k)
    ensure(len(set(t.eid for t in trias)) == len(trias), '%s: repeated element ids', where)
    want = ref.edges_of(tris)
    got = {}
    for key, e in mesh.edges.items():
        ensure(e.nodes[0] is e.n1 and e.nodes[1] is e.n2 and len(e.nodes) == 2, '%s: end nodes of %s', where, e)
        ensure(list(e.node_ids) == [e.n1.nid, e.n2.nid], '%s: node ids of %s', where, e)
        ensure(sorted(key) == sorted(e.node_ids), '%s: %s is filed under %s', where, e, key)
        i, j = pos.get(id(e.n1)), pos.get(id(e.n2))
        ensure(i is not None and j is not None, '%s: %s has foreign nodes', where, e)
        k = (min(i, j), max(i, j))
        ensure(k not in got, '%s: edge %s exists twice', where, k)
        ts = [tpos.get(id(t)) for t in e.trias]
        ensure(len(ts) == len(set(ts)), '%s: edge %s has a triangle twice', where, k)
        got[k] = e
        ensure(k in want, '%s: edge %s does not belong to any triangle', where, k)
        ensure(sorted(ts, key=str) == sorted(want[k], key=str), '%s: edge %s has triangles %s, not %s', where, k, ts, want[k])
    ensure(len(got) == len(want), '%s: %d edges instead of %d', where, len(got), len(want))
    for k, t in enumerate(trias):
        e = [id(x) for x in t.edges]
        w = set(id(got[min(a, b), max(a, b)]) for a, b in zip(tris[k], tris[k][1:] + tris[k][:1]))
        ensure(len(e) == 3 and set(e) == w, '%s: edges of triangle %d', where, k)
    at_edges, at_trias = [set() for _ in nodes], [[] for _ in nodes]
    for q, x in got.items():
        for k in q:
            at_edges[k].add(id(x))
    for q, t in enumerate(tris):
        for k in t:
            at_trias[k].append(trias[q].eid)
    for k, nd in enumerate(nodes):
        ensure(set(id(x) for x in nd.edges) == at_edges[k] and len(nd.edges) == len(at_edges[k]), '%s: edges of node %d', where, k)
        ensure(sorted(nd.trias) == sorted(at_trias[k]), '%s: triangles of node %d', where, k)
    return want


FORMS = ['array', 'array', 'list', 'tuple', 'float32', 'int', 'fortran', 'rows']


def as_form(P, form):
    P = np.array(P, dtype=float)
    if form == 'list':
        return P.tolist()
    if form == 'tuple':
        return tuple(map(tuple, P.tolist()))
    if form == 'rows':
        return [np.array(r) for r in P]
    if form == 'float32':
        return P.astype(np.float32)
    if form == 'int':
        return np.round(P).astype(int)
    if form == 'fortran':
        return np.asfortranarray(P)
    return P


@st.composite
def handmade(draw):
    m = draw(gen.plate(big=True))
    if m['kind'] == 'single' and draw(st.booleans()):      # a triangle on top of another one
        t = m['tris'][0]
        m['tris'] = m['tris'] + [draw(st.sampled_from([t[:], t[::-1], t[1:] + t[:1]]))]
    return dict(m, three_d=draw(st.booleans()), form=draw(st.sampled_from(FORMS)), silent=draw(st.booleans()))


def check_handmade(case, rec):
    from meshless.espim.read_mesh import read_delaunay
    pts = np.array(case['pts'])
    if case['form'] == 'int':
        pts = pts/case['size']*100
    three = case['three_d'] or bool(pts[:, 2].any())
    P = as_form(pts if three else pts[:, :2], case['form'])
    keep = [list(map(float, r)) for r in P]
    tri = M.real_delaunay(pts[:, :2], case['tris'])
    simp = tri.simplices.copy()
    kw = {} if case['silent'] else {'silent': False}
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        mesh = call('read_delaunay', read_delaunay, P, tri, **kw)
        other = call('read_delaunay', read_delaunay, P, tri)
    ensure(np.array_equal(simp, tri.simplices), 'simplices were modified')
    ensure(keep == [list(map(float, r)) for r in P], 'points were modified')
    want = [r + [0.]*(3-len(r)) for r in keep]
    mod = M.Model(mesh)
    for_edges = topology(mesh, mod.nodes, mod.trias, want, case['tris'], 'read_delaunay')
    # a second import of the same data shares nothing with the first one
    mod2 = M.Model(other)
    topology(other, mod2.nodes, mod2.trias, want, case['tris'], 'second read_delaunay')
    ensure(not set(map(id, mod.nodes)) & set(map(id, mod2.nodes)), 'two imports share nodes')
    # moving nodes, in place or not, and changing the adjacency of one mesh
    # changes neither the input nor the other mesh
    for k, nd in enumerate(mod.nodes):
        nd.xyz *= 1.5
        nd.xyz += 7.
        nd.trias.clear()
        nd.edges.clear()
    for t in mod.trias:
        t.edges.clear()
    for e in mesh.edges.values():
        del e.trias[:]
    ensure(keep == [list(map(float, r)) for r in P], 'moving the nodes of the mesh changes the points given')
    ensure(np.array_equal(simp, tri.simplices), 'simplices were modified')
    topology(other, mod2.nodes, mod2.trias, want, case['tris'], 'mesh imported from the same points as one changed since')
    # nor does changing the points change the mesh
    if isinstance(P, np.ndarray):
        P += 3
        topology(other, mod2.nodes, mod2.trias, want, case['tris'], 'mesh whose points were changed since')
    rec.label('form:' + case['form'], '%dD' % (3 if three else 2), 'mesh:' + case['kind'])
    rec.hit(any(len(v) == 2 for v in for_edges.values()))


@st.composite
def cloud(draw):
    n = draw(st.integers(4, 30)) if draw(st.integers(0, 9)) else draw(st.integers(60, 150))
    import random
    rnd = random.Random(draw(st.integers(0, 2**32-1)))
    kind = draw(st.sampled_from(['uniform', 'lattice', 'clustered']))
    if kind == 'lattice':
        pts = set((rnd.randint(0, 6), rnd.randint(0, 5)) for _ in range(n))
    elif kind == 'uniform':
        pts = set((rnd.randint(0, 10**6)*1e-5, rnd.randint(0, 10**6)*1e-5) for _ in range(n))
    else:
        pts = set((rnd.gauss(0, 1)*10**rnd.randint(-2, 1), rnd.gauss(0, 1)) for _ in range(n))
    pts = sorted(pts)
    pts += [p for p in ((0., 0.), (9., 0.5), (0.3, 8.)) if p not in pts]
    rnd.shuffle(pts)
    return dict(pts=[list(p) for p in pts], kind=kind, z=draw(st.sampled_from([None, 0., 2.5])),
                form=draw(st.sampled_from(['array', 'list', 'tuple'])))


def check_cloud(case, rec):
    from scipy.spatial import Delaunay
    from meshless.espim.read_mesh import read_delaunay
    P = np.array(case['pts'], dtype=float)
    tri = Delaunay(P)
    tris = [list(map(int, s)) for s in tri.simplices]
    P3 = P if case['z'] is None else np.column_stack([P, np.full(len(P), case['z'])])
    mesh = call('read_delaunay', read_delaunay, as_form(P3, case['form']), tri)
    mod = M.Model(mesh)
    want = [list(r) + [0.]*(3-len(r)) for r in P3.tolist()]
    e = topology(mesh, mod.nodes, mod.trias, want, tris, 'read_delaunay')
    # Euler: a triangulated disc has V - E + F = 1
    used = set(i for t in tris for i in t)
    ensure(len(used) - len(mesh.edges) + len(tris) == 1, 'Euler characteristic of a Delaunay triangulation')
    rec.label('cloud:' + case['kind'])
    rec.hit(any(len(v) == 2 for v in e.values()))


@st.composite
def large(draw):
    return dict(n=draw(st.sampled_from([260, 300, 520, 700, 1100, 2200])), seed=draw(st.integers(0, 2**31)),
                form=draw(st.sampled_from(['array', 'list', 'tuple'])), how=draw(st.sampled_from(['delaunay', 'copies'])))


def check_large(case, rec):
    """hundreds to thousands of points; many plates at the same place (coincident nodes)"""
    import random
    from scipy.spatial import Delaunay
    from meshless.espim.read_mesh import read_delaunay
    rnd = random.Random(case['seed'])
    if case['how'] == 'delaunay':
        P = np.array(sorted(set((rnd.uniform(0, 9), rnd.uniform(0, 5)) for _ in range(case['n']))))
        tri = Delaunay(P)
        tris = [list(map(int, s)) for s in tri.simplices]
    else:
        k = case['n']//4
        P = np.array([[0., 0.], [1., 0.], [1.2, .9], [-.1, 1.]]*k)
        tris = [[4*i + q for q in t] for i in range(k) for t in ([0, 1, 2], [2, 3, 0])]
        rnd.shuffle(tris)
        tri = M.real_delaunay(P[:4], tris)
    mesh = call('read_delaunay', read_delaunay, as_form(P, case['form']), tri)
    mod = M.Model(mesh)
    e = topology(mesh, mod.nodes, mod.trias, [list(r) + [0.] for r in P.tolist()], tris, 'read_delaunay')
    rec.label('large:%s' % case['how'])
    rec.hit(any(len(v) == 2 for v in e.values()))


SUBS = [Sub('handmade', handmade, check_handmade, 500, 15000),
        Sub('delaunay', cloud, check_cloud, 250, 6000),
        Sub('large', large, check_large, 24, 400)]
