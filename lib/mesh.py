"""Builds the objects of the code under test from generated data"""
import os

import numpy as np
from composites.laminate import read_stack
from scipy.spatial import Delaunay

from lib import deck
from lib.core import call

METHODS = ['cell-based', 'cell-based-no-smoothing', 'edge-based']


def build_laminate(spec):
    """Laminate of `composites`; the shear correction factors it calculates are
    used only if they are meaningful"""
    if spec['kind'] == 'iso':
        kw = dict(stack=[0], plyt=spec['h'], laminaprop=(spec['E'], spec['E'], spec['nu']))
    else:
        kw = dict(stack=spec['stack'], plyts=spec['plyts'], laminaprop=tuple(spec['prop']))
    stack = kw.pop('stack')
    lam = read_stack(stack, offset=spec['offset'], calc_scf=spec.get('scf', True), **kw)
    if spec.get('scf', True) and not (0.05 < lam.scf_k13 < 3 and 0.05 < lam.scf_k23 < 3):
        lam = read_stack(stack, offset=spec['offset'], calc_scf=False, **kw)
    if 'k13' in spec:
        lam.scf_k13 = spec['k13']
    if 'k23' in spec:
        lam.scf_k23 = spec['k23']
    return lam


def real_delaunay(pts2d, tris):
    """A scipy Delaunay object of the given points carrying the given triangles"""
    pts2d = np.asarray(pts2d, dtype=float)
    try:
        tri = Delaunay(pts2d)
    except Exception:
        tri = Delaunay(np.array([[0., 0.], [1., 0.], [0., 1.]]))
    tri.simplices = np.array(tris, dtype=np.int32).reshape(-1, 3)
    return tri


class Model(object):
    """A mesh of the code under test with its nodes and triangles in the order
    of the generated data"""
    def __init__(self, mesh, nids=None, eids=None):
        self.mesh = mesh
        nids = sorted(mesh.nodes) if nids is None else nids
        eids = sorted(mesh.elements) if eids is None else eids
        self.nodes = [mesh.nodes[i] for i in nids]
        self.trias = [mesh.elements[i] for i in eids]
        self.n = len(self.nodes)

    def assign(self, props, lams=None, node=True, tria=True):
        if lams is None:
            lams = [build_laminate(s) for s in props['pool']]
        if node:
            for nd, k in zip(self.nodes, props['node']):
                nd.prop = lams[k]
        if tria:
            for t, k in zip(self.trias, props['tria']):
                t.prop = lams[k]
        return lams

    def dofs(self):
        """dofs()[5*i+j]: row given by the code under test to dof j of node i"""
        p = np.array([int(nd.index) for nd in self.nodes])
        return (p[:, None]*5 + np.arange(5)[None, :]).ravel()

    def ordered(self, K):
        """Matrix of the code under test in the order of the generated nodes"""
        p = self.dofs()
        return np.asarray(K, dtype=float)[np.ix_(p, p)]

    def scatter(self, v):
        """Vector in the order of the generated nodes to the one of the code"""
        v = np.asarray(v, dtype=float)
        out = np.zeros_like(v)
        out[self.dofs()] = v
        return out


    def edge_order(self):
        """{(i, j): adjacent triangles, in the order in which the mesh has them}"""
        ni = dict((id(nd), k) for k, nd in enumerate(self.nodes))
        ti = dict((id(t), k) for k, t in enumerate(self.trias))
        out = {}
        for e in self.mesh.edges.values():
            i, j = ni[id(e.n1)], ni[id(e.n2)]
            out[min(i, j), max(i, j)] = [ti[id(t)] for t in e.trias]
        return out


def make(m):
    """Model of generated mesh data, through the importer that m['src'] names"""
    src = m.get('src') or {'kind': 'cloud'}
    pts = np.array(m['pts'], dtype=float)
    if src['kind'] == 'deck':
        from meshless.espim.read_mesh import read_mesh
        path = os.path.join(os.getcwd(), src.get('name') or 'model.dat')
        with open(path, 'w') as f:
            f.write(deck.write(m['pts'], m['tris'], src))
        mesh = call('read_mesh', read_mesh, path)
        return Model(mesh, src['nids'], src['eids'])
    from meshless.espim.read_mesh import read_delaunay
    three_d = src.get('three_d') or bool(np.any(pts[:, 2] != 0))
    p = pts.copy() if three_d else pts[:, :2].copy()
    if src.get('as_list'):
        p = p.tolist()
    mesh = call('read_delaunay', read_delaunay, p, real_delaunay(pts[:, :2], m['tris']))
    return Model(mesh)
