"""Imported meshes are pyNastran models: geometry, maps, decks written from them"""
import os
import random

import numpy as np

from lib import gen, kit
from lib import mesh as M
from lib.core import Skip, Sub, call, ensure
from lib.gen import st
from props import c02

RULE = ('Meshes of point clouds and decks: areas, centres, normals, positions and maps of pyNastran, before and after calculations and after nodes were moved; decks '
        'with local coordinate systems and optional fields, written by pyNastran (after moving nodes, in several formats) and imported again; non-trivial: each case.')
ASSUMPTIONS = ['written decks have 8 to 16 digits: coordinates are compared to 2e-2 (8 characters per field) or 1e-8 of the largest one',
               'only meshes of decks can be written as decks: those of point clouds have no properties']


def geometry(where, mod, xyz, tris, size):
    far = float(np.abs(xyz).max())
    ids = [nd.nid for nd in mod.nodes]
    for k, nd in enumerate(mod.nodes):
        p = np.asarray(call('get_position', nd.get_position), dtype=float)
        ensure((p == xyz[k]).all(), '%s: position of node %d', where, k)
        ensure(mod.mesh.Node(nd.nid) is nd, '%s: node %d of the mesh', where, k)
    for k, t in enumerate(mod.trias):
        P = xyz[tris[k]]
        cr = np.cross(P[1] - P[0], P[2] - P[0])
        a = np.sqrt((cr**2).sum())/2
        L = np.abs(P - P[0]).max()
        tol = 1e-12*(L + far)*(L + 1e-3*far)
        for name, fn in (('get_area', t.get_area), ('Area', t.Area)):
            ensure(abs(call(name, fn) - a) <= tol, '%s: %s of triangle %d is %r, not %r', where, name, k, fn(), a)
        c = np.asarray(call('Centroid', t.Centroid))
        ensure(np.abs(c - P.mean(axis=0)).max() <= 1e-12*far, '%s: centre of triangle %d', where, k)
        n = np.asarray(call('Normal', t.Normal))
        ensure(np.abs(n*2*a - cr).max() <= 4*tol, '%s: normal of triangle %d', where, k)
        ensure(np.array_equal(np.asarray(t.get_node_positions()), P), '%s: positions of the nodes of triangle %d', where, k)
        want = [ids[i] for i in tris[k]]
        ensure(list(t.node_ids) == want, '%s: node ids of triangle %d', where, k)
        pairs = set((min(a, b), max(a, b)) for a, b in zip(want, want[1:] + want[:1]))
        ensure(set(tuple(e) for e in t.get_edge_ids()) == pairs, '%s: edge ids of triangle %d', where, k)
        ensure(set(tuple(sorted(e.node_ids)) for e in t.edges) == pairs and len(t.edges) == 3, '%s: edges of triangle %d', where, k)
        ensure(mod.mesh.Element(t.eid) is t, '%s: element %d of the mesh', where, k)
    ensure((mod.mesh.nnodes, mod.mesh.nelements) == (len(xyz), len(tris)), '%s: numbers of nodes and elements', where)
    m = call('get_node_id_to_element_ids_map', mod.mesh.get_node_id_to_element_ids_map)
    for k, i in enumerate(ids):
        want = sorted(mod.trias[q].eid for q, t in enumerate(tris) if k in t)
        ensure(sorted(m.get(i, [])) == want, '%s: elements of node %d', where, k)


@st.composite
def models(draw):
    return dict(draw(kit.model()), seed=draw(st.integers(0, 10**6)), op=draw(st.sampled_from(M.METHODS + ['kG'])),
                move=draw(st.sampled_from(['in place', 'replaced', 'turned'])))


def check_geometry(case, rec):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    mod, lams = kit.setup(case)
    tris, size = case['mesh']['tris'], case['mesh']['size']
    xyz = np.array([np.array(nd.xyz, dtype=float) for nd in mod.nodes])
    geometry('imported', mod, xyz, tris, size)
    k0 = call('calc_k0', calc_k0, mod.mesh, case['pn'])
    if case['op'] == 'kG':
        call('calc_kG', calc_kG, np.ones(5*mod.n), mod.mesh, case['pn'])
    else:
        call('add_k0s', add_k0s, k0, mod.mesh, case['pn'], case['op'])
    geometry('after the calculation', mod, xyz, tris, size)
    rnd = random.Random(case['seed'])
    for k, nd in enumerate(mod.nodes):
        if case['move'] == 'turned':
            new = np.array([-xyz[k, 1], xyz[k, 0], xyz[k, 2]])
        else:
            new = xyz[k] + np.array([rnd.uniform(-.01, .01)*size, rnd.uniform(-.01, .01)*size, 0.])
        if case['move'] == 'in place':
            nd.xyz[:] = new
        else:
            nd.xyz = new.copy()
        xyz[k] = new
    geometry('after moving the nodes', mod, xyz, tris, size)
    rec.label('mesh:' + case['mesh']['kind'], 'src:' + case['mesh']['src']['kind'], 'move:' + case['move'])
    rec.hit()


@st.composite
def written(draw):
    m = draw(st.one_of(c02.decks(), c02.local_decks()))
    return dict(mesh=m, seed=draw(st.integers(0, 10**6)), move=draw(st.booleans()), size=draw(st.sampled_from([8, 16, 16])),
                double=draw(st.booleans()), interspersed=draw(st.booleans()), calculated=draw(st.booleans()))


def check_written(case, rec):
    from meshless.espim.read_mesh import read_mesh
    from meshless.espim.plate2d_calc_k0 import calc_k0
    m = case['mesh']
    src = m['src']
    mesh = c02.load(m)
    mod = M.Model(mesh, src['nids'], src['eids'])
    rnd = random.Random(case['seed'])
    if case['calculated']:
        lam = M.build_laminate(dict(kind='iso', h=m['size']/100, E=1e9, nu=0.3, offset=0.))
        for t in mod.trias:
            t.prop = lam
        call('calc_k0', calc_k0, mesh, False)
    if case['move']:
        for nd in mod.nodes:
            nd.xyz = np.array(nd.xyz) + np.array([rnd.uniform(-.01, .01)*m['size'], rnd.uniform(-.01, .01)*m['size'], 0.])
    before = np.array([np.array(nd.xyz) for nd in mod.nodes])
    path = os.path.join(os.getcwd(), 'written.dat')
    call('write_bdf', mesh.write_bdf, path, size=case['size'], is_double=case['double'] and case['size'] == 16,
         interspersed=case['interspersed'])
    ensure((before == np.array([np.array(nd.xyz) for nd in mod.nodes])).all(), 'writing moved the nodes')
    again = call('read_mesh of the written deck', read_mesh, path)
    ensure(sorted(again.nodes) == sorted(src['nids']) and sorted(again.elements) == sorted(src['eids']), 'ids of the written deck')
    new = M.Model(again, src['nids'], src['eids'])
    tol = 2e-2 if case['size'] == 8 else 1e-8
    got = np.array([np.array(nd.xyz, dtype=float) for nd in new.nodes])
    far = np.abs(before).max()
    e = np.abs(got - before).max()
    ensure(e <= tol*far, 'nodes of the written deck differ by %.3g of the largest coordinate', e/far)
    for k, (a, b) in enumerate(zip(mod.trias, new.trias)):
        ensure(list(a.node_ids) == list(b.node_ids), 'nodes of triangle %d of the written deck', k)
    ensure(mod.edge_order().keys() == new.edge_order().keys(), 'edges of the written deck')
    ensure(dict((k, sorted(v)) for k, v in mod.edge_order().items()) == dict((k, sorted(v)) for k, v in new.edge_order().items()),
           'triangles at the edges of the written deck')
    rec.label('size:%d' % case['size'], 'moved' if case['move'] else 'as read', 'coords' if src.get('coords') else 'basic system')
    rec.hit()


SUBS = [Sub('geometry', models, check_geometry, 200, 5000),
        Sub('written', written, check_written, 250, 5000)]
