"""Rejection of incomplete or unsupported models"""
import numpy as np

from lib import gen, kit, ref
from lib import mesh as M
from lib.core import Sub, call, ensure, rejects
from lib.gen import st

RULE = ('Models with one or more missing laminates, an edge shared by 3+ triangles, or an unknown shear method; each is '
        'also run without the fault, where it has to be accepted; non-trivial: the fault is present.')
ASSUMPTIONS = []


@st.composite
def missing(draw):
    c = draw(kit.model(big=True))
    n = len(c['mesh']['pts'] if c['pn'] else c['mesh']['tris'])
    c['holes'] = sorted(set(draw(st.lists(st.integers(0, n-1), min_size=1, max_size=3))))
    c['both'] = draw(st.booleans())
    return c


def check_missing(case, rec):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    mod, lams = kit.setup(case)
    kit.labels(case, rec)
    pn = case['pn']
    used = set(i for t in case['mesh']['tris'] for i in t)
    objs = mod.nodes if pn else mod.trias
    saved = {}
    for k in case['holes']:
        saved[k] = objs[k].prop
        objs[k].prop = None
    if not pn or any(k in used for k in case['holes']):
        rejects('stiffness of a model without the laminate of %s %s' % ('nodes' if pn else 'elements', case['holes']),
                (ValueError,), calc_k0, mod.mesh, pn)
        rec.label('rejected')
        rec.hit()
    else:
        # nodes without triangles need no laminate
        call('calc_k0 without the laminate of loose nodes', calc_k0, mod.mesh, pn)
        rec.label('loose')
    # the other kind of laminates does not matter
    for k, p in saved.items():
        objs[k].prop = p
    for o in (mod.trias if pn else mod.nodes):
        o.prop = None
    K = call('calc_k0 without the laminates that are not used', calc_k0, mod.mesh, pn)
    ensure(np.asarray(K).shape == (5*mod.n, 5*mod.n), 'shape of the stiffness')


@st.composite
def each(draw):
    return dict(draw(kit.model()), first=draw(st.sampled_from(['before', 'after'])))


def check_each(case, rec):
    """whichever node or triangle has no laminate"""
    from meshless.espim.plate2d_calc_k0 import calc_k0
    mod, lams = kit.setup(case)
    kit.labels(case, rec)
    pn = case['pn']
    used = set(i for t in case['mesh']['tris'] for i in t)
    last = case['first'] == 'after'
    if last:
        call('calc_k0', calc_k0, mod.mesh, pn)
    for k, o in enumerate(mod.nodes if pn else mod.trias):
        if pn and k not in used:
            continue
        keep, o.prop = o.prop, None
        rejects('stiffness of a model without the laminate of %s %d' % ('node' if pn else 'element', k),
                (ValueError,), calc_k0, mod.mesh, pn)
        o.prop = keep
        rec.hit()
    call('calc_k0 with all laminates', calc_k0, mod.mesh, pn)


@st.composite
def triple(draw):
    c = draw(kit.model(deck=True, connected=True))
    c['seed'] = draw(st.integers(0, 2**31))
    c['k'] = draw(st.integers(1, 2))
    return c


def check_triple(case, rec):
    """one more triangle on an interior edge (or more on a boundary edge)"""
    import random
    from meshless.espim.plate2d_calc_k0 import calc_k0
    rnd = random.Random(case['seed'])
    m = dict(case['mesh'])
    edges = ref.edges_of(m['tris'])
    e = rnd.choice(sorted(edges))
    extra = max(1, 3 - len(edges[e])) + case['k'] - 1
    P = np.array(m['pts'])
    pts, tris = list(m['pts']), list(m['tris'])
    props = dict(case['props'], node=list(case['props']['node']), tria=list(case['props']['tria']))
    src = dict(m['src'])
    for q in range(extra):
        a, b = P[e[0]], P[e[1]]
        nrm = np.array([-(b-a)[1], (b-a)[0], 0.])*rnd.choice([1, -1])*(0.3 + 0.2*q)
        pts.append(((a+b)/2 + nrm).tolist())
        at = rnd.randrange(len(tris)+1)
        tris.insert(at, [e[0], e[1], len(pts)-1])
        props['node'].append(0)
        props['tria'].append(0)
    if src['kind'] == 'deck':
        from lib.deck import roundtrip
        pts = [[roundtrip(c) for c in p] for p in pts]
        src = dict(src, nids=src['nids'] + [max(src['nids'])+1+k for k in range(extra)],
                   eids=src['eids'] + [max(src['eids'])+1+k for k in range(extra)])
    m2 = dict(m, pts=pts, tris=tris, src=src)
    c2 = dict(case, mesh=m2, props=props)
    mod, _ = kit.setup(c2)
    rejects('stiffness of a mesh with an edge of %d triangles' % (len(edges[e]) + extra), (NotImplementedError,),
            calc_k0, mod.mesh, case['pn'])
    good, _ = kit.setup(case)
    call('calc_k0 without the extra triangles', calc_k0, good.mesh, case['pn'])
    rec.label('edge of %d triangles' % (len(edges[e]) + extra))
    rec.hit()


NAMES = ['', 'Cell-based', 'cell_based', 'edge', 'cell-based ', 'node-based', 'EDGE-BASED', 'cell-based-smoothing',
         'edge-based-no-smoothing', 'cell', None, 'no-smoothing', 'cell-based-no-smoothin', 0, True]


@st.composite
def unknown(draw):
    c = draw(kit.model(max_cells=2))
    c['name'] = draw(st.one_of(st.sampled_from(NAMES), st.text('celdgbas-', min_size=1, max_size=12)))
    return c


def check_unknown(case, rec):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_add_k0s import add_k0s
    if case['name'] in M.METHODS:
        return
    mod, _ = kit.setup(case)
    K = call('calc_k0', calc_k0, mod.mesh, case['pn'])
    keep = np.array(K)
    rejects('shear stiffness with the method %r' % (case['name'],), (ValueError,), add_k0s, K, mod.mesh, case['pn'],
            case['name'])
    rejects('shear stiffness with the method %r' % (case['name'],), (ValueError,), add_k0s, K, mod.mesh, case['pn'],
            method=case['name'], alpha=0.2, maxl_from_area=True)
    ensure(np.array_equal(keep, K), 'the stiffness was modified although the method is unknown')
    rec.hit()


SUBS = [Sub('missing laminate', missing, check_missing, 400, 6000),
        Sub('each laminate', each, check_each, 200, 3000),
        Sub('three triangles', triple, check_triple, 250, 4000),
        Sub('unknown method', unknown, check_unknown, 150, 2000)]
