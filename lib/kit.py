"""Strategies and helpers shared by the property modules"""
import random

import numpy as np

from lib import gen, ref
from lib import mesh as M
from lib.deck import roundtrip
from lib.gen import st


@st.composite
def source(draw, n, m, deck=True):
    """How the mesh is given to the code: point cloud, or a deck with arbitrary ids"""
    k = draw(st.integers(0, 9))
    if k < 6 or not deck:
        return dict(kind='cloud', three_d=draw(st.booleans()), as_list=draw(st.integers(0, 3)) == 0)
    rnd = random.Random(draw(st.integers(0, 2**32 - 1)))
    ids = draw(st.sampled_from(['dense', 'gapped', 'large', 'descending']))
    top = {'dense': max(n, m), 'gapped': 5*(n+m) + 20, 'large': 99999000, 'descending': max(n, m)}[ids]
    nids = rnd.sample(range(1, top+1), n) if ids != 'descending' else list(range(n, 0, -1))
    eids = rnd.sample(range(1, top+1), m) if ids != 'descending' else list(range(m, 0, -1))
    return dict(kind='deck', ids=ids, nids=nids, eids=eids, seed=rnd.randrange(10**6),
                fmt=draw(st.sampled_from(['large', 'free', 'mixed'])), shuffle=draw(st.booleans()))


@st.composite
def mesh(draw, deck=True, **kw):
    m = draw(gen.plate(**kw))
    m['src'] = draw(source(len(m['pts']), len(m['tris']), deck=deck))
    if m['src']['kind'] == 'deck':
        m['pts'] = [[roundtrip(c) for c in p] for p in m['pts']]
    return m


@st.composite
def model(draw, deck=True, pn=None, homogeneous=None, simple=False, **kw):
    """mesh + laminates + whether they are taken from the nodes"""
    m = draw(mesh(deck=deck, **kw))
    props = draw(gen.properties(m, homogeneous=homogeneous, simple=simple))
    pn = draw(st.booleans()) if pn is None else pn
    if draw(st.integers(0, 5)) == 0:    # 1, 0 instead of True, False
        pn = int(pn)
    return dict(mesh=m, props=props, pn=pn)


def setup(case, only_needed=True):
    """Model of the code under test with the laminates of the case"""
    mod = M.make(case['mesh'])
    pn = case['pn']
    both = not only_needed or case.get('both', False)
    lams = mod.assign(case['props'], node=pn or both, tria=not pn or both)
    return mod, lams


def refprops(case, lams, pn=None):
    """(node laminates, None) or (None, triangle laminates)"""
    pn = case['pn'] if pn is None else pn
    if pn:
        return [lams[k] for k in case['props']['node']], None
    return None, [lams[k] for k in case['props']['tria']]


def labels(case, rec):
    m = case['mesh']
    n, t = len(m['pts']), len(m['tris'])
    used = set(i for tr in m['tris'] for i in tr)
    e = ref.edges_of(m['tris'])
    inner = sum(len(v) == 2 for v in e.values())
    val = {}
    for a, b in e:
        val[a] = val.get(a, 0) + 1
        val[b] = val.get(b, 0) + 1
    rec.label('mesh:' + m['kind'], 'src:' + m['src']['kind'],
              'trias:' + ('1' if t == 1 else '2-9' if t < 10 else '10-39' if t < 40 else '40+'))
    if len(used) < n:
        rec.label('loose nodes')
    if inner:
        rec.label('interior edges')
    if max(val.values()) > 7:
        rec.label('valence>7')
    if any(p[2] != 0 for p in m['pts']):
        rec.label('z!=0')
    if 'props' in case:
        pool = case['props']['pool']
        used_l = set(case['props']['node' if case.get('pn') else 'tria'])
        rec.label('laminates:%s' % ('1' if len(used_l) == 1 else '2+'))
        if any(pool[k]['offset'] for k in used_l):
            rec.label('offset laminate')
        rec.label('props from ' + ('nodes' if case.get('pn') else 'elements'))
    return inner


ALPHAS = [0., 0.08, 0.2, 0.1, 0.6, 1., 3., 1e-4, 25., 1000., 1e-8]


def rigid_scale(K, v):
    """Scale of round-off in v.K.v"""
    a = np.abs(v)
    return float(a.dot(np.abs(K)).dot(a))
