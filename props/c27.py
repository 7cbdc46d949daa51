"""Locality: what a piece of the plate contributes depends on that piece and
its neighbourhood only"""
import random

import numpy as np

from lib import gen, kit, ref
from lib import mesh as M
from lib.core import Skip, Sub, as_matrix, call, close, ensure
from lib.gen import st
from props.c13 import scales

RULE = ('Random plates; one laminate, one node position or one displacement changed, or a second plate without common nodes added (beside, touching in a node or at the same place), '
        'compared with the model without the change; non-trivial: parts of the matrices are beyond the reach of the change.')
ASSUMPTIONS = ['reach: triangles that use the node or the laminate, their neighbours over an edge']


def run(m, props, pn, d, opt, lams=None):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    mod = M.make(m)
    lams = mod.assign(props, lams=lams, node=pn, tria=not pn)
    n = 5*mod.n
    K = mod.ordered(as_matrix('stiffness', call('calc_k0', calc_k0, mod.mesh, pn), n))
    Z = call('add_k0s', add_k0s, np.zeros((n, n)), mod.mesh, pn, opt[0], alpha=opt[1], maxl_from_area=opt[2])
    Z = mod.ordered(as_matrix('shear stiffness', Z, n))
    G = call('calc_kG', calc_kG, mod.scatter(d), mod.mesh, pn)
    return (K, Z, mod.ordered(as_matrix('geometric stiffness', G, n))), lams


@st.composite
def base(draw):
    c = draw(kit.model(deck=False))
    c['d'] = draw(gen.vector(5*len(c['mesh']['pts'])))
    c['method'] = draw(st.sampled_from(M.METHODS))
    c['alpha'] = draw(st.sampled_from(kit.ALPHAS))
    c['area'] = draw(st.booleans())
    c['pick'] = draw(st.integers(0, 2**31))
    c['what'] = draw(st.sampled_from(['laminate', 'position', 'displacement', 'triangle']))
    c['other'] = draw(gen.laminate(c['mesh']['size']))
    return c


def grow(tris, seed):
    """the triangles `seed` and those sharing an edge with one of them"""
    out = set(seed)
    for ts in ref.edges_of(tris).values():
        if len(ts) == 2 and set(ts) & set(seed):
            out |= set(ts)
    return out


def check_change(case, rec):
    m, props, pn, d = case['mesh'], case['props'], case['pn'], list(case['d'])
    opt = case['method'], case['alpha'], case['area']
    tris = m['tris']
    rnd = random.Random(case['pick'])
    A, lams = run(m, props, pn, d, opt)
    kit.labels(case, rec)
    what = case['what']
    m2, props2, d2 = m, props, d
    if what == 'displacement':
        i = rnd.randrange(len(m['pts']))
        d2 = list(d)
        d2[5*i + rnd.randrange(5)] += 7
        seed = [k for k, t in enumerate(tris) if i in t]
        names = [2]
    elif what == 'laminate':
        props2 = dict(props, pool=props['pool'] + [case['other']])
        key = 'node' if pn else 'tria'
        i = rnd.randrange(len(props[key]))
        props2[key] = list(props[key])
        props2[key][i] = len(props['pool'])
        seed = [k for k, t in enumerate(tris) if i in t] if pn else [i]
        names = [0, 1, 2]
    elif what == 'position':
        i = rnd.randrange(len(m['pts']))
        P = [list(p) for p in m['pts']]
        P[i][0] += .03*m['size']
        P[i][1] -= .02*m['size']
        seed = [k for k, t in enumerate(tris) if i in t]
        if any(gen.tri_quality(*[P[q] for q in tris[k]]) < .05 for k in seed):
            raise Skip()
        m2 = dict(m, pts=P)
        names = [0, 1, 2]
    else:
        if len(tris) < 2:
            raise Skip()
        i = rnd.randrange(len(tris))
        keep = [k for k in range(len(tris)) if k != i]
        m2 = dict(m, tris=[tris[k] for k in keep])
        props2 = dict(props, tria=[props['tria'][k] for k in keep])
        seed = [i]
        names = [0, 1, 2]
    lams2 = None
    if what == 'laminate':
        lams2 = lams + [M.build_laminate(case['other'])]
    B, _ = run(m2, props2, pn, d2, opt, lams=lams2 if lams2 else lams)
    # a smoothing domain belongs to an edge, i.e. to the nodes of the adjacent triangles
    touched = set(q for k in grow(tris, seed) for q in tris[k])
    far = [q for q in range(len(m['pts'])) if q not in touched]
    mask = np.ones((len(m['pts']),)*2, dtype=bool)
    mask[np.ix_(sorted(touched), sorted(touched))] = False
    M5 = np.kron(mask, np.ones((5, 5))) > 0
    S = scales(m, props, pn, d, lams, *opt)
    for k in names:
        title = ('constitutive', opt[0] + ' shear', 'geometric')[k]
        close('%s stiffness away from the changed %s' % (title, what), np.where(M5, B[k], 0), np.where(M5, A[k], 0),
              np.maximum(S[k], S[k][S[k] > 0].min() if (S[k] > 0).any() else 1), 1e-9, rec)
    if what == 'displacement':
        for k in (0, 1):
            ensure(np.abs(B[k] - A[k]).max() <= 1e-9*max(np.abs(A[k]).max(), 1e-300), 'displacements change the stiffness')
    rec.label('changed:' + what, 'method:' + opt[0])
    rec.hit(bool(far))


@st.composite
def two(draw):
    c = draw(base())
    s = draw(gen.plate(max_cells=2))
    P = np.array(c['mesh']['pts'])
    c['ratio'] = draw(st.sampled_from([1., 1., 1., 1e-3, 1e-5]))
    Q = np.array(s['pts'])/s['size']*c['mesh']['size']*c['ratio']
    Q[:, 2] = P[0, 2]
    Q[:, 0] += P[:, 0].max() - Q[:, 0].min() + draw(st.sampled_from([.5, 0.01, 50.]))*c['mesh']['size']
    rnd = random.Random(c['pick'])
    c['place'] = draw(st.sampled_from(['beside', 'beside', 'touching', 'on top']))
    if c['place'] == 'touching':
        i, j = rnd.randrange(len(P)), rnd.randrange(len(Q))
        Q += P[i] - Q[j]
        Q[j] = P[i]
    elif c['place'] == 'on top':
        Q = P
        s = dict(s, tris=[list(t) for t in c['mesh']['tris']], kind=c['mesh']['kind'])
    c['second'] = dict(s, pts=Q.tolist(), size=c['mesh']['size'])
    k = len(c['props']['pool'])
    c['props2'] = dict(node=[rnd.randrange(k) for _ in c['second']['pts']], tria=[rnd.randrange(k) for _ in s['tris']])
    c['d2'] = [rnd.randint(-9, 9) for _ in range(5*len(c['second']['pts']))]
    return c


def check_two(case, rec):
    """separate plates in one model: the two blocks, nothing in between"""
    m, s, pn = case['mesh'], case['second'], case['pn']
    opt = case['method'], case['alpha'], case['area']
    n1 = len(m['pts'])
    both = dict(m, pts=m['pts'] + s['pts'], tris=m['tris'] + [[i + n1 for i in t] for t in s['tris']])
    p1 = case['props']
    p2 = dict(p1, **case['props2'])
    pb = dict(p1, node=p1['node'] + p2['node'], tria=p1['tria'] + p2['tria'])
    A, lams = run(m, p1, pn, case['d'], opt)
    src = dict(m['src'])
    B, _ = run(dict(s, src=src), p2, pn, case['d2'], opt, lams=lams)
    C, _ = run(both, pb, pn, list(case['d']) + case['d2'], opt, lams=lams)
    SA = scales(m, p1, pn, case['d'], lams, *opt)
    SB = scales(s, p2, pn, case['d2'], lams, *opt)
    for k in range(3):
        title = ('constitutive', opt[0] + ' shear', 'geometric')[k]
        a = 5*n1
        ensure(not C[k][:a, a:].any() and not C[k][a:, :a].any(), '%s stiffness couples separate plates', title)
        close('%s stiffness of the first plate' % title, C[k][:a, :a], A[k], SA[k], 1e-9, rec)
        close('%s stiffness of the second plate' % title, C[k][a:, a:], B[k], SB[k], 1e-9, rec)
    rec.label('method:' + opt[0], 'placed:' + case['place'])
    rec.hit()


SUBS = [Sub('change', base, check_change, 500, 12000),
        Sub('two plates', two, check_two, 200, 5000)]
