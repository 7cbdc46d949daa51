"""One laminate for the whole plate: nodes or elements, same or equal objects,
assigned at once or changed later: same matrices"""
import random

import numpy as np

from lib import gen, kit
from lib import mesh as M
from lib.core import Sub, as_matrix, call, close, ensure
from lib.gen import st
from props.c13 import scales

RULE = ('Random plates with one laminate given to nodes, to elements, to both, as one object, as an equal object per node, '
        'with other laminates on the objects which are not used, or replaced between two calculations; '
        'non-trivial: more than one triangle.')
ASSUMPTIONS = ['laminates come from composites 0.2.5']


@st.composite
def cases(draw):
    c = draw(kit.model(homogeneous=True))
    c['d'] = draw(gen.vector(5*len(c['mesh']['pts'])))
    c['method'] = draw(st.sampled_from(M.METHODS))
    c['alpha'] = draw(st.sampled_from(kit.ALPHAS))
    c['area'] = draw(st.booleans())
    c['other'] = draw(gen.laminate(c['mesh']['size']))
    c['copies'] = draw(st.booleans())
    c['flag'] = draw(st.sampled_from(['bool', 'bool', 'int', 'numpy']))
    c['seed'] = draw(st.integers(0, 2**31))
    return c


def run(mod, case, pn):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    n = 5*mod.n
    pn = dict(bool=bool, int=int, numpy=np.bool_)[case.get('flag', 'bool')](pn)
    K = mod.ordered(as_matrix('stiffness', call('calc_k0', calc_k0, mod.mesh, pn), n))
    Z = call('add_k0s', add_k0s, np.zeros((n, n)), mod.mesh, pn, case['method'], alpha=case['alpha'],
             maxl_from_area=case['area'])
    Z = mod.ordered(as_matrix('shear stiffness', Z, n))
    G = call('calc_kG', calc_kG, mod.scatter(case['d']), mod.mesh, pn)
    return K, Z, mod.ordered(as_matrix('geometric stiffness', G, n))


def check(case, rec):
    kit.labels(case, rec)
    spec = case['props']['pool'][0]
    lam = M.build_laminate(spec)
    other = M.build_laminate(case['other'])
    make = (lambda: M.build_laminate(spec)) if case['copies'] else (lambda: lam)
    one = {}
    for pn in (True, False):
        mod = M.make(case['mesh'])
        for o in mod.nodes if pn else mod.trias:
            o.prop = make()
        for o in mod.trias if pn else mod.nodes:
            if case['seed'] % 2:
                o.prop = other
        one[pn] = run(mod, case, pn)
    S = scales(case['mesh'], case['props'], True, case['d'], [lam], case['method'], case['alpha'], case['area'])
    names = 'constitutive', case['method'] + ' shear', 'geometric'
    for k in range(3):
        close('%s stiffness, laminate of the elements instead of the nodes' % names[k], one[False][k], one[True][k], S[k], 1e-9, rec)

    # same mesh object, another laminate before and in between
    mod = M.make(case['mesh'])
    for o in list(mod.nodes) + list(mod.trias):
        o.prop = other
    run(mod, case, True)
    run(mod, case, False)
    for pn in (True, False):
        for o in mod.nodes if pn else mod.trias:
            o.prop = make()
        got = run(mod, case, pn)
        for k in range(3):
            close('%s stiffness after replacing the laminates' % names[k], got[k], one[True][k], S[k], 1e-9, rec)
        again = run(mod, case, pn)
        for k in range(3):
            close('%s stiffness calculated twice' % names[k], again[k], got[k], S[k], 1e-9, rec)
        for o in mod.nodes if pn else mod.trias:
            o.prop = other
    rec.hit(len(case['mesh']['tris']) > 1)


SUBS = [Sub('homogeneous', cases, check, 300, 8000)]
