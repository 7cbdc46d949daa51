"""Transverse shear stiffness (edge-based) = reference"""
from lib import kit, shear
from lib.core import Sub

METHOD = 'edge-based'
RULE = ('Triangulated plates with 1-4 laminates on elements or nodes, correction constants 0..25, both length '
        'measures, options given by keyword, position or default; non-trivial: two laminates or a correction.')
ASSUMPTIONS = ['laminates come from composites 0.2.5; E (yz, xz), h and the correction factors are read from them']


def check(case, rec):
    mod, lams = kit.setup(case)
    kit.labels(case, rec)
    rec.label('alpha=0' if not case['alpha'] else 'alpha>0', 'length from ' + ('area' if case['area'] else 'edges'))
    K = shear.shear(mod, case)
    shear.match('%s shear stiffness' % METHOD, mod.ordered(K), case, mod, lams, rec)
    rec.hit(len(case['props']['pool']) > 1 or case['alpha'] > 0)


SUBS = [Sub('reference', lambda: shear.case([METHOD], big=True), check, 700, 20000),
        Sub('large', lambda: shear.case([METHOD], kinds=('grid',), big='always', transform=False), check, 16, 300)]
