"""Constitutive stiffness, laminates of the elements = reference"""
from lib import kit, ref
from lib.core import Sub, as_matrix, call, close

RULE = ('Triangulated plates (structured, Delaunay, fans, single/pair, holes and loose nodes, mixed orientation, '
        'scaled/sheared/rotated/shifted/raised, point cloud or deck) with a pool of 1-4 laminates spread over the '
        'elements; non-trivial: at least one interior edge or two laminates, distinct case data.')
ASSUMPTIONS = ['laminates come from composites 0.2.5; A, B, D are read from them',
               'triangles with quality > 0.05 (no near-degenerate ones)']
PN = False


def check(case, rec):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    mod, lams = kit.setup(case)
    inner = kit.labels(case, rec)
    m = case['mesh']
    K = as_matrix('stiffness', call('calc_k0', calc_k0, mod.mesh, case['pn']), 5*mod.n)
    N, T = kit.refprops(case, lams)
    R, S = ref.k0(m['pts'], m['tris'], N, T)
    close('stiffness', mod.ordered(K), R, S, 1e-9, rec)
    rec.hit(inner or len(case['props']['pool']) > 1)


SUBS = [Sub('reference', lambda: kit.model(pn=PN, big=True), check, 700, 20000),
        Sub('large', lambda: kit.model(pn=PN, kinds=('grid',), big='always', transform=False), check, 16, 300)]
