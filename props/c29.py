"""The same input gives the same numbering, matrices and printed code in every
process"""
import numpy as np

from lib import apart, gen, kit, printed
from lib import mesh as M
from lib.core import Sub, as_matrix, call, ensure
from lib.gen import st

RULE = ('Random models and random symbolic matrices, handled by two interpreters with different hash seeds (order of sets) and '
        'memory; non-trivial: a model of two or more triangles, or a matrix with two or more terms.')
ASSUMPTIONS = ['matrices are the same up to 1e-12 of their largest term, numberings and texts exactly']
SEEDS = [0, 1, 4242]


def warm():
    import meshless.dev.sympytools  # noqa
    import meshless.espim.plate2d_add_k0s  # noqa
    import meshless.espim.plate2d_calc_k0  # noqa
    import meshless.espim.plate2d_calc_kG  # noqa
    import meshless.espim.read_mesh  # noqa


def calculate(case):
    """Numbering, matrices (as numbered) and edges of the model"""
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    mod, lams = kit.setup(case)
    n = 5*mod.n
    out = [as_matrix('stiffness', call('calc_k0', calc_k0, mod.mesh, case['pn']), n)]
    for method in M.METHODS:
        out.append(np.array(call('add_k0s', add_k0s, np.zeros((n, n)), mod.mesh, case['pn'], method)))
    # displacements as numbered by the code: the user keeps them in that order
    d = np.array(case['d'], dtype=float)
    out.append(as_matrix('geometric stiffness', call('calc_kG', calc_kG, d, mod.mesh, case['pn']), n))
    nodes = dict((id(nd), k) for k, nd in enumerate(mod.nodes))
    edges = [(nodes[id(e.n1)], nodes[id(e.n2)]) for e in mod.mesh.edges.values()]
    return dict(matrices=out, index=[int(nd.index) for nd in mod.nodes], edges=edges,
                nids=[nd.nid for nd in mod.nodes], eids=[t.eid for t in mod.trias])


def print_code(case):
    """Texts printed for the matrix"""
    from meshless.dev import sympytools as sy
    from lib.core import Skip
    try:
        m, want, _ = printed.build(case)
    except Skip:
        return None
    kw = printed.sympify_options(case)
    out = [sy.mprint_as_dense(m, case['name'], print_file=False, pow_by_mul=case['mul'], **kw),
           sy.mprint_as_sparse(m, case['name'], print_file=False, pow_by_mul=case['mul'], **kw)]
    kw.pop('subs', None)
    out.append(sy.mprint_as_array(m, case['name'], print_file=False, pow_by_mul=case['mul'],
                                  use_cse=not case['collect'], **kw))
    return out, len(want)


@st.composite
def models(draw, **kw):
    c = draw(kit.model(**kw))
    c['d'] = draw(gen.vector(5*len(c['mesh']['pts'])))
    c['other'] = draw(st.sampled_from(SEEDS[1:]))
    return c


def check_model(case, rec):
    A = apart.run(SEEDS[0], 'props.c29', 'calculate', case)
    B = apart.run(case['other'], 'props.c29', 'calculate', case)
    kit.labels(case, rec)
    ensure(A['nids'] == B['nids'] and A['eids'] == B['eids'], 'ids of nodes or triangles differ between processes')
    ensure(A['index'] == B['index'], 'numbering of the nodes differs between processes: %s, %s', A['index'][:20], B['index'][:20])
    ensure(sorted(map(sorted, A['edges'])) == sorted(map(sorted, B['edges'])), 'edges differ between processes')
    names = ['constitutive'] + [m + ' shear' for m in M.METHODS] + ['geometric']
    for what, a, b in zip(names, A['matrices'], B['matrices']):
        s = np.abs(a).max()
        e = np.abs(a - b).max()
        ensure(e <= 1e-12*s, '%s stiffness differs between processes by %.3g of its largest term', what, e/s if s else e)
        rec.maxerr = max(rec.maxerr, e/(1e-12*s) if s else 0.)
    rec.hit(len(case['mesh']['tris']) > 1)


@st.composite
def texts(draw):
    return dict(draw(printed.matrices(shapes='dof')), other=draw(st.sampled_from(SEEDS[1:])))


def check_text(case, rec):
    A = apart.run(SEEDS[0], 'props.c29', 'print_code', case)
    B = apart.run(case['other'], 'props.c29', 'print_code', case)
    ensure((A is None) == (B is None), 'the matrix exists in one of the processes only')
    if A is None:
        from lib.core import Skip
        raise Skip()
    for what, a, b in zip(('dense', 'sparse', 'array'), A[0], B[0]):
        ensure(a == b, 'the code printed as %s differs between processes', what)
    rec.label('collected' if case['collect'] else 'plain', 'subs' if case['subs'] else 'no subs')
    rec.hit(A[1] > 1)


SUBS = [Sub('models', models, check_model, 300, 6000),
        Sub('printed code', texts, check_text, 200, 5000)]
