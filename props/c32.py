"""Nothing but the result changes: arguments, the model, settings of the process"""
import io
import os
import random
import contextlib

import numpy as np

from lib import env, gen, kit, printed, state
from lib import mesh as M
from lib.core import Sub, Violation, call, ensure
from lib.gen import st

RULE = ('Imports, calculations, interpolations, utilities and printing with random arguments and options; everything given by the user, the rest of the '
        'model and the settings of the process are recorded before and after each call, and the results are overwritten; non-trivial: each case.')
ASSUMPTIONS = ['laminates are compared by their numbers and arrays', 'modules may be imported']

WARM = []


def watch(what, fn, given, files=()):
    """fn(), which may change neither the process nor what given() describes"""
    a, p = given(), state.process()
    listed = dict((f, os.stat(f).st_mtime_ns) for f in os.listdir('.') if f not in files)
    out = call(what, fn)
    b, q = given(), state.process()
    now = dict((f, os.stat(f).st_mtime_ns) for f in os.listdir('.') if f not in files)
    bad = state.differences(p, q)
    ensure(not bad, '%s changed the %s', what, ', '.join(bad))
    bad = [k for k in sorted(a) if a[k] != b.get(k)]
    ensure(not bad, '%s changed the %s', what, ', '.join(bad[:5]))
    ensure(now == listed, '%s changed files: %s', what, sorted(set(now.items()) ^ set(listed.items()))[:4])
    return out


def overwrite(what, out, given):
    """the results belong to the caller"""
    a = given()
    for x in out if isinstance(out, (tuple, list)) else [out]:
        if isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
            x[...] = 7e77
    b = given()
    bad = [k for k in sorted(a) if a[k] != b.get(k)]
    ensure(not bad, 'overwriting the result of %s changes the %s', what, ', '.join(bad[:5]))


@st.composite
def models(draw):
    c = draw(kit.model(max_cells=3))
    ops = draw(st.lists(st.sampled_from(M.METHODS + ['kG', 'kG', 'k0']), min_size=1, max_size=4))
    return dict(c, ops=ops, alpha=draw(st.sampled_from([0., 0.08, 1])), area=draw(st.booleans()), loud=draw(st.booleans()),
                seed=draw(st.integers(0, 10**6)), f32=draw(st.booleans()), both=draw(st.booleans()))


def warm():
    """what is imported or set up by the first calls only"""
    if WARM:
        ensure(not WARM[0], 'importing and calling everything once changed the %s', ', '.join(WARM[0]))
        return
    from lib import kit  # noqa
    before = state.process()
    import sympy as sp
    import meshless.dev.sympytools as sy
    import meshless.interpolate  # noqa
    import meshless.utils  # noqa
    from meshless.espim.plate2d_add_k0s import add_k0s
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    mod = M.make(dict(pts=[[0, 0, 0], [1, 0, 0], [0, 1, 0]], tris=[[0, 1, 2]],
                      src=dict(kind='deck', ids='dense', nids=[1, 2, 3], eids=[1], seed=0, fmt='free', shuffle=False, name='warm.dat')))
    lam = M.build_laminate(dict(kind='iso', h=0.1, E=1e9, nu=0.3, offset=0.))
    for x in mod.nodes + mod.trias:
        x.prop = lam
    for pn in (True, False):
        k0 = call('calc_k0', calc_k0, mod.mesh, pn)
        for method in M.METHODS:
            call(method, add_k0s, k0, mod.mesh, pn, method)
        call('calc_kG', calc_kG, np.ones(15), mod.mesh, pn)
    a, b = sp.symbols('a b')
    call('mprint_as_array', sy.mprint_as_array, sp.Matrix([[a*b + 1, (a*b + 1)**2]]), 'warm', use_cse=True, print_file=False)
    call('mprint_as_dense', sy.mprint_as_dense, sp.Matrix([[a*b + a]]), 'warm', collect_for=[a], print_file=False)
    call('mprint_as_sparse', sy.mprint_as_sparse, sp.Matrix([[a*b + a]]), 'warm', print_file=False)
    after = state.process()
    WARM.append([k for k in state.differences(before, after) if k not in state.IMPORTS])
    warm()


def settings(check):
    def run(case, rec):
        warm()
        with state.other_settings(case['seed']):
            check(case, rec)
    return run


@settings
def check_models(case, rec):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    from meshless.espim.read_mesh import read_mesh, read_delaunay
    src = case['mesh']['src']
    pts = np.array(case['mesh']['pts'], dtype=float)
    quiet = contextlib.redirect_stdout(io.StringIO()) if case['loud'] else contextlib.nullcontext()
    with quiet:
        if src['kind'] == 'deck':
            M.make(case['mesh'])    # writes the deck
            path = os.path.join(os.getcwd(), src.get('name') or 'model.dat')
            with open(path, 'rb') as f:
                text = f.read()

            def given():
                with open(path, 'rb') as f:
                    return {'deck': f.read()}
            mesh = watch('read_mesh', lambda: read_mesh(path, silent=not case['loud']), given)
            mod = M.Model(mesh, src['nids'], src['eids'])
        else:
            three = src.get('three_d') or bool(np.any(pts[:, 2] != 0))
            p = pts.copy() if three else pts[:, :2].copy()
            if src.get('as_list'):
                p = p.tolist()
            tri = M.real_delaunay(pts[:, :2], case['mesh']['tris'])

            def given():
                return {'points': state.freeze(p), 'triangles': state.freeze(tri.simplices), 'points of the triangulation': state.freeze(tri.points)}
            mesh = watch('read_delaunay', lambda: read_delaunay(p, tri, silent=not case['loud']), given)
            mod = M.Model(mesh)
        both = case['both']
        lams = mod.assign(case['props'], node=bool(case['pn']) or both, tria=not case['pn'] or both)
        n = 5*mod.n
        rnd = random.Random(case['seed'])
        d = None
        kept = []
        for what in ['k0'] + case['ops']:
            K = np.zeros((n, n))

            def given():
                out = state.model(mod, lams)
                out['displacements'] = state.freeze(d)
                for i, x in enumerate(kept):
                    out['result %d' % i] = state.freeze(x)
                return out
            if what == 'k0':
                fn = lambda: calc_k0(mod.mesh, case['pn'], silent=not case['loud'])
            elif what == 'kG':
                d = mod.scatter(np.array([rnd.randint(-20, 20) for _ in range(n)], dtype=float))
                if case['f32']:
                    d = d.astype(np.float32)
                d.flags.writeable = rnd.random() < .5
                fn = lambda: calc_kG(d, mod.mesh, case['pn'], silent=not case['loud'])
            else:
                fn = lambda: add_k0s(K, mod.mesh, case['pn'], what, case['alpha'], case['area'])
            out = watch(what, fn, given)
            if what != 'k0':
                # the domains belong to the model, too
                again = [[np.array(e.sdomain), e.Ac, len(e.ipts)] for e in mod.mesh.edges.values()]
            overwrite(what, out, given)
            if what != 'k0':
                for (x, a, k), e in zip(again, mod.mesh.edges.values()):
                    ensure(np.array_equal(x, e.sdomain) and a == e.Ac and k == len(e.ipts), 'overwriting the result of %s changes a domain', what)
            if rnd.random() < .5 and isinstance(out, np.ndarray):
                kept.append(out)
    rec.label('src:' + src['kind'], 'loud' if case['loud'] else 'silent', *['op:' + o for o in case['ops']])
    rec.hit()


@st.composite
def numbers(draw):
    k = draw(st.lists(st.integers(1, 5), min_size=3, max_size=3))
    return dict(k=k, seed=draw(st.integers(0, 10**6)), n=draw(st.integers(0, 6)), kind=draw(st.sampled_from(['float', 'int', 'list'])),
                read_only=draw(st.booleans()))


@settings
def check_numbers(case, rec):
    from meshless.interpolate import interpolate_lagrange_2D, interpolate_lagrange_3D
    from meshless.utils import area_of_polygon, unitvec
    rnd = random.Random(case['seed'])

    def array(v):
        if case['kind'] == 'list':
            return list(v)
        a = np.array(v, dtype=float if case['kind'] == 'float' else int)
        a.flags.writeable = not case['read_only']
        return a
    k = case['k']
    N = [array(rnd.sample(range(-9, 10), i)) for i in k]
    P = [np.array([rnd.randint(-5, 5) for _ in range(case['n'])], dtype=float if case['kind'] == 'float' else int) for _ in range(3)]
    F2 = np.array([rnd.randint(-9, 9) for _ in range(k[0]*k[1])], dtype=float).reshape(k[:2])
    F3 = np.array([rnd.randint(-9, 9) for _ in range(k[0]*k[1]*k[2])], dtype=float).reshape(k)
    x, y = [array([rnd.randint(-9, 9) for _ in range(3 + case['n'])]) for _ in range(2)]
    v = np.array([rnd.randint(1, 9) for _ in range(3)], dtype=float)
    for a in P + [F2, F3, v]:
        a.flags.writeable = not case['read_only']

    def given():
        return {'nodes': state.freeze(N), 'points': state.freeze(P), 'values': state.freeze([F2, F3]),
                'polygon': state.freeze([x, y]), 'vector': state.freeze(v)}
    for what, fn in [('interpolate_lagrange_2D', lambda: interpolate_lagrange_2D(P[0], P[1], N[0], N[1], F2)),
                     ('interpolate_lagrange_3D', lambda: interpolate_lagrange_3D(P[0], P[1], P[2], N[0], N[1], N[2], F3)),
                     ('area_of_polygon', lambda: area_of_polygon(x, y)), ('unitvec', lambda: unitvec(v))]:
        overwrite(what, watch(what, fn, given), given)
    rec.label('kind:' + case['kind'], 'read only' if case['read_only'] else 'writeable')
    rec.hit()


@settings
def check_print(case, rec):
    import sympy as sp
    from meshless.dev import sympytools as sy
    m = printed.build(case)[0]
    kw = printed.sympify_options(case)
    common = dict(print_file=bool(case['file']), pow_by_mul=case['mul'], header=case['header'])
    dof = case['dof']
    calls = [(sy.mprint_as_dense, dict(kw, dofpernode=dof)), (sy.mprint_as_sparse, dict(kw, dofpernode=dof, sufix=case['sufix'])),
             (sy.mprint_as_array, dict((k, v) for k, v in kw.items() if k != 'subs'))]
    if not case['collect']:
        calls.append((sy.mprint_as_array, dict(use_cse=True, order='F')))

    def given():
        return {'matrix': (type(m), m.shape, tuple(m), tuple(str(x) for x in m)), 'substitutions': tuple((kw.get('subs') or {}).items()),
                'symbols to collect': tuple(kw.get('collect_for') or ())}
    for fn, options in calls:
        files = ['print_%s.txt' % case['name'], 'print_%s_%s.txt' % (case['name'], case['sufix'])] if case['file'] else []
        watch(fn.__name__, lambda: fn(m, case['name'], **dict(common, **options)), given, files)
        for f in files:
            if os.path.exists(f):
                os.remove(f)
    rec.label('kind:' + case['kind'], 'file' if case['file'] else 'no file')
    rec.hit()


SUBS = [Sub('models', models, check_models, 200, 6000),
        Sub('numbers', numbers, check_numbers, 200, 5000),
        Sub('printing', lambda: printed.matrices(shapes='dof'), check_print, 200, 5000)]
