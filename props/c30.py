"""Independent models and matrices can be handled at the same time by threads"""
import importlib
import random

import numpy as np

from lib import env, gen, interleave, kit, printed
from lib import mesh as M
from lib.core import Skip, Sub, Violation, brief, call, ensure
from lib.gen import st

RULE = ('Two to four threads, each with its own model (import, constitutive, shear and geometric stiffness), interpolations or matrix to print; '
        'one thread at a time advances, changing between randomly chosen statements of the code under test; compared with each one alone; '
        'non-trivial: at least one change of thread while at least two of them were at work.')
ASSUMPTIONS = ['threads change between statements of the code under test (not within a statement, nor inside of numpy, sympy and pyNastran)',
               'matrices are the same up to 1e-9 of their largest term, texts exactly']


def model_job(case, who):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    mod, lams = kit.setup(case)
    n = 5*mod.n
    out = []
    d = mod_d = None
    rnd = random.Random(case['seed'])
    for what in ['k0'] + case['what']:
        interleave.meet()
        if what == 'k0':
            out.append(mod.ordered(call('calc_k0', calc_k0, mod.mesh, case['pn'])))
        elif what == 'kG':
            d = np.array([rnd.randint(-20, 20) for _ in range(n)], dtype=float)
            out.append(mod.ordered(call('calc_kG', calc_kG, mod.scatter(d), mod.mesh, case['pn'])))
        else:
            K = np.zeros((n, n))
            call('add_k0s', add_k0s, K, mod.mesh, case['pn'], what, alpha=case['alpha'], maxl_from_area=case['area'])
            out.append(mod.ordered(K))
    edges = mod.edge_order()
    out.append(np.array([list(k) for k in sorted(edges)], dtype=float))
    return out


def same_job(case, who):
    """one calculation of a model set up before, three times"""
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    mod, what = case['mod'], case['what'][0]
    out = []
    for _ in range(3):
        interleave.meet()
        if what == 'k0':
            out.append(mod.ordered(call('calc_k0', calc_k0, mod.mesh, case['pn'])))
        elif what == 'kG':
            out.append(mod.ordered(call('calc_kG', calc_kG, case['d'], mod.mesh, case['pn'])))
        else:
            K = np.zeros((5*mod.n, 5*mod.n))
            call('add_k0s', add_k0s, K, mod.mesh, case['pn'], what, alpha=case['alpha'], maxl_from_area=case['area'])
            out.append(mod.ordered(K))
    return out


def lagrange_job(case, who):
    from meshless.interpolate import interpolate_lagrange_2D, interpolate_lagrange_3D
    from meshless.utils import area_of_polygon, unitvec
    rnd = random.Random(case['seed'])
    out = []
    for _ in range(3):
        interleave.meet()
        k = case.get('k') or [rnd.randint(1, 4) for _ in range(3)]
        N = [np.array(rnd.sample(range(-9, 10), i))/2. for i in k]
        P = [np.array([rnd.uniform(-5, 5) for _ in range(5)]) for _ in range(3)]
        F = np.array([rnd.uniform(-1, 1) for _ in range(k[0]*k[1]*k[2])]).reshape(k)
        out.append(np.array(call('interpolation', interpolate_lagrange_2D, P[0], P[1], N[0], N[1], F[:, :, 0])))
        out.append(np.array(call('interpolation', interpolate_lagrange_3D, P[0], P[1], P[2], N[0], N[1], N[2], F)))
        out.append(np.array(call('area', area_of_polygon, P[0], P[1])))
        out.append(np.array(call('unit vector', unitvec, P[2])))
    return out


def print_job(case, who):
    from meshless.dev import sympytools as sy
    m = case['built']
    kw = dict(printed.sympify_options(case), dofpernode=case['dof'], header=case['header'])
    name = 'K%d' % who
    out = []
    for fn in (sy.mprint_as_dense, sy.mprint_as_sparse, sy.mprint_as_array):
        interleave.meet()
        if fn is sy.mprint_as_array:
            kw.pop('subs', None)
            kw.pop('dofpernode')
            kw['use_cse'] = not case['collect']
        kw = dict(kw, print_file=bool(case['file']))
        out.append(call(fn.__name__, fn, m, name, pow_by_mul=case['mul'], **kw).replace(name, 'K'))
    if case['file']:
        with open('print_%s.txt' % name) as f:
            out.append(f.read().replace(name, 'K'))
    text = ' + '.join('(a + b*x%d)**%d' % (i, 2 + (case['seed'] + i) % 4) for i in range(5))
    out.append(call('pow2mul', sy.pow2mul, text))
    return out


MODULES = ['meshless.' + m for m in ('interpolate', 'utils', 'logger', 'dev.sympytools')] + ['meshless.espim.' + m for m in (
    'classes', 'read_mesh', 'plate2d_calc_k0', 'plate2d_calc_kG', 'plate2d_add_k0s', 'plate2d_add_k0s_cell_based',
    'plate2d_add_k0s_cell_based_no_smoothing', 'plate2d_add_k0s_edge_based')]
JOBS = dict(model=model_job, same=same_job, lagrange=lagrange_job, print=print_job)


@st.composite
def job(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    if kind in ('model', 'same'):
        c = draw(kit.model(max_cells=2))
        methods = draw(st.lists(st.sampled_from(M.METHODS + ['kG', 'kG']), min_size=1, max_size=3))
        if kind == 'same':
            methods = draw(st.sampled_from([['k0']] + [[x] for x in M.METHODS + ['kG']]))
        return dict(c, job=kind, what=methods, alpha=draw(st.sampled_from([0., 0.08])), area=draw(st.booleans()),
                    seed=draw(st.integers(0, 10**6)))
    if kind == 'lagrange':
        return dict(job='lagrange', seed=draw(st.integers(0, 10**6)))
    c = draw(printed.matrices(shapes='dof'))
    c['name'], c['sufix'] = 'K', None
    return dict(c, job='print')


@st.composite
def cases(draw, kinds):
    k = draw(st.sampled_from([2, 2, 3, 4]))
    # the same steps in every thread, so that they are in the same function
    jobs = [draw(job(kinds)) for _ in range(k)]
    if jobs[0]['job'] in ('model', 'same'):
        for j in jobs[1:]:
            if j['job'] == 'same' or j['job'] == 'model' and draw(st.booleans()):
                j['what'] = jobs[0]['what']
                j['pn'] = jobs[0]['pn']
    if jobs[0]['job'] == 'lagrange' and draw(st.booleans()):
        for j in jobs:
            if j['job'] == 'lagrange':
                j['k'] = [3, 2, 2]
    return dict(jobs=jobs, seed=draw(st.integers(0, 2**32-1)), p=draw(st.sampled_from([0., 0., 0.5, 0.1, 0.02, 0.004])), meet=draw(st.booleans()))


def check(case, rec):
    for name in MODULES:
        importlib.import_module(name)
    interleave.instrument()
    jobs = []
    for who, j in enumerate(case['jobs']):
        j = dict(j)
        if j['job'] in ('model', 'same'):
            j['mesh'] = dict(j['mesh'], src=dict(j['mesh']['src'], name='model%d.dat' % who))
        if j['job'] == 'same':
            from meshless.espim.plate2d_calc_k0 import calc_k0
            j['mod'] = mod = kit.setup(j)[0]
            call('calc_k0', calc_k0, mod.mesh, j['pn'])
            rnd = random.Random(j['seed'])
            j['d'] = mod.scatter(np.array([rnd.randint(-20, 20) for _ in range(5*mod.n)], dtype=float))
        if j['job'] == 'print':
            j['built'] = printed.build(j)[0]
            j['collect'] = j['collect'] if j['collect'] else None
        jobs.append(j)
    # symbols and laminates exist before; every thread only calls the code under test
    alone = []
    for who, j in enumerate(jobs):
        alone.append(JOBS[j['job']](j, who))
    s = interleave.Schedule(case['seed'], case['p'], case.get('meet'))
    got = s.run([lambda j=j, who=who: JOBS[j['job']](j, who) for who, j in enumerate(jobs)])
    for who, ((r, exc), want) in enumerate(zip(got, alone)):
        what = 'thread %d of %d (%s)' % (who + 1, len(jobs), jobs[who]['job'])
        if exc is not None:
            if isinstance(exc, Violation):
                raise Violation('%s, interleaved with others: %s' % (what, exc))
            raise exc
        for k, (a, b) in enumerate(zip(r, want)):
            if isinstance(b, str):
                ensure(a == b, '%s: text %d differs from the one of the thread alone', what, k)
                continue
            ensure(a.shape == b.shape, '%s: result %d has another shape than alone', what, k)
            scale = np.abs(b).max() if b.size else 0.
            e = np.abs(a - b).max() if b.size else 0.
            ensure(e <= 1e-9*scale, '%s: result %d differs by %.3g of its largest term from that of the thread alone', what, k, e/scale if scale else e)
    rec.label('threads:%d' % len(jobs), 'p:%g' % case['p'], *sorted(set('job:' + j['job'] for j in jobs)))
    rec.label('changes:' + ('0' if not s.switches else '1-9' if s.switches < 10 else '10-99' if s.switches < 100 else '100+'))
    if s.free:
        rec.label('ran freely')
    rec.hit(s.switches > 0)


SUBS = [Sub('models', lambda: cases(['model']), check, 150, 4000),
        Sub('one calculation', lambda: cases(['same']), check, 200, 5000),
        Sub('mixed', lambda: cases(['model', 'lagrange', 'print']), check, 150, 4000),
        Sub('numbers', lambda: cases(['lagrange']), check, 150, 4000),
        Sub('printing', lambda: cases(['print']), check, 150, 4000)]
