"""Calculations that are interrupted, or fail, and are then repeated"""
import importlib
import random

import numpy as np

from lib import gen, interleave, kit, printed, state
from lib import mesh as M
from lib.core import Skip, Sub, Violation, call, ensure
from lib.gen import st
from props.c30 import MODULES

RULE = ('Imports, calculations, interpolations and printing, each interrupted before randomly chosen statements (KeyboardInterrupt, MemoryError, '
        'other errors) or failing because of a laminate that is missing or displacements that are too short, then repeated, sometimes after '
        'another model was handled; compared with the same without interruption; non-trivial: something was interrupted.')
ASSUMPTIONS = ['interruptions happen between statements of the code under test',
               'the stiffness that was being added to is not used any more; calc_k0 is repeated before anything else, if it was interrupted']


class Interrupt(object):
    def __init__(self, at, exc):
        self.n = 0
        self.at = at
        self.exc = exc
        self.fired = False

    def step(self):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise self.exc('interrupted')


def counted(fn, at=None, exc=KeyboardInterrupt):
    """(result or None, number of statements, whether it was interrupted)"""
    c = Interrupt(at, exc)
    interleave.CURRENT[0] = c
    try:
        return fn(), c.n, c.fired
    except BaseException:
        if not c.fired:
            raise
        return None, c.n, True
    finally:
        interleave.CURRENT[0] = None


def model_stages(case):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    s = {}

    def given():
        if 'mod' not in s:
            return {}
        out = state.model(s['mod'], s['lams'])
        out['displacements'] = state.freeze(s.get('d'))
        return out
    s['given'] = given

    def imp():
        s.pop('d', None)
        s['mod'], s['lams'] = kit.setup(case)
        mod = s['mod']
        return [np.array([np.array(nd.xyz, dtype=float) for nd in mod.nodes]),
                np.array([[mod.nodes.index(x) for x in t.nodes] for t in mod.trias], dtype=float),
                np.array(sorted([list(k) + [len(v)] for k, v in mod.edge_order().items()]), dtype=float)]

    def k0():
        K = s['mod'].ordered(call('calc_k0', calc_k0, s['mod'].mesh, case['pn']))
        if 'd' not in s:
            rnd = random.Random(case['seed'])
            s['d'] = s['mod'].scatter(np.array([rnd.randint(-20, 20) for _ in range(5*s['mod'].n)], dtype=float))
        return [K]

    def kG():
        return [s['mod'].ordered(call('calc_kG', calc_kG, s['d'], s['mod'].mesh, case['pn']))]

    def k0s(method):
        K = np.zeros((5*s['mod'].n, 5*s['mod'].n))
        call('add_k0s', add_k0s, K, s['mod'].mesh, case['pn'], method, alpha=case['alpha'], maxl_from_area=case['area'])
        return [s['mod'].ordered(K)]

    out = [('import', imp), ('k0', k0)]
    for what in case['what']:
        out.append((what, kG if what == 'kG' else k0 if what == 'k0' else lambda what=what: k0s(what)))
    return out, s


def lagrange_stages(case):
    from meshless.interpolate import interpolate_lagrange_2D, interpolate_lagrange_3D
    from meshless.utils import area_of_polygon, unitvec
    rnd = random.Random(case['seed'])
    k = [rnd.randint(1, 4) for _ in range(3)]
    N = [np.array(rnd.sample(range(-9, 10), i))/2. for i in k]
    P = [np.array([rnd.uniform(-5, 5) for _ in range(5)]) for _ in range(3)]
    F = np.array([rnd.uniform(-1, 1) for _ in range(k[0]*k[1]*k[2])]).reshape(k)
    return [('2D', lambda: [np.array(call('interpolation', interpolate_lagrange_2D, P[0], P[1], N[0], N[1], F[:, :, 0]))]),
            ('3D', lambda: [np.array(call('interpolation', interpolate_lagrange_3D, P[0], P[1], P[2], N[0], N[1], N[2], F))]),
            ('utils', lambda: [np.array(call('area', area_of_polygon, P[0], P[1])), np.array(call('unit vector', unitvec, P[2]))])], dict(given=lambda: {'arguments': state.freeze([N, P, F])})


def print_stages(case):
    from meshless.dev import sympytools as sy
    m = printed.build(case)[0]
    kw = dict(printed.sympify_options(case), print_file=bool(case['file']), header=case['header'])
    arr = dict((k, v) for k, v in kw.items() if k != 'subs')
    kw['dofpernode'] = case['dof']
    text = ' + '.join('(a + b*x%d)**%d' % (i, 2 + (case['seed'] + i) % 4) for i in range(5))

    def do(fn, kw):
        before = m.copy()
        out = [call(fn.__name__, fn, m, case['name'], pow_by_mul=case['mul'], **kw)]
        ensure(before == m, '%s: the matrix is another one', fn.__name__)
        if case['file']:
            with open('print_%s.txt' % case['name']) as f:
                out.append(f.read())
        return out
    return [('dense', lambda: do(sy.mprint_as_dense, kw)), ('sparse', lambda: do(sy.mprint_as_sparse, kw)),
            ('array', lambda: do(sy.mprint_as_array, dict(arr, use_cse=not case['collect']))),
            ('powers', lambda: [call('pow2mul', sy.pow2mul, text)])], dict(given=lambda: {
                'matrix': (type(m), tuple(m)), 'substitutions': tuple((kw.get('subs') or {}).items()), 'symbols to collect': tuple(kw.get('collect_for') or ())})


STAGES = dict(model=model_stages, lagrange=lagrange_stages, print=print_stages)
EXC = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, RuntimeError=RuntimeError, SystemExit=SystemExit)


@st.composite
def job(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    if kind == 'model':
        c = draw(kit.model(max_cells=2))
        methods = draw(st.lists(st.sampled_from(M.METHODS + ['kG', 'kG', 'k0']), min_size=1, max_size=3))
        return dict(c, job='model', what=methods, alpha=draw(st.sampled_from([0., 0.08])), area=draw(st.booleans()),
                    seed=draw(st.integers(0, 10**6)))
    if kind == 'lagrange':
        return dict(job='lagrange', seed=draw(st.integers(0, 10**6)))
    c = draw(printed.matrices(shapes='dof'))
    c['name'], c['sufix'] = 'K', None
    return dict(c, job='print')


@st.composite
def cases(draw, kinds):
    jobs = [draw(job(kinds)), draw(job(kinds))]
    cuts = draw(st.lists(st.tuples(st.integers(0, 5), st.floats(0, 1), st.sampled_from(sorted(EXC)), st.booleans()).map(list),
                         min_size=1, max_size=6))
    return dict(jobs=jobs, cuts=cuts)


def same(what, got, want):
    ensure(len(got) == len(want), '%s: %d results instead of %d', what, len(got), len(want))
    for a, b in zip(got, want):
        if isinstance(b, str):
            ensure(a == b, '%s: the text differs', what)
            continue
        ensure(a.shape == b.shape, '%s: another shape', what)
        scale = np.abs(b).max() if b.size else 0.
        e = np.abs(a - b).max() if b.size else 0.
        ensure(e <= 1e-9*scale, '%s: a result differs by %.3g of its largest term', what, e/scale if scale else e)


def prepare():
    for name in MODULES:
        importlib.import_module(name)
    interleave.instrument()


def check(case, rec):
    prepare()
    want, count = [], []
    for j in case['jobs']:
        stages, _ = STAGES[j['job']](j)
        r = [counted(fn) for _, fn in stages]
        want.append([x[0] for x in r])
        count.append([x[1] for x in r])
    stages, s1 = STAGES[case['jobs'][0]['job']](case['jobs'][0])
    before = state.process()
    for k, (title, fn) in enumerate(stages):
        history = []
        for at, where, exc, other in case['cuts']:
            if at % len(stages) != k or not count[0][k]:
                continue
            step = 1 + min(int(where*count[0][k]), count[0][k] - 1)
            a = s1['given']()
            _, _, fired = counted(fn, step, EXC[exc])
            b = s1['given']()
            bad = [x for x in sorted(a) if a[x] != b.get(x)] if title != 'import' else []
            ensure(not bad, '%s, %s before statement %d of %d: changes the %s', title, exc, step, count[0][k], ', '.join(bad[:5]))
            if fired:
                history.append('%s before statement %d of %d' % (exc, step, count[0][k]))
                rec.label('%s:%s' % (exc, title), 'stage:%d' % k)
                rec.hit()
            bad = state.differences(before, state.process())
            ensure(not bad, '%s, %s: changes the %s', title, history, ', '.join(bad))
            if other:
                s2, _ = STAGES[case['jobs'][1]['job']](case['jobs'][1])
                for i, (t2, f2) in enumerate(s2):
                    same('%s of another model or matrix, after %s interrupted (%s)' % (t2, title, history), f2(), want[1][i])
                rec.label('another one between')
        same('%s after %s' % (title, history or 'nothing'), fn(), want[0][k])
    rec.label('job:' + case['jobs'][0]['job'])


@st.composite
def faults(draw):
    c = draw(job(['model']))
    return dict(c, at=draw(st.integers(0, 10**6)), how=draw(st.sampled_from(['laminate', 'laminate', 'attribute', 'displacements', 'coordinates'])),
                attribute=draw(st.sampled_from(['A', 'D', 'E', 'h', 'scf_k13'])))


class Broken(object):
    """a laminate one attribute of which raises an error"""
    def __init__(self, lam, name):
        self.__dict__.update(vars(lam))
        self.__dict__.pop(name, None)


def check_fault(case, rec):
    from meshless.espim.plate2d_calc_kG import calc_kG
    prepare()
    stages, _ = model_stages(case)
    want = [fn() for _, fn in stages]
    stages, s = model_stages(case)
    for k, (title, fn) in enumerate(stages):
        if k:
            mod = s['mod']
            objs = mod.nodes if case['pn'] else mod.trias
            x = objs[case['at'] % len(objs)]
            keep = x.prop
            if case['how'] == 'laminate':
                x.prop = None
            elif case['how'] == 'attribute':
                x.prop = Broken(x.prop, case['attribute'])
            if case['how'] == 'coordinates':
                x = mod.nodes[case['at'] % mod.n]
                xyz = x.xyz
                x.xyz = 'nowhere'
            elif case['how'] == 'displacements' and title == 'kG':
                # five values for each node, but the node is not there
                n = 5*(mod.n - 1)
                fn0 = fn

                def short():
                    return calc_kG(np.zeros(n), mod.mesh, case['pn'])
                fn = short
            try:
                fn()
                failed = False
            except Exception as exc:
                failed = True
            if case['how'] == 'coordinates':
                x.xyz = xyz
            elif case['how'] == 'displacements':
                fn = stages[k][1]
            else:
                x.prop = keep
            if failed:
                rec.hit()
                rec.label('failed:%s:%s' % (case['how'], title))
        same('%s, once the model is complete' % title, fn(), want[k])


SUBS = [Sub('models', lambda: cases(['model']), check, 150, 4000),
        Sub('mixed', lambda: cases(['model', 'lagrange', 'print']), check, 100, 3000),
        Sub('printing', lambda: cases(['print']), check, 150, 4000),
        Sub('faults', faults, check_fault, 150, 4000)]
