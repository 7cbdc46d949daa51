"""Transverse shear stiffness: accumulation, symmetry, semi-definiteness,
shear-free motions, exact energy of constant shear"""
import numpy as np

from lib import kit, ref, shear
from lib import mesh as M
from lib.core import Sub, as_matrix, call, close, ensure
from lib.gen import st

RULE = ('Same plates as C07-C09 with any of the three methods, plus random existing matrices (layouts, magnitudes) '
        'and random constant-shear fields; non-trivial: more than one triangle or two laminates.')
ASSUMPTIONS = ['laminates of composites 0.2.5 are positive definite in shear']


@st.composite
def accumulate(draw):
    c = draw(shear.case(M.METHODS))
    c['seed'] = draw(st.integers(0, 2**31))
    c['layout'] = draw(st.sampled_from(['C', 'F', 'view', 'k0', 'complex', 'longdouble', 'matrix']))
    c['twice'] = draw(st.booleans())
    return c


def check_accumulate(case, rec):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_add_k0s import add_k0s
    mod, lams = kit.setup(case)
    kit.labels(case, rec)
    n = 5*mod.n
    Kc = np.array(call('calc_k0', calc_k0, mod.mesh, case['pn']))
    mod.ready = True
    Z = shear.shear(mod, case)
    top = np.abs(Z).max()
    rng = np.random.RandomState(case['seed'])
    if case['layout'] == 'k0':
        K = Kc.copy()
    elif case['layout'] == 'view':
        K = np.zeros((2*n, n + 3))[::2, 3:]
        K[:] = rng.randint(-9, 10, (n, n))*top
    else:
        K = np.array(rng.randint(-9, 10, (n, n))*top, order='F' if case['layout'] == 'F' else 'C')
    if case['layout'] == 'complex':
        K = K + 1j*rng.randint(-9, 10, (n, n))*top
    elif case['layout'] == 'longdouble':
        K = K.astype(np.longdouble)
    elif case['layout'] == 'matrix':
        K = np.asmatrix(K)
    before = K.copy()
    a, kw = shear.kwargs(case)
    out = call('add_k0s', add_k0s, K, mod.mesh, case['pn'], *a, **kw)
    ensure(out is K, 'the matrix passed is not the one returned')
    f = 1
    if case['twice']:
        out = call('add_k0s', add_k0s, out, mod.mesh, case['pn'], *a, **kw)
        ensure(out is K, 'the matrix passed is not the one returned')
        f = 2
    K, before = np.asarray(K), np.asarray(before)
    if case['layout'] == 'complex':
        ensure((K.imag == before.imag).all(), 'imaginary part modified')
        K, before = K.real, before.real
    # untouched: membrane degrees of freedom
    mem = np.zeros(n, bool)
    mem[0::5] = mem[1::5] = True
    ensure((K[mem] == before[mem]).all() and (K[:, mem] == before[:, mem]).all(),
           'rows or columns of the membrane degrees of freedom were modified')
    ensure((K[Z == 0] == before[Z == 0]).all() or np.abs((K-before)[Z == 0]).max() <= 1e-9*top,
           'entries without shear stiffness were modified')
    scale = np.abs(before).max() + np.abs(Z) + 1e-300
    close('added stiffness', K - before, f*Z, scale, 1e-11, rec)
    rec.label('method:' + case['method'], 'layout:' + case['layout'])
    rec.hit(top > 0)


@st.composite
def structure(draw):
    c = draw(shear.case(M.METHODS))
    c['lin'] = draw(st.lists(st.integers(-9, 9), min_size=5, max_size=5))
    return c


def check_structure(case, rec):
    mod, lams = kit.setup(case)
    kit.labels(case, rec)
    rec.label('method:' + case['method'])
    m = case['mesh']
    n = mod.n
    K = mod.ordered(shear.shear(mod, case))
    edge = case['method'] == 'edge-based'
    r = shear.reference(case, mod, lams)
    (R, S) = r[0] if edge else r
    Rd = None
    if edge:
        Rd = r[1][0]
        S = np.maximum(S, r[1][1])
    close('transposed shear stiffness', K, K.T, S, 1e-10, rec)
    s = m['size']
    D = np.tile([1., 1., 1., 1/s, 1/s], n)
    w = np.linalg.eigvalsh((K + K.T)/2*np.outer(D, D))
    ensure(w[0] >= -1e-9*max(w[-1], 1e-300), 'negative eigenvalue %g (largest %g)', w[0], w[-1])
    ensure(not K[0::5].any() and not K[1::5].any() and not K[:, 0::5].any() and not K[:, 1::5].any(),
           'shear stiffness for membrane degrees of freedom')
    used = set(i for t in m['tris'] for i in t)
    for i in range(n):
        if i not in used:
            ensure(not K[5*i:5*i+5].any(), 'stiffness for node %d, which no triangle uses', i)

    P = np.array(m['pts'])[:, :2]
    X = P - P.mean(axis=0)
    c0, bx, by, px, py = case['lin']
    N, T = kit.refprops(case, lams)

    def field(w0, gx, gy, rx, ry):
        v = np.zeros((n, 5))
        v[:, 2] = w0*s + gx*X[:, 0] + gy*X[:, 1]
        v[:, 3], v[:, 4] = rx, ry
        return v.ravel()

    def known(what, v, got, want, scale, tol):
        """exact, or exactly what the known finding gives"""
        got, want = np.atleast_1d(got), np.atleast_1d(want)
        if edge and np.any(np.abs(got - want) > tol*scale):
            wd = Rd.dot(v) if got.size > 1 else np.atleast_1d(v.dot(Rd).dot(v))
            close(what, got, wd, scale, tol)
            rec.known_finding(shear.FINDING, what)
        else:
            close(what, got, want, scale, tol, rec)

    # rigid motions (w = a + b.x, rotations -b): no shear forces at all
    for f in ((1, 0, 0, 0, 0), (c0, bx, by, -bx, -by)):
        v = field(*f)
        g = K.dot(v)
        known('forces of a rigid motion', v, g, 0*g, np.abs(S).dot(np.abs(v)) + 1e-300, 1e-10)
    # constant shear strains gx = w,x + phix and gy = w,y + phiy
    v = field(c0, bx, by, px, py)
    gx, gy = bx + px, by + py
    U = 0.
    if edge:
        for d in ref.domains(m['pts'], m['tris'], mod.edge_order()):
            i, j = d.edge
            Pi, Pj = np.array(m['pts'][i][:2]), np.array(m['pts'][j][:2])
            mids = [sum(np.array(m['pts'][q][:2]) for q in m['tris'][t])/3 for t in d.ts]
            L = max([np.hypot(*(Pi-Pj))] + [np.hypot(*(p-q)) for p in (Pi, Pj) for q in mids])
            L = np.sqrt(d.area) if case['area'] else L
            cx, cy, cxy = ref.shear_moduli(lambda f: ref.dom_prop(d, m['tris'], f, N, T), case['alpha'], L)
            U += d.area*(cx*gx**2 + cy*gy**2 + (2*cxy*gx*gy if len(d.ts) == 2 else 0.))
    else:
        for k, t in enumerate(m['tris']):
            Q = [np.array(m['pts'][i][:2]) for i in t]
            A = abs(ref.area2(*Q))/2
            L = np.sqrt(A) if case['area'] else max(np.hypot(*(Q[i]-Q[j])) for i, j in ((0, 1), (1, 2), (2, 0)))
            cx, cy, _ = ref.shear_moduli(lambda f: ref.tri_shear_prop(t, k, N, T, f), case['alpha'], L)
            U += A*(cx*gx**2 + cy*gy**2)
    known('energy of a constant shear', v, v.dot(K).dot(v), U, np.abs(v).dot(S).dot(np.abs(v)) + 1e-300, 1e-10)
    rec.hit(len(m['tris']) > 1 or len(case['props']['pool']) > 1)


SUBS = [Sub('accumulate', accumulate, check_accumulate, 300, 6000),
        Sub('structure', structure, check_structure, 400, 10000)]
