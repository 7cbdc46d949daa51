"""The derivation scripts of theory/ print the matrices of the theory"""
import os
import random
import re
import subprocess
import sys

import numpy as np

from lib import env, gen, ref
from lib.core import Sub, Violation, close, ensure
from lib.gen import st

RULE = ('Each script is run in an empty folder; its printed code is executed for random values of all its names, and for random '
        'triangles and domains (with the values that the calculations give to those names), and compared with the matrices '
        'assembled from the theory; non-trivial: every case (all terms are evaluated).')
ASSUMPTIONS = ['the printed names are those that the calculations assign (n.., f.., le., Ac., a.-d., A.., B.., D.., E..)']

PLATE = 'theory/espim/2D/plate/FSDT/transverse_shear_'
CELL, NONE, EDGE = PLATE + 'cell_based', PLATE + 'cell_based_no_smoothing', PLATE + 'edge_based'
MEMBRANE, SFEM = 'theory/espim/2D/membrane', 'theory/sfem'
MATRICES = {
    'domain': [(CELL, 'k0'), (NONE, 'k0'), (EDGE, 'k0'), (CELL, 'kG')],
    'shear': [(CELL, 'k0s'), (NONE, 'k0s'), (EDGE, 'k0s_interior_edge'), (EDGE, 'k0s_boundary_edge'), (SFEM, 'k0')],
    'membrane': [(MEMBRANE, 'k0')],
}
_printed = {}


def run_script(folder):
    """{name: printed text} of the files which the script writes"""
    script = os.path.join(env.REPO, folder, 'stiffmatrices.py')
    scratch = os.path.abspath('run-' + re.sub(r'\W', '_', folder))
    os.makedirs(scratch, exist_ok=True)
    for f in os.listdir(scratch):
        os.remove(os.path.join(scratch, f))
    p = subprocess.run([sys.executable, '-B', script], cwd=scratch, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONPATH=env.REPO), timeout=400)
    if p.returncode:
        raise Violation('%s/stiffmatrices.py fails: %s' % (folder, p.stderr.strip().split('\n')[-1][:300]))
    out = {}
    for f in os.listdir(scratch):
        m = re.match(r'^print_(\w+)\.txt$', f)
        ensure(m, '%s/stiffmatrices.py wrote %s', folder, f)
        with open(os.path.join(scratch, f)) as fh:
            out[m.group(1)] = fh.read()
    return out


def program(folder, name, kept=False):
    """the printed code, compiled"""
    if kept:
        path = os.path.join(env.REPO, folder, 'print_%s.txt' % name)
        if path not in _printed:
            with open(path) as f:
                text = f.read()
            _printed[path] = text, compile(text, path, 'exec')
        return _printed[path]
    if folder not in _printed:
        _printed[folder] = dict((k, (v, compile(v, k, 'exec'))) for k, v in run_script(folder).items())
    ensure(name in _printed[folder], '%s/stiffmatrices.py did not write print_%s.txt', folder, name)
    return _printed[folder][name]


def evaluate(case, values, nodes):
    folder, name = case['folder'], case['name']
    text, code = program(folder, name, case.get('kept'))
    K = np.zeros((5*nodes, 5*nodes))
    ns = {'__builtins__': {}, name: K, 'dof': 5}
    ns.update(('i%d' % (k+1), k) for k in range(nodes))
    ns.update(values)
    try:
        exec(code, ns)
    except Exception as exc:
        raise Violation('%s, print_%s.txt: %s: %s' % (folder, name, type(exc).__name__, exc))
    lines = [l for l in text.split('\n') if l.strip() and not l.startswith('#')]
    ensure(re.findall(r'^# %s_num=(\d+)$' % name, text, re.M) == [str(len(lines))], 'number of terms of print_%s.txt', name)
    return K


@st.composite
def cases(draw, which):
    folder, name = draw(st.sampled_from(MATRICES[which]))
    rnd = random.Random(draw(st.integers(0, 2**32 - 1)))
    # node1, node2, other1, other2: two triangles on the sides of an edge
    P = [[0, 0], [100, rnd.randint(-20, 20)], [rnd.randint(-50, 150), rnd.randint(60, 150)],
         [rnd.randint(-50, 150), -rnd.randint(60, 150)]]
    c, s = rnd.choice([(1, 0), (0, 1), (-1, 0), (.6, .8), (-.28, .96)])
    f = rnd.choice([1., .01, 30.])
    P = [[(c*x - s*y)*f + 3*f, (s*x + c*y)*f - 7*f] for x, y in P]
    return dict(folder=folder, name=name, how=draw(st.sampled_from(['any', 'plate', 'outline'])), pts=P,
                seed=rnd.randrange(10**9), second=rnd.choice(['free', 'free', 'none']))


def laminate(rnd):
    """values of the names, and the matrices"""
    v, out = {}, {}
    for m in 'ABD':
        for k in ('11', '12', '16', '22', '26', '66'):
            v[m + k] = rnd.uniform(-1, 1) + (3 if k[0] == k[1] and m != 'B' else 0)
        out[m] = np.array([[v[m + '11'], v[m + '12'], v[m + '16']],
                           [v[m + '12'], v[m + '22'], v[m + '26']],
                           [v[m + '16'], v[m + '26'], v[m + '66']]])
    v['E44'], v['E45'], v['E55'] = rnd.uniform(1, 3), rnd.uniform(-1, 1), rnd.uniform(1, 3)
    out['E'] = np.array([[v['E44'], v['E45']], [v['E45'], v['E55']]])
    for k in ('Nxx', 'Nxy', 'Nyy'):
        v[k] = rnd.uniform(-2, 2)
    out['N'] = np.array([[v['Nxx'], v['Nxy']], [v['Nxy'], v['Nyy']]])
    return v, out


def domain_values(case, rnd):
    """names of the outline of a domain, and the averaged derivatives {node: (d/dx, d/dy)}"""
    v = {}
    if case['how'] == 'any':
        v['Ac'] = rnd.uniform(.5, 3)
        for s in range(1, 5):
            v['nx%d' % s], v['ny%d' % s], v['le%d' % s] = rnd.uniform(-1, 1), rnd.uniform(-1, 1), rnd.uniform(.2, 2)
            for k in range(1, 5):
                v['f%d%d' % (s, k)] = rnd.uniform(-1, 1)
    else:
        P = [np.array(p) for p in case['pts']]
        n1, n2, o1, o2 = P
        m1, m2 = (n1 + n2 + o1)/3, (n1 + n2 + o2)/3
        w1, w2 = [2/3., 1/6., 1/6., 0], [1/6., 2/3., 1/6., 0]
        x1, x2 = [2/3., 1/6., 0, 1/6.], [1/6., 2/3., 0, 1/6.]
        segs = [(m1, n1, w1), (n1, m2, x1), (m2, n2, x2), (n2, m1, w2)]
        area = (ref.area2(n1, n2, m1) - ref.area2(n1, n2, m2))/2
        if case['how'] == 'outline':
            segs = [(m1, n1, w1), (n1, n2, [.5, .5, 0, 0]), (n2, m1, w2)]
            area = ref.area2(n1, n2, m1)/2
        v['Ac'] = abs(area)
        for s in range(4):
            if s < len(segs):
                p, q, f = segs[s]
                t = (q - p)*np.sign(area)
                L = np.hypot(*t)
                v['nx%d' % (s+1)], v['ny%d' % (s+1)], v['le%d' % (s+1)] = t[1]/L, -t[0]/L, L
            else:
                v['nx%d' % (s+1)] = v['ny%d' % (s+1)] = v['le%d' % (s+1)] = 0.
                f = [0]*4
            for k in range(4):
                v['f%d%d' % (s+1, k+1)] = f[k]
    G = np.zeros((2, 4))
    for k in range(4):
        for s in range(1, 5):
            G[:, k] += v['f%d%d' % (s, k+1)]*v['le%d' % s]*np.array([v['nx%d' % s], v['ny%d' % s]])/v['Ac']
    if case['how'] != 'any':
        # the same derivatives from the constant ones of the triangles
        P3 = [list(p) + [0.] for p in case['pts']]
        tris = [[0, 1, 2]] if case['how'] == 'outline' else [[0, 1, 2], [1, 0, 3]]
        H = np.zeros((2, 4))
        tot = 0
        for area, g in ref.gradients(P3, tris):
            tot += area
            for k, (gx, gy) in g.items():
                H[:, k] += area*np.array([gx, gy])
        close('averaged derivatives', G, H/tot, np.abs(H/tot).max(), 1e-9)
        G = H/tot
    return v, G


def membrane_bending(G):
    n = G.shape[1]
    B = np.zeros((6, 5*n))
    for k in range(n):
        gx, gy = G[:, k]
        for r, o in ((0, 0), (3, 3)):
            B[r, 5*k+o] = gx
            B[r+1, 5*k+o+1] = gy
            B[r+2, 5*k+o] = gy
            B[r+2, 5*k+o+1] = gx
    return B


def compare(case, K, R, rec):
    D = np.sqrt(np.abs(np.diag(R)))
    S = np.maximum(np.outer(D, D), np.abs(R).max()*1e-3)
    close('%s, %s' % (case['folder'], case['name']), K, R, S, 1e-9, rec)
    rec.label(case['folder'].split('/')[-1] + ':' + case['name'], case['how'])
    rec.hit()


def check_domain(case, rec):
    rnd = random.Random(case['seed'])
    v, lam = laminate(rnd)
    w, G = domain_values(case, rnd)
    v.update(w)
    K = evaluate(case, v, 4)
    if case['name'] == 'kG':
        R = np.zeros((20, 20))
        R[2::5, 2::5] = v['Ac']*G.T.dot(lam['N']).dot(G)
    else:
        B = membrane_bending(G)
        C = np.block([[lam['A'], lam['B']], [lam['B'], lam['D']]])
        if case['folder'] == MEMBRANE:
            C[:3, 3:] = C[3:, :3] = C[3:, 3:] = 0
        R = v['Ac']*B.T.dot(C).dot(B)
    compare(case, K, R, rec)


def sub_triangle(v, k, p0, p1, p2, P, swap=False):
    """names of a sub-triangle with the first corner p0; swap: the notation of theory/sfem"""
    q = [np.mean([P[i] for i in c], axis=0) for c in (p0, p1, p2)]
    a, b = q[1] - q[0]
    c, d = q[2] - q[0]
    v['a%d' % k], v['b%d' % k] = a, b
    v['c%d' % k], v['d%d' % k] = (d, c) if swap else (c, d)
    v['Ac%d' % k] = area = (a*d - b*c)/2
    out = np.zeros((2, 5*len(P)))
    for c, B in zip((p0, p1, p2), ref.dsg(*q)):
        for i in c:
            out[:, 5*i+2:5*i+5] += B/len(c)
    # constant derivatives
    g = ref.gradients([list(x) + [0.] for x in q], [[0, 1, 2]])[0][1]
    G = np.zeros((2, len(P)))
    for k, c in enumerate((p0, p1, p2)):
        for i in c:
            G[:, i] += np.array(g[k])/len(c)
    return area, out, G


def check_shear(case, rec):
    rnd = random.Random(case['seed'])
    v, lam = laminate(rnd)
    folder, name = case['folder'], case['name']
    P = [np.array(p) for p in case['pts']]
    n = 4 if name == 'k0s_interior_edge' else 3
    P = P[:n]
    mid, sfem = (0, 1, 2), folder == SFEM
    if folder == CELL:
        parts = [(mid, (0,), (1,)), (mid, (1,), (2,)), (mid, (2,), (0,))]
    elif sfem:
        parts = [(mid, (1,), (2,)), ((0,), mid, (2,)), ((0,), (1,), mid)]
    elif folder == NONE:
        parts = [((0,), (1,), (2,))]
    elif name == 'k0s_boundary_edge':
        parts = [(mid, (0,), (1,))]
    else:
        parts = [(mid, (0,), (1,)), ((0,), (0, 1, 3), (1,))]
    Bs, G, tot = 0, 0, 0
    for k, p in enumerate(parts):
        area, b, g = sub_triangle(v, k+1, p[0], p[1], p[2], P, sfem)
        Bs, G, tot = Bs + area*b, G + area*g, tot + area
    Bs, G = Bs/tot, G/tot
    v['Ac'] = tot
    R = tot*Bs.T.dot(lam['E']).dot(Bs)
    if sfem:
        B = membrane_bending(G)
        R = R + tot*B.T.dot(np.block([[lam['A'], lam['B']], [lam['B'], lam['D']]])).dot(B)
    K = evaluate(case, v, n)
    compare(case, K, R, rec)


@st.composite
def kept(draw):
    """printed code that is kept beside the scripts"""
    have = [(w, f, n) for w in ('domain', 'shear') for f, n in MATRICES[w]
            if os.path.isfile(os.path.join(env.REPO, f, 'print_%s.txt' % n))]
    w, f, n = draw(st.sampled_from(have))
    return dict(draw(cases(w)), folder=f, name=n, kept=w)


def check_kept(case, rec):
    (check_domain if case['kept'] == 'domain' else check_shear)(case, rec)


SUBS = [Sub('domain', lambda: cases('domain'), check_domain, 240, 4000, shards=4),
        Sub('shear', lambda: cases('shear'), check_shear, 320, 6000, shards=4),
        Sub('membrane', lambda: cases('membrane'), check_domain, 60, 1000, shards=1),
        Sub('kept', kept, check_kept, 240, 3000, shards=4)]
