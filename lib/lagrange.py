"""Shared by the properties about Lagrange interpolation"""
import random
from fractions import Fraction
from itertools import product

import numpy as np

from lib import env
from lib.core import Violation, call, close, ensure, worst
from lib.gen import st

FINDING = 'lagrange3d-z-basis'
FORMS = ['array', 'array', 'list', 'int', 'grid', 'scalar', 'square', 'many']


def coords(draw, rnd, kmax, many=False):
    k = draw(st.integers(1, kmax + 2*env.DEEP))
    if many:
        k = draw(st.integers(kmax, kmax + 5))
    how = draw(st.sampled_from(['spread', 'spread', 'uniform', 'clustered', 'unit']))
    if how == 'unit':
        return [0., 1.] if k > 1 else [0.]
    if how == 'uniform':
        a, h = rnd.randint(-8, 8)/4., rnd.choice([0.25, 1., 0.1, 50.])
        v = [a + h*i for i in range(k)]
    elif how == 'clustered':
        v = [x/64. for x in rnd.sample(range(-6, 7), k)]
    else:
        v = [x/4. for x in rnd.sample(range(-20, 21), k)]
    how = draw(st.sampled_from(['as is', 'ascending', 'descending']))
    if how != 'as is':
        v = sorted(v, reverse=how == 'descending')
    # far from the origin, or in other units (all exact in double precision)
    far = draw(st.sampled_from(['no', 'no', 'no', 'far', 'tiny', 'fine', 'huge', 'near zero']))
    if k > 1 and all(float(a*64).is_integer() for a in v):
        if far == 'far':
            v = [a + 4096. for a in v]
        elif far == 'fine':
            v = [a/4096. + 1024. for a in v]
        elif far == 'tiny':
            v = [a/2.**40 for a in v]
        elif far == 'huge':
            v = [a*2.**30 for a in v]
        elif far == 'near zero' and len(set(v)) > 2:
            v[rnd.randrange(k)] = 2.**-36
    return v


@st.composite
def case(draw, dim):
    rnd = random.Random(draw(st.integers(0, 2**32-1)))
    many = draw(st.integers(0, 19))    # many nodes in one direction
    nodes = [coords(draw, rnd, (6 if dim == 2 else 5) if many >= dim or d == many else 4, d == many) for d in range(dim)]
    if dim == 3 and draw(st.integers(0, 2)) == 0:
        nodes[2] = list(nodes[1])
    shape = [len(v) for v in nodes]
    kind = draw(st.sampled_from(['random', 'random', 'one', 'constant']))
    n = int(np.prod(shape))
    if kind == 'one':
        f = [0.]*n
        f[rnd.randrange(n)] = 1.
    elif kind == 'constant':
        f = [rnd.randint(-9, 9)/2.]*n
    else:
        f = [rnd.randint(-40, 40)/4. for _ in range(n)]
    k = draw(st.integers(1, 7))
    q = []
    for _ in range(k):
        p = []
        for v in nodes:
            lo, hi = min(v), max(v)
            w = (hi - lo) or 1.
            how = rnd.random()
            if how < 0.3:
                p.append(rnd.choice(v))
            elif how < 0.8:
                p.append(lo + w*rnd.randint(0, 64)/64.)
            else:
                p.append(lo + w*rnd.randint(-64, 128)/64.)
        q.append(p)
    return dict(nodes=nodes, field=f, q=q, kind=kind, form=draw(st.sampled_from(FORMS)))


def fn(dim):
    from meshless import interpolate
    return interpolate.interpolate_lagrange_2D if dim == 2 else interpolate.interpolate_lagrange_3D


def basis(v, i, x, other=None):
    """i-th Lagrange polynomial of the nodes v at x (exact). other: the known
    finding takes the nodes of another direction"""
    p = Fraction(1)
    for j, vj in enumerate(v if other is None else other):
        if j != i and v[i] != vj:
            p *= (Fraction(x) - Fraction(vj))/(Fraction(v[i]) - Fraction(vj))
    return p


def exact(nodes, field, x, defect=False):
    """(value, sum of absolute values)"""
    tot, mag = Fraction(0), Fraction(0)
    B = []
    for d, v in enumerate(nodes):
        other = nodes[1] if defect and d == 2 else None
        B.append([basis(v, i, x[d], other) for i in range(len(v))])
    for k, idx in enumerate(product(*[range(len(v)) for v in nodes])):
        t = Fraction(field[k])
        for d, i in enumerate(idx):
            t *= B[d][i]
        tot += t
        mag += abs(t)
    return float(tot), float(mag)


def evaluate(dim, nodes, field, q, form):
    """Values of the code at the points q"""
    shape = [len(v) for v in nodes]
    F = np.array(field, dtype=float).reshape(shape)
    N = [list(v) for v in nodes]
    P = [[p[d] for p in q] for d in range(dim)]
    k = np.arange(len(q))
    copies = (k[:, None] + 2*k)[:, :] % len(q)
    if form in ('array', 'grid', 'square', 'many'):
        N = [np.array(v) for v in N]
        P = [np.array(v, dtype=float) for v in P]
        if form == 'grid':
            P = [v.reshape(1, -1) for v in P]
        elif form == 'square':
            P = [v[copies] for v in P]
        elif form == 'many':
            copies = np.tile(np.arange(len(q)), 1 + [257, 1025, 3100][len(q) % 3]//len(q))
            P = [v[copies] for v in P]
    elif form == 'int':
        if all(float(v).is_integer() for u in N for v in u):
            N = [np.array(v, dtype=int) for v in N]
        else:
            N = [tuple(v) for v in N]
        if all(float(v).is_integer() and abs(v) < 2**53 for v in F.ravel()):
            F = F.astype(int)
        P = [np.array(v, dtype=float) for v in P]
    elif form == 'list':
        P = [np.array(v, dtype=float) for v in P]
        F = F.tolist()
    if form == 'scalar':
        out = [np.asarray(call('interpolation', fn(dim), *([p[d] for d in range(dim)] + N + [F]))) for p in q]
        for o in out:
            ensure(o.size == 1, 'interpolation at one point has %d values', o.size)
        return np.array([float(o.ravel()[0]) for o in out])
    keep = [np.array(p) for p in P] + [np.array(v) for v in N] + [np.array(F)]
    out = np.asarray(call('interpolation', fn(dim), *(P + N + [F])), dtype=float)
    for a, b in zip(P + N + [F], keep):
        ensure(np.array_equal(np.asarray(a), b), 'interpolation modified its input')
    if max(shape) > 1:
        ensure(out.shape == P[0].shape or max_is_constant(shape, out, P), 'shape %s of the interpolation at %s points',
               out.shape, P[0].shape)
    out = np.broadcast_to(out, P[0].shape)
    if form in ('square', 'many'):
        # every copy of a point has the value of the point: the most different one
        first = out.ravel()[:1].repeat(len(q))
        for i in k:
            v = out[copies == i]
            first[i] = v[np.argmax(np.abs(v - v[0]))]
        return first
    return out.ravel()


def max_is_constant(shape, out, P):
    # known finding: with one node in x and y, and z taken from y, nothing
    # depends on the points (the value is judged as any other)
    return len(shape) == 3 and shape[0] == shape[1] == 1 and out.shape == ()


def judge(what, got, nodes, field, q, rec, tol=1e-10):
    """got has to be the exact interpolation or, in 3D, exactly the known finding"""
    E = [exact(nodes, field, p) for p in q]
    want, mag = np.array([e[0] for e in E]), np.array([e[1] for e in E])
    top = max(abs(v) for v in field)
    S = mag + 1e-3*top + 1e-300
    if len(nodes) == 3 and worst(got, want, S, tol)[0] > 1:
        D = [exact(nodes, field, p, defect=True) for p in q]
        wd, md = np.array([e[0] for e in D]), np.array([e[1] for e in D])
        Sd = md + 1e-3*top + 1e-300
        if worst(got, wd, Sd, tol)[0] <= 1:
            rec.known_finding(FINDING, what)
            return True
    close(what, got, want, S, tol, rec)
    return False


def check_oracle(c, rec):
    dim = len(c['nodes'])
    got = evaluate(dim, c['nodes'], c['field'], c['q'], c['form'])
    judge('interpolated value', got, c['nodes'], c['field'], c['q'], rec)
    rec.label('form:' + c['form'], 'field:' + c['kind'], 'nodes:' + 'x'.join(str(len(v)) for v in c['nodes']))
    rec.hit(max(len(v) for v in c['nodes']) > 1 and c['kind'] != 'constant')


def check_nodal(c, rec):
    """reproduces the nodal values"""
    dim = len(c['nodes'])
    q = [list(p) for p in product(*c['nodes'])]
    got = evaluate(dim, c['nodes'], c['field'], q, c['form'])
    want = np.array(c['field'])
    S = np.ones(len(q))*(np.abs(want).max() + 1e-300)
    if dim == 3 and worst(got, want, S, 1e-12)[0] > 1:
        judge('value at a node', got, c['nodes'], c['field'], q, rec, 1e-11)
    else:
        close('value at a node', got, want, S, 1e-12, rec)
    rec.hit(len(q) > 1 and c['kind'] != 'constant')


@st.composite
def poly(draw, dim):
    c = draw(case(dim))
    rnd = random.Random(draw(st.integers(0, 2**32-1)))
    c['coef'] = [rnd.randint(-5, 5) for _ in range(int(np.prod([len(v) for v in c['nodes']])))]
    return c


def check_poly(c, rec):
    """exact for polynomials of the order that the nodes allow"""
    dim = len(c['nodes'])
    nodes = c['nodes']
    deg = [len(v) for v in nodes]

    def p(x):
        t, m = Fraction(0), Fraction(0)
        for k, e in enumerate(product(*[range(d) for d in deg])):
            u = Fraction(c['coef'][k])
            for xi, ei in zip(x, e):
                u *= Fraction(xi)**ei
            t += u
            m += abs(u)
        return t, m
    field = [float(p(x)[0]) for x in product(*nodes)]
    # only if the nodal values are exact in double precision
    if any(Fraction(f) != p(x)[0] for f, x in zip(field, product(*nodes))):
        rec.label('inexact nodal values')
        return
    got = evaluate(dim, nodes, field, c['q'], c['form'])
    want = np.array([float(p(x)[0]) for x in c['q']])
    mag = np.array([float(exact(nodes, field, x)[1]) for x in c['q']])
    S = mag + 1e-3*max(abs(f) for f in field) + 1e-300
    if dim == 3 and worst(got, want, S, 1e-10)[0] > 1:
        judge('interpolated polynomial', got, nodes, field, c['q'], rec)
    else:
        close('interpolated polynomial', got, want, S, 1e-10, rec)
    rec.hit(max(deg) > 1 and len(set(field)) > 1)


def check_laws(c, rec):
    """linear in the nodal values, independent of the numbering of the nodes
    and of the other query points"""
    dim = len(c['nodes'])
    nodes, f = c['nodes'], np.array(c['field'])
    rnd = random.Random(len(c['q']))
    shape = [len(v) for v in nodes]
    g = np.array([rnd.randint(-9, 9) for _ in range(f.size)], dtype=float)
    q = c['q']
    F = evaluate(dim, nodes, f.tolist(), q, c['form'])
    G = evaluate(dim, nodes, g.tolist(), q, 'array')
    H = evaluate(dim, nodes, (2*f - 3*g).tolist(), q, 'array')
    skew = dim == 3 and nodes[1] != nodes[2]
    S = np.array([exact(nodes, (np.abs(f) + np.abs(g)).tolist(), p)[1] +
                  (exact(nodes, (np.abs(f) + np.abs(g)).tolist(), p, defect=True)[1] if skew else 0.) for p in q])
    S = S + np.abs(f).max() + np.abs(g).max() + 1e-300
    close('interpolation of a combination', H, 2*F - 3*G, S, 1e-10, rec)
    # nodes listed in another order, with their values
    if not skew:
        perms = [rnd.sample(range(k), k) for k in shape]
        if dim == 3:
            perms[2] = perms[1]
        n2 = [[v[i] for i in p] for v, p in zip(nodes, perms)]
        f2 = f.reshape(shape)[np.ix_(*perms)].ravel()
        close('interpolation with reordered nodes', evaluate(dim, n2, f2.tolist(), q, c['form']), F, S, 1e-10, rec)
    # one point at a time
    one = [evaluate(dim, nodes, f.tolist(), [p], 'array')[0] for p in q]
    close('interpolation of single points', one, F, S, 1e-12, rec)
    # exchanged directions
    n3 = [nodes[1], nodes[0]] + nodes[2:]
    if not skew and (dim == 2 or nodes[0] == nodes[2]):
        f3 = np.swapaxes(f.reshape(shape), 0, 1).ravel()
        q3 = [[p[1], p[0]] + p[2:] for p in q]
        close('interpolation with exchanged directions', evaluate(dim, n3, f3.tolist(), q3, c['form']), F, S, 1e-10, rec)
    rec.hit(max(shape) > 1)


@st.composite
def mismatch(draw, dim):
    c = draw(case(dim))
    c['axis'] = draw(st.integers(0, dim-1))
    c['how'] = draw(st.sampled_from(['more', 'fewer', 'ndim']))
    return c


def check_mismatch(c, rec):
    """values that do not fit to the nodes are rejected"""
    dim = len(c['nodes'])
    nodes = [list(v) for v in c['nodes']]
    shape = [len(v) for v in nodes]
    F = np.array(c['field'], dtype=float).reshape(shape)
    if c['how'] == 'ndim':
        F = F.ravel() if dim == 3 or c['axis'] else F[None]
    else:
        pad = np.zeros([1 if d == c['axis'] else k for d, k in enumerate(shape)])
        if c['how'] == 'more' or shape[c['axis']] == 1:
            F = np.concatenate([F, pad], axis=c['axis'])
        else:
            F = np.delete(F, 0, axis=c['axis'])
    P = [np.array([p[d] for p in c['q']]) for d in range(dim)]
    try:
        out = fn(dim)(*(P + nodes + [F]))
    except (AssertionError, ValueError, IndexError):
        rec.label('rejected')
    else:
        raise Violation('values of shape %s for %s nodes were accepted (%s)' % (F.shape, shape, np.shape(out)))
    rec.hit()
