"""Results depend on the present state of the model only, not on the calls
made before"""
import random

import numpy as np

from lib import env, fresh, kit
from lib import mesh as M
from lib.core import Sub, as_matrix, call, close, ensure
from lib.gen import st

RULE = ('Histories of 3-9 operations on one or two models, and the same calculation before and after 1-5 changes (constitutive, shear and geometric stiffness, new laminates, '
        'laminates changed themselves, other kind of laminates, moved nodes, scaled plate); every result is compared with that of a new model '
        'in the same state, calculated in a process that did nothing before; non-trivial: a result follows an operation that changed the state.')
ASSUMPTIONS = ['after moving nodes, the constitutive stiffness is calculated before the others (it sets up the domains)']

OPS = ['k0', 'k0', 'k0', 'k0s', 'k0s', 'kG', 'props', 'props', 'tune', 'tune', 'flip', 'move', 'scale',
       'swap', 'one', 'balance', 'turn', 'other d']
MOVES = ['move', 'scale', 'one', 'balance', 'turn']
NUMBERS = ['h', 'scf_k13', 'scf_k23']
MATRICES = ['A', 'B', 'D', 'E']


@st.composite
def history(draw):
    k = draw(st.sampled_from([1, 2]))
    models = [draw(kit.model(max_cells=3)) for _ in range(k)]
    ops = []
    # mostly the same calculation again and again, so that leftovers matter
    often = draw(st.sampled_from(M.METHODS))
    method = st.sampled_from([often]*3 + M.METHODS)
    for _ in range(draw(st.integers(3, 25 if env.DEEP else 9))):
        op = draw(st.sampled_from(OPS))
        ops.append([op, draw(st.integers(0, k-1)), draw(method),
                    draw(st.sampled_from([0., 0.08, 0.3])), draw(st.booleans()), draw(st.integers(0, 10**6))])
    ops.append([draw(st.sampled_from(['k0', 'k0s', 'k0s', 'kG'])), draw(st.integers(0, k-1)), often,
                0.08, False, 1])
    return dict(models=models, ops=ops)


@st.composite
def again(draw):
    """a calculation, one change, the same calculation again..."""
    models = [draw(kit.model(max_cells=2, kinds=('grid', 'fan', 'pair')))]
    what = draw(st.sampled_from(['k0', 'kG', 'k0s', 'k0s', 'k0s', 'k0s']))
    calc = [what, 0, draw(st.sampled_from(M.METHODS)), draw(st.sampled_from([0., 0.08, 0.3])), draw(st.booleans())]
    seed = draw(st.integers(0, 10**6))
    ops = [calc + [seed]]
    for _ in range(draw(st.integers(1, 12 if env.DEEP else 5))):
        change = draw(st.sampled_from(['tune', 'tune', 'tune', 'props', 'move', 'scale', 'flip', 'swap', 'one', 'balance', 'turn']
                                      + ['other d', 'other d']*(what == 'kG')))
        ops += [[change, 0, '', 0., False, draw(st.integers(0, 10**6))], calc + [seed]]
    return dict(models=models, ops=ops)


class State(object):
    def __init__(self, case):
        self.case = dict(case, both=True)
        self.mod, self.lams = kit.setup(self.case, only_needed=False)
        self.pn = case['pn']
        self.node = list(case['props']['node'])
        self.tria = list(case['props']['tria'])
        self.xyz = [np.array(nd.xyz, dtype=float) for nd in self.mod.nodes]
        self.fresh_domains = False
        self.changed = False
        self.shuffle = None

    def data(self):
        """all there is to know about the present state"""
        return self.case['mesh'], self.lams, self.xyz, self.node, self.tria, self.pn


def warm():
    import meshless.espim.plate2d_add_k0s  # noqa
    import meshless.espim.plate2d_calc_k0  # noqa
    import meshless.espim.plate2d_calc_kG  # noqa
    import meshless.espim.read_mesh  # noqa


def anew(data, op, method, alpha, area, d):
    """A new model in the given state: constitutive stiffness, and what op asks for"""
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    mesh, lams, xyz, node, tria, pn = data
    m = M.make(mesh)
    n = m.n
    for nd, x, k in zip(m.nodes, xyz, node):
        nd.xyz = x.copy()
        nd.prop = lams[k]
    for t, k in zip(m.trias, tria):
        t.prop = lams[k]
    K0 = K = m.ordered(as_matrix('stiffness', call('calc_k0', calc_k0, m.mesh, pn), 5*n))
    if op == 'k0s':
        K = m.ordered(call('add_k0s', add_k0s, np.zeros((5*n, 5*n)), m.mesh, pn, method, alpha=alpha, maxl_from_area=area))
    elif op == 'kG':
        K = m.ordered(call('calc_kG', calc_kG, m.scatter(d), m.mesh, pn))
    return K0, K


def check(case, rec):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    fresh.start(warm)
    S = [State(c) for c in case['models']]
    kept = []
    for op, who, method, alpha, area, seed in case['ops']:
        s = S[who]
        rnd = random.Random(seed)
        n = s.mod.n
        rec.label('op:' + op)
        if op == 'props':
            for k in range(n):
                if rnd.random() < 0.5:
                    s.node[k] = rnd.randrange(len(s.lams))
                    s.mod.nodes[k].prop = s.lams[s.node[k]]
            for k in range(len(s.tria)):
                if rnd.random() < 0.5:
                    s.tria[k] = rnd.randrange(len(s.lams))
                    s.mod.trias[k].prop = s.lams[s.tria[k]]
            s.changed = True
            continue
        if op == 'swap':
            # the same laminates in other places
            for objs, index in ((s.mod.nodes, s.node), (s.mod.trias, s.tria)):
                i, j = rnd.randrange(len(index)), rnd.randrange(len(index))
                index[i], index[j] = index[j], index[i]
                for k in (i, j):
                    objs[k].prop = s.lams[index[k]]
            s.changed = True
            continue
        if op == 'other d':
            # the same displacements in other places
            s.shuffle = seed
            s.changed = True
            continue
        if op == 'tune':
            # a laminate in use is changed, in place or with new matrices
            lam = rnd.choice(s.lams)
            f = rnd.choice([2., 0.5, 1.5])
            for a in rnd.choice([NUMBERS[:1], NUMBERS[1:], MATRICES[:3], MATRICES[3:], MATRICES[:1], MATRICES, NUMBERS + MATRICES]):
                v = getattr(lam, a)
                if a in NUMBERS:
                    setattr(lam, a, v*(f if a == 'h' else 0.9))
                elif seed % 2 and isinstance(v, np.ndarray) and v.dtype == float and v.flags.writeable:
                    v *= f
                else:
                    setattr(lam, a, np.array(v)*f)
            s.changed = True
            continue
        if op == 'flip':
            s.pn = not s.pn
            s.changed = True
            continue
        if op in MOVES:
            f = rnd.choice([2., 0.5, 1.25])
            h = s.case['mesh']['size']*0.02
            i, j = rnd.randrange(n), rnd.randrange(n)
            shift = np.array([h*rnd.uniform(-1, 1), h*rnd.uniform(-1, 1), 0.])
            T = np.diag([1., 1., 1.])
            T[:2, :2] = rnd.choice([[[0, -1], [1, 0]], [[0, 1], [-1, 0]], [[0, 1], [1, 0]], [[1, 0], [0, -1]], [[.8, -.6], [.6, .8]]])
            for k in range(n):
                # replaced, or changed in place
                if op == 'scale':
                    new = s.xyz[k]*f
                elif op == 'turn':      # all lengths and areas remain
                    new = T.dot(s.xyz[k])
                elif op == 'one':
                    new = s.xyz[k] + shift*(k == i)
                elif op == 'balance':   # the centre of all nodes remains
                    new = s.xyz[k] + shift*(k == i) - shift*(k == j)
                else:
                    new = s.xyz[k] + [h*rnd.uniform(-1, 1), h*rnd.uniform(-1, 1), 0.]
                s.xyz[k] = np.array(new)
                if seed % 2 and isinstance(s.mod.nodes[k].xyz, np.ndarray) and s.mod.nodes[k].xyz.dtype == float:
                    s.mod.nodes[k].xyz[:] = new
                else:
                    s.mod.nodes[k].xyz = np.array(new)
            s.fresh_domains = False
            s.changed = True
            continue
        d = np.array([rnd.randint(-20, 20) for _ in range(5*n)], dtype=float)
        if s.shuffle is not None:
            random.Random(s.shuffle).shuffle(d)
        want0, want = fresh.run(anew, s.data(), op, method, alpha, area, d)
        if op == 'k0' or not s.fresh_domains:
            got = call('calc_k0', calc_k0, s.mod.mesh, s.pn)
            kept.append((got, np.array(got)))
            got = as_matrix('stiffness', got, 5*n)
            s.fresh_domains = True
            compare('constitutive stiffness', s.mod.ordered(got), want0, rec)
        if op == 'k0s':
            got = call('add_k0s', add_k0s, np.zeros((5*n, 5*n)), s.mod.mesh, s.pn, method, alpha=alpha, maxl_from_area=area)
            kept.append((got, np.array(got)))
            compare(method + ' shear stiffness', s.mod.ordered(as_matrix('k', got, 5*n)), want, rec)
        if op == 'kG':
            got = call('calc_kG', calc_kG, s.mod.scatter(d), s.mod.mesh, s.pn)
            kept.append((got, np.array(got)))
            compare('geometric stiffness', s.mod.ordered(as_matrix('k', got, 5*n)), want, rec)
        # the model itself was not altered
        for k in range(n):
            ensure(np.array_equal(s.mod.nodes[k].xyz, s.xyz[k]), '%s moved node %d', op, k)
            ensure(s.mod.nodes[k].prop is s.lams[s.node[k]], '%s changed the laminate of node %d', op, k)
        for k, t in enumerate(s.mod.trias):
            ensure(t.prop is s.lams[s.tria[k]], '%s changed the laminate of element %d', op, k)
        rec.hit(s.changed)
    for a, b in kept:
        ensure(np.array_equal(np.asarray(a), b), 'a result was modified by a later call')


def compare(what, got, want, rec):
    """same operations on the same numbers: entry-wise relative to the diagonals"""
    D = np.sqrt(np.abs(np.diag(want)))
    if what.startswith('geo'):
        S = np.full(want.shape, np.abs(want).max())
    else:
        S = np.outer(D, D)
    close('%s after a history of calls' % what, got, want, S + 1e-300, 1e-9, rec)


SUBS = [Sub('history', history, check, 400, 8000),
        Sub('again', again, check, 600, 10000)]
