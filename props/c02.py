"""Import of a Nastran deck"""
import contextlib
import io
import math
import os
import random

import numpy as np

from lib import deck, gen, kit
from lib import mesh as M
from lib.core import Sub, as_matrix, call, close, ensure, rejects
from lib.gen import st
from props.c01 import topology

RULE = ('Decks written by an independent writer: small, large, free or mixed fields, dense/gapped/descending/large ids, '
        'cards in any order, comments, extra cards, several properties, local rectangular/cylindrical coordinate '
        'systems (also chained); non-trivial: an edge shared by two triangles or a rejected element type.')
ASSUMPTIONS = ['pyNastran 1.4.1 parses the cards', 'coordinates in local systems are transformed here in double precision']

EXTRA = ['SPC1,1,123456,%d', 'FORCE,1,%d,,1.0,0.,0.,1.', 'PARAM,POST,-1', 'EIGRL,1,0.00001,,5', 'MAT1,99,1.0,,0.3',
         'GRDSET,,,,,,,6', 'PLOTEL,900,%d,%d']


@st.composite
def decks(draw):
    m = draw(gen.plate(big=True, attached_only=draw(st.booleans())))
    n, t = len(m['pts']), len(m['tris'])
    src = draw(kit.source(n, t, deck=True).filter(lambda s: s['kind'] == 'deck'))
    rnd = random.Random(draw(st.integers(0, 2**32-1)))
    src['fmt'] = draw(st.sampled_from(['small', 'large', 'free', 'mixed']))
    if (src['fmt'] == 'small' or draw(st.booleans())) and not m['needles']:
        # few digits, so that short fields hold them
        m['pts'] = [[round(c/m['size'], 2) for c in p] for p in m['pts']]
    m['pts'] = [[deck.roundtrip(c) for c in p] for p in m['pts']]
    src['comments'] = draw(st.booleans())
    src['pids'] = draw(st.sampled_from([[1], [1, 2], [5, 3, 8]]))
    extra = []
    for e in EXTRA:
        if rnd.random() < 0.3:
            extra.append(e % tuple(rnd.sample(src['nids'], e.count('%d'))))
    src['extra'] = extra
    optional(rnd, src)
    m['src'] = src
    return m


def optional(rnd, src):
    """Fields and forms which do not change the mesh"""
    if rnd.random() < 0.3:      # displacement system, constraints
        cds = [''] if not src.get('coords') else [''] + [str(c[0]) for c in src['coords']]
        src['gmore'] = dict((str(i), rnd.choice([['', '123456'], [rnd.choice(cds), '3'], ['0', ''], [rnd.choice(cds)]]))
                            for i in src['nids'] if rnd.random() < 0.5)
    if rnd.random() < 0.3:      # material angle, offset
        src['emore'] = dict((str(i), rnd.choice([['30.'], ['', '0.25'], ['-12.5', '-1.0']]))
                            for i in src['eids'] if rnd.random() < 0.5)
    src['lower'] = rnd.random() < 0.15
    src['tabs'] = rnd.random() < 0.15
    src['blank'] = rnd.random() < 0.15
    src['crlf'] = rnd.random() < 0.1
    src['noend'] = rnd.random() < 0.1
    src['include'] = rnd.random() < 0.15
    src['name'] = rnd.choice(['model.dat']*4 + ['model.bdf', 'a model.nas'])


def local(draw_rnd, m, kinds):
    """Expresses nodes in local coordinate systems; m['pts'] becomes what those
    mean in the basic system"""
    rnd = draw_rnd
    coords, frames = [], {0: (np.zeros(3), np.eye(3), 'R')}
    ncs = rnd.randint(1, 3)
    cids = rnd.sample(range(1, 50), ncs)
    for k, cid in enumerate(cids):
        rid = rnd.choice([0] + cids[:k])
        kind = rnd.choice(kinds) if rid == 0 else 'CORD2R'
        if frames[rid][2] != 'R':
            rid = 0
        o = np.array([rnd.randint(-40, 40)/8., rnd.randint(-40, 40)/8., 0.])
        ang = math.radians(rnd.choice([0, 30, 90, 137, 180, 271]))
        zdir = np.array([0., 0., 1.])
        xdir = np.array([math.cos(ang), math.sin(ang), 0.])
        if rnd.random() < 0.3:  # tilted
            a, b = rnd.uniform(-3, 3), rnd.uniform(-3, 3)
            R = np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]]).dot(
                [[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
            zdir, xdir = R.dot(zdir), R.dot(xdir)
            o[2] = rnd.randint(-16, 16)/8.
        q = [[deck.roundtrip(v) for v in p] for p in (o, o + zdir, o + 2*xdir)]
        coords.append([cid, rid, q[0], q[1], q[2], kind])
        ro, rT, _ = frames[rid]
        A, B, C = [np.array(p).dot(rT) + ro for p in q]
        z = (B - A)/np.linalg.norm(B - A)
        x = (C - A) - (C - A).dot(z)*z
        x /= np.linalg.norm(x)
        frames[cid] = (A, np.array([x, np.cross(z, x), z]), kind[-1])
    # a system defined by three of the nodes
    three = [t for t in m['tris'] if gen.tri_quality(*[m['pts'][i] for i in t]) > 0.1]
    three = list(rnd.choice(three)) if three and rnd.random() < 0.4 else []
    rnd.shuffle(three)
    one = rnd.choice([c for c in range(1, 60) if c not in cids])
    n = len(m['pts'])
    cps, loc, pts = [0]*n, [None]*n, [None]*n
    for i in three + [i for i in range(n) if i not in three]:
        p = m['pts'][i]
        if three and None not in [pts[j] for j in three] and one not in frames:
            A, B, C = [np.array(pts[j]) for j in three]
            z = (B - A)/np.linalg.norm(B - A)
            x = (C - A) - (C - A).dot(z)*z
            x /= np.linalg.norm(x)
            kind = rnd.choice(['CORD1R', 'CORD1R', 'CORD1C', 'CORD1S'])
            frames[one] = (A, np.array([x, np.cross(z, x), z]), kind[-1])
            coords.append([one, [m['src']['nids'][j] for j in three], None, None, None, kind])
        cid = rnd.choice([c for c in frames if i not in three or frames[c][2] == 'R'])
        o, T, kind = frames[cid]
        lp = (np.array(p) - o).dot(T.T)
        if kind == 'C':
            lp = np.array([math.hypot(lp[0], lp[1]), math.degrees(math.atan2(lp[1], lp[0])), lp[2]])
        if kind == 'S':
            r = float(np.linalg.norm(lp))
            lp = np.array([r, math.degrees(math.acos(lp[2]/r)) if r else 0., math.degrees(math.atan2(lp[1], lp[0]))])
        lp = [deck.roundtrip(v) for v in lp]
        q = np.array(lp)
        if kind == 'S':
            a, b = math.radians(q[1]), math.radians(q[2])
            q = q[0]*np.array([math.sin(a)*math.cos(b), math.sin(a)*math.sin(b), math.cos(a)])
        if kind == 'C':
            a = math.radians(q[1])
            q = np.array([q[0]*math.cos(a), q[0]*math.sin(a), q[2]])
        cps[i] = cid
        loc[i] = lp
        pts[i] = (q.dot(T) + o).tolist()
    m['src']['coords'], m['src']['cps'], m['src']['local'] = coords, cps, loc
    m['pts'] = pts


@st.composite
def local_decks(draw):
    m = draw(decks().filter(lambda m: not m['needles']))
    m['pts'] = [[c/m['size'] if m['size'] < 0.1 or m['size'] > 10 else c for c in p] for p in m['pts']]
    local(random.Random(draw(st.integers(0, 2**32-1))), m, ['CORD2R', 'CORD2R', 'CORD2C', 'CORD2S'])
    m['src']['fmt'] = draw(st.sampled_from(['large', 'free']))
    optional(random.Random(draw(st.integers(0, 2**32-1))), m['src'])
    return m


def load(case, silent=True, name='model.dat'):
    from meshless.espim.read_mesh import read_mesh
    src = case['src']
    path = os.path.join(os.getcwd(), src.get('name') or name)
    text = deck.write(case['pts'], case['tris'], src)
    if src.get('include'):
        # half of the cards in a second file
        cards = text[len(deck.HEADER):].split('\n')
        k = max([i for i in range(len(cards)//2) if cards[i] and cards[i][0].isalpha()] or [0])
        with open(os.path.join(os.getcwd(), 'second.dat'), 'w', newline='') as f:
            f.write('\n'.join(cards[:k]) + '\n')
        text = deck.HEADER + "INCLUDE 'second.dat'\n" + '\n'.join(cards[k:])
    if src.get('crlf'):
        text = text.replace('\n', '\r\n')
    with open(path, 'w', newline='') as f:
        f.write(text)
    kw = {} if silent else {'silent': False}
    with contextlib.redirect_stdout(io.StringIO()):
        mesh = call('read_mesh', read_mesh, path, **kw)
    with open(path, newline='') as f:
        ensure(f.read() == text, 'the deck was modified')
    return mesh


def check_same(case, rec):
    """The deck and the equivalent point cloud give the same mesh"""
    mesh = load(case, silent=case['src']['seed'] % 2 == 0)
    src = case['src']
    ensure(sorted(mesh.nodes) == sorted(src['nids']), 'node ids %s, not %s', sorted(mesh.nodes), sorted(src['nids']))
    ensure(sorted(mesh.elements) == sorted(src['eids']), 'element ids')
    mod = M.Model(mesh, src['nids'], src['eids'])
    for nid, nd in mesh.nodes.items():
        ensure(nd.nid == nid, 'node %d is filed under %d', nd.nid, nid)
    for eid, t in mesh.elements.items():
        ensure(t.eid == eid, 'element %d is filed under %d', t.eid, eid)
    want = [list(p) for p in case['pts']]
    if src.get('coords'):
        # transformed coordinates: up to round-off, then as the code has them
        big = max(10., np.abs(np.array(want)).max())
        for k, nd in enumerate(mod.nodes):
            close('position of node %d (coordinate system %d)' % (src['nids'][k], src['cps'][k]),
                  np.asarray(nd.xyz, dtype=float), np.array(want[k]), np.ones(3), 1e-9*big, rec)
        want = [list(map(float, nd.xyz)) for nd in mod.nodes]
        rec.label('systems:%d' % len(src['coords']), *sorted(set(c[5] for c in src['coords'])))
    e = topology(mesh, mod.nodes, mod.trias, want, case['tris'], 'read_mesh')
    rec.label('fmt:' + src['fmt'], 'ids:' + src['ids'], 'mesh:' + case['kind'])
    rec.hit(any(len(v) == 2 for v in e.values()))


@st.composite
def stiff(draw):
    m = draw(st.one_of(decks(), local_decks()))
    return dict(mesh=m, props=draw(gen.properties(m)), pn=draw(st.booleans()),
                method=draw(st.sampled_from(M.METHODS[:2])), alpha=draw(st.sampled_from([0., 0.2])))


def check_stiff(case, rec):
    """... and the same matrices, whatever the ids are"""
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_add_k0s import add_k0s
    m = case['mesh']
    pn = case['pn']
    mods = [M.Model(load(m), m['src']['nids'], m['src']['eids']),
            M.make(dict(m, src=dict(kind='cloud')))]
    Ks = []
    lams = None
    for mod in mods:
        lams = mod.assign(case['props'], lams=lams)
        K = as_matrix('stiffness', call('calc_k0', calc_k0, mod.mesh, pn), 5*mod.n)
        Z = np.zeros_like(K)
        Z = as_matrix('shear', call('add_k0s', add_k0s, Z, mod.mesh, pn, case['method'], alpha=case['alpha']), 5*mod.n)
        Ks.append((mod.ordered(K), mod.ordered(Z)))
    tol = 1e-7 if m['src'].get('coords') else 1e-9
    for what, A, B in (('stiffness', Ks[0][0], Ks[1][0]), ('shear stiffness', Ks[0][1], Ks[1][1])):
        S = np.sqrt(np.outer(np.abs(np.diag(B)), np.abs(np.diag(B))))
        D = np.tile([1., 1., 1., m['size'], m['size']], len(m['pts']))
        S = np.maximum(S, 1e-6*np.abs(B).max()*0 + 0)
        S = S + np.outer(D, D)*np.abs(np.diag(B)/D**2).max()*1e-3
        close('%s of the deck' % what, A, B, S, tol, rec)
    rec.hit(len(m['tris']) > 1)


OTHER = {
    'CQUAD4': ('CQUAD4,%d,1,%d,%d,%d,%d', 4), 'CTRIA6': ('CTRIA6,%d,1,%d,%d,%d,,,', 3),
    'CBAR': ('PBARL,77,7,,ROD\n+,0.1\nCBAR,%d,77,%d,%d,0.,0.,1.', 2), 'CROD': ('PROD,77,7,0.1\nCROD,%d,77,%d,%d', 2),
    'CQUAD8': ('CQUAD8,%d,1,%d,%d,%d,%d,,,', 4), 'CTRIAR': ('CTRIAR,%d,1,%d,%d,%d', 3),
    'CTETRA': ('PSOLID,77,7\nCTETRA,%d,77,%d,%d,%d,%d', 4),
    'CBEAM': ('PBEAML,77,7,,ROD\n+,0.1\nCBEAM,%d,77,%d,%d,0.,0.,1.', 2), 'CONROD': ('CONROD,%d,%d,%d,7,0.1', 2),
    'CBUSH': ('PBUSH,77,K,1.+3\nCBUSH,%d,77,%d,%d,,,,0', 2), 'CTUBE': ('PTUBE,77,7,1.0,0.1\nCTUBE,%d,77,%d,%d', 2),
    'CQUADR': ('CQUADR,%d,1,%d,%d,%d,%d', 4), 'CDAMP2': ('CDAMP2,%d,1.0,%d,1,%d,1', 2),
    'CELAS2': ('CELAS2,%d,1.0,%d,1,%d,1', 2), 'CSHEAR': ('PSHEAR,77,7,0.1\nCSHEAR,%d,77,%d,%d,%d,%d', 4),
}


@st.composite
def unsupported(draw):
    m = draw(gen.plate(kinds=('grid',), connected=True))
    if not m['needles']:
        m['pts'] = [[round(c/m['size'], 3) for c in p] for p in m['pts']]
    src = draw(kit.source(len(m['pts']), len(m['tris'])).filter(lambda s: s['kind'] == 'deck'))
    kind = draw(st.sampled_from(sorted(OTHER)))
    text, k = OTHER[kind]
    rnd = random.Random(draw(st.integers(0, 2**32-1)))
    eid = draw(st.sampled_from([max(src['eids'])+1, max(src['eids'])+500]))
    lo = [e for e in (rnd.randint(1, max(src['eids'])) for _ in range(9)) if e not in src['eids']]
    if lo and draw(st.booleans()):
        eid = rnd.choice(lo)
    src['extra'] = [text % tuple([eid] + rnd.sample(src['nids'], k))]
    src['shuffle'] = False
    m['src'] = src
    m['other'] = kind
    return m


def check_unsupported(case, rec):
    from meshless.espim.read_mesh import read_mesh
    path = os.path.join(os.getcwd(), 'model.dat')
    with open(path, 'w') as f:
        f.write(deck.write(case['pts'], case['tris'], case['src']))
    rejects('read_mesh of a deck with a %s' % case['other'], (NotImplementedError,), read_mesh, path)
    src = dict(case['src'], extra=[])
    with open(path, 'w') as f:
        f.write(deck.write(case['pts'], case['tris'], src))
    call('read_mesh without it', read_mesh, path)
    rec.label('element:' + case['other'])
    rec.hit()


SUBS = [Sub('same mesh', decks, check_same, 250, 6000),
        Sub('local systems', local_decks, check_same, 250, 6000),
        Sub('same matrices', stiff, check_stiff, 150, 3000),
        Sub('unsupported', unsupported, check_unsupported, 80, 800)]
