"""Writer of Nastran bulk data decks, independent of pyNastran"""
import random


def _f8(x):
    """Real in an 8-character field, or None if it does not fit exactly"""
    for fmt in ('%.1f', '%.2f', '%.3f', '%.4f', '%.5f'):
        s = fmt % x
        if len(s) <= 8 and float(s) == x:
            return s
    return None


def _f16(x):
    s = repr(float(x))
    if 'e' in s:
        m, e = s.split('e')
        if '.' not in m:
            m += '.'
        s = m + 'E' + str(int(e))
    if len(s) <= 16:
        return s
    return '%.9E' % x


def small(name, fields):
    """Card in 8-character fields, continued every 8 fields"""
    out = '%-8s' % name
    k = 0
    for f in fields:
        if k and k % 8 == 0:
            out += '+\n+       '
        out += '%8s' % f
        k += 1
    return out


def large(name, fields):
    out = '%-8s' % (name + '*')
    for k, f in enumerate(fields):
        if k and k % 4 == 0:
            out += '*\n*       '
        out += '%16s' % f
    return out


def free(name, fields):
    out = name
    for k, f in enumerate(fields):
        if k and k % 8 == 0:
            out += ',+\n+'
        out += ',%s' % f
    return out


def grid(nid, cp, xyz, fmt, more=()):
    """more: further fields (displacement coordinate system, constraints)"""
    cp = '' if cp is None else str(cp) if cp else ''
    more = list(more)
    if fmt == 'small':
        c = [_f8(x) for x in xyz]
        if None not in c:
            return small('GRID', [str(nid), cp] + c + more)
        fmt = 'large'
    c = [_f16(x) for x in xyz]
    if fmt == 'free':
        return free('GRID', [str(nid), cp] + c + more)
    return large('GRID', [str(nid), cp] + c + more)


def tria(eid, pid, nids, fmt, more=()):
    """more: further fields (material angle, offset)"""
    f = [str(eid), str(pid)] + [str(i) for i in nids] + list(more)
    return {'small': small, 'large': large, 'free': free}[fmt]('CTRIA3', f)


def coord(cid, rid, a, b, c, kind='CORD2R'):
    if kind[4] == '1':     # by three nodes
        return free(kind, [str(cid)] + [str(i) for i in rid])
    vals = [_f16(v) for p in (a, b, c) for v in p]
    return free(kind, [str(cid), str(rid)] + vals)


HEADER = """SOL 101
CEND
  TITLE = generated
BEGIN BULK
"""
MAT = """PSHELL,%d,7,0.01,7,,7
"""


def write(pts, tris, src):
    """src: nids, eids, fmt, seed (order of the cards), optional pids,
    coords [(cid, rid, A, B, C, kind)], cps/local (per node: coordinate system
    and coordinates in it), extra (lines)"""
    rnd = random.Random(src.get('seed', 0))
    fmt = src.get('fmt', 'large')

    def pick():
        return fmt if fmt != 'mixed' else rnd.choice(['small', 'large', 'free'])
    pids = src.get('pids') or [1]
    cards = ['PSHELL,%d,7,0.01,7,,7' % p for p in sorted(set(pids))]
    cards.append('MAT1,7,7.1+10,,0.33')
    for c in src.get('coords') or []:
        cards.append(coord(*c))
    for k, (nid, p) in enumerate(zip(src['nids'], pts)):
        cp = src['cps'][k] if src.get('cps') else 0
        xyz = src['local'][k] if cp else p
        cards.append(grid(nid, cp, xyz, pick(), (src.get('gmore') or {}).get(str(nid), ())))
    for k, (eid, t) in enumerate(zip(src['eids'], tris)):
        cards.append(tria(eid, pids[k % len(pids)], [src['nids'][i] for i in t], pick(),
                          (src.get('emore') or {}).get(str(eid), ())))
    cards.extend(src.get('extra') or [])
    if src.get('shuffle'):
        rnd.shuffle(cards)
    if src.get('comments'):
        for _ in range(3):
            cards.insert(rnd.randrange(len(cards)+1), '$ GRID, 999, , 1., 2., 3.')
    if src.get('lower'):
        cards = [c.lower() for c in cards]
    if src.get('tabs'):
        cards = [c.replace(',', '\t') if '*' not in c and '\n' not in c and max(map(len, c.split(','))) < 8 else c for c in cards]
    if src.get('blank'):
        cards = [c + '\n' if rnd.random() < .1 else c for c in cards]
    return HEADER + '\n'.join(cards) + ('\n' if src.get('noend') else '\nENDDATA\n')


def roundtrip(x):
    return float(_f16(x))
