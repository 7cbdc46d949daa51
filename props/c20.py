"""mprint_as_sparse: the printed triplets are the matrix"""
import numpy as np

from lib import printed
from lib.core import Sub, ensure
from lib.gen import st

RULE = ('Random SymPy matrices printed with every option, general and symmetric (upper triangle); the printed lines are '
        'executed with 50 digits; non-trivial: two non-zero terms.')
ASSUMPTIONS = ['substitutions replace names by names or numbers, or whole expressions by names', 'collected terms are sums of products (the printed form is not executable: '
               'the terms below each entry are added)', 'symmetric output is asked for only for square matrices']


@st.composite
def cases(draw):
    sym = draw(st.booleans())
    c = draw(printed.matrices(shapes='dof', square=sym))
    if sym:
        if c['dof'] and c['dof'] > 1 and len(c['rows']) < c['dof']:
            c['dof'] = 2
        if draw(st.booleans()):
            for i in range(len(c['rows'])):
                for j in range(i):
                    c['rows'][i][j] = c['rows'][j][i]
    c['sym'] = sym
    c['flag'] = draw(st.sampled_from([None, None, 1, 'numpy'])) if sym else None
    return c


class Triplets(printed.Program):
    def integers(self, name):
        return name in (self.case_name + 'r', self.case_name + 'c')


def check(case, rec):
    from meshless.dev.sympytools import mprint_as_sparse
    m, want, env = printed.build(case)
    kw = printed.sympify_options(case)
    if not case['defaults']:
        kw.update(header=case['header'], print_file=case['file'], pow_by_mul=case['mul'], sufix=case['sufix'],
                  is_symmetric=case['sym'])
    elif case['sym']:
        kw['is_symmetric'] = True
    if case['dof']:
        kw['dofpernode'] = case['dof']
    if kw.get('is_symmetric') and case.get('flag'):
        kw['is_symmetric'] = np.bool_(True) if case['flag'] == 'numpy' else case['flag']
    full = case['name'] if kw.get('sufix') is None else case['name'] + '_' + kw['sufix']
    out = printed.printing('mprint_as_sparse', mprint_as_sparse, case, m, kw, 'print_%s.txt' % full)
    rest = printed.subs_header(out, dict(case, header=kw.get('header')), comment=False)
    ints = dict(c=-1, row=1000, col=5000)
    row, col = 1000, 5000
    if case['dof']:
        ints = dict(c=-1, dof=case['dof'])
        ints.update(('i%d' % (k+1), k) for k in range(60))
        row = col = 0
    Triplets.case_name = case['name']
    p = Triplets(rest, env, kw.get('header'), ints, case['collect'])
    arr = {}
    for name, idx, op, v in p.terms:
        ensure(len(idx) == 1 and (name, idx[0]) not in arr, '%s[%s] printed twice', name, idx)
        ensure(op == ('+=' if name == case['name'] + 'v' else '='), 'operator of %s: %s', name, op)
        arr[name, idx[0]] = v
    if case['sym']:
        want = dict((k, v) for k, v in want.items() if k[0] <= k[1])
    n = len(want)
    N = case['name']
    ensure(set(arr) == set((N + q, k) for q in 'rcv' for k in range(n)), 'the triplets are not 0..%d: %s', n - 1, sorted(arr)[:6])
    terms = {}
    for k in range(n):
        ij = arr[N + 'r', k] - row, arr[N + 'c', k] - col
        ensure(ij not in terms, 'term %s printed twice', ij)
        terms[ij] = arr[N + 'v', k]
    printed.compare('mprint_as_sparse', terms, want, rec)
    printed.count('mprint_as_sparse', out, full, n)
    if kw.get('pow_by_mul', True) and not case['collect']:
        left = printed.powers_left(rest)
        ensure(not left, 'power left: %s', left[:1])
    rec.label('symmetric' if case['sym'] else 'general')
    printed.label(case, rec, want, out)


SUBS = [Sub('sparse', cases, check, 4000, 40000)]
