"""mprint_as_array: the printed code assigns the flattened matrix"""
from lib import printed
from lib.core import Sub, ensure
from lib.gen import st

RULE = ('Random SymPy matrices printed in both orders, with and without common sub-expressions, with every operator; the '
        'printed lines are executed with 50 digits; non-trivial: two non-zero terms.')
ASSUMPTIONS = ['collected terms are sums of products (the printed form is not executable: the terms below each entry are added)']


@st.composite
def cases(draw):
    c = draw(printed.matrices(subs=False))
    c['order'] = draw(st.sampled_from(['C', 'F']))
    c['op'] = draw(st.sampled_from(['+=', '=', '-=', '*=']))
    c['cse'] = draw(st.booleans())
    if c['cse']:
        c['collect'] = None
        if draw(st.booleans()):     # many common sub-expressions
            k = draw(st.integers(2, 30))
            # names of the matrix which the sub-expressions would have had
            names = ['x1', 'x', 'y', 'xvar']
            c['rows'] = [[['^', ['+', ['s', names[i % 4]], ['n', str(i//4 + 1)]], 2 + j]
                          for j in range(2)] for i in range(k)]
    return c


def check(case, rec):
    from meshless.dev.sympytools import mprint_as_array
    m, want, env = printed.build(case)
    kw = printed.sympify_options(case)
    if not case['defaults']:
        kw.update(header=case['header'], print_file=case['file'], pow_by_mul=case['mul'], sufix=case['sufix'],
                  use_cse=case['cse'], order=case['order'], op=case['op'])
    elif case['cse']:
        kw['use_cse'] = True
    full = case['name'] if kw.get('sufix') is None else case['name'] + '_' + kw['sufix']
    out = printed.printing('mprint_as_array', mprint_as_array, case, m, kw, 'print_%s.txt' % full)
    if kw.get('header'):
        ensure(out.startswith(kw['header']), 'the header is not first')
    p = printed.Program(out, env, kw.get('header'), dict(pos=0), case['collect'])
    if kw.get('use_cse'):
        ensure(sorted(p.cdef) == sorted(p.assigned), 'declared: %s, assigned: %s', p.cdef[:20], p.assigned[:20])
        ensure(len(set(p.cdef)) == len(p.cdef), 'declared twice: %s', p.cdef[:20])
        ensure(not set(p.cdef) & set(str(s) for s in m.free_symbols),
               'a sub-expression has the name of a symbol')
        rec.label('sub-expressions:' + ('0' if not p.cdef else '1-9' if len(p.cdef) < 10 else '10+'))
    else:
        ensure(not p.cdef and not p.assigned, 'unexpected assignments %s', p.assigned[:5])
    r, c = m.shape
    op = kw.get('op', '+=')
    terms = {}
    last = -1
    for name, idx, o, v in p.terms:
        ensure(name == case['name'] and o == op and len(idx) == 1, 'line %s%s %s', name, idx, o)
        k = idx[0]
        ensure(0 <= k < r*c and k > last, 'index %d after %d', k, last)
        last = k
        terms[(k // c, k % c) if kw.get('order', 'C') == 'C' else (k % r, k // r)] = v
    printed.compare('mprint_as_array', terms, want, rec)
    printed.count('mprint_as_array', out, full, len(want))
    if kw.get('pow_by_mul', True) and not case['collect']:
        left = printed.powers_left('\n'.join(l for l in out.split('\n') if l.startswith(case['name'] + '[')))
        ensure(not left, 'power left: %s', left[:1])
    rec.label('order ' + kw.get('order', 'C'), 'cse' if kw.get('use_cse') else 'no cse')
    printed.label(case, rec, want, out)


SUBS = [Sub('array', cases, check, 4000, 40000)]
