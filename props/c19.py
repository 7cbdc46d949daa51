"""mprint_as_dense: the printed code assigns the matrix"""
from lib import printed
from lib.core import Sub, ensure
from lib.gen import st

RULE = ('Random SymPy matrices (1x1 to 10x6, zeros, powers, functions, names contained in other names) printed with every '
        'option; the printed lines are executed with 50 digits; non-trivial: two non-zero terms.')
ASSUMPTIONS = ['substitutions replace names by names or numbers, or whole expressions by names', 'collected terms are sums of products (the printed form is not executable: '
               'the terms below each entry are added)']


def options(case):
    kw = printed.sympify_options(case)
    if not case['defaults']:
        kw.update(header=case['header'], print_file=case['file'], pow_by_mul=case['mul'])
    if case['dof']:
        kw['dofpernode'] = case['dof']
    return kw


def check(case, rec):
    from meshless.dev.sympytools import mprint_as_dense
    m, want, env = printed.build(case)
    kw = options(case)
    out = printed.printing('mprint_as_dense', mprint_as_dense, case, m, kw, 'print_%s.txt' % case['name'])
    rest = printed.subs_header(out, dict(case, header=kw.get('header')), comment=True)
    ints = dict(dof=case['dof'])
    ints.update(('i%d' % (k+1), k) for k in range(60))
    p = printed.Program(rest, env, kw.get('header'), ints if case['dof'] else {}, case['collect'])
    terms = {}
    for name, idx, op, v in p.terms:
        ensure(name == case['name'] and op == '+=', 'line %s%s %s', name, idx, op)
        ensure(idx not in terms, 'term %s printed twice', idx)
        terms[idx] = v
    printed.compare('mprint_as_dense', terms, want, rec)
    ensure(list(terms) == sorted(terms), 'terms are not in the order of the rows')
    printed.count('mprint_as_dense', out, case['name'], len(want))
    if kw.get('pow_by_mul', True) and not case['collect']:
        left = printed.powers_left(rest)
        ensure(not left, 'power left: %s', left[:1])
    if case['dof']:
        for l in rest.split('\n'):
            if l.startswith(case['name'] + '['):
                a, b = l.split('[')[1].split(']')[0].split(',')
                for q in (a, b):
                    ensure('dof' in q and int(q.split('+')[1]) < case['dof'], 'index %r', q)
    printed.label(case, rec, want, out)


SUBS = [Sub('dense', lambda: printed.matrices(shapes='dof'), check, 4000, 40000)]
