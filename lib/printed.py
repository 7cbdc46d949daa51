"""Runs the code printed for a matrix, and the parts the three printing
properties share"""
import ast
import os
import random
import re
from fractions import Fraction

import mpmath

from lib import env, expr
from lib.core import Skip, Violation, call, ensure
from lib.gen import st

NEW = ['q1', 'q22', 'zeta', 'x1_', 'w', 'nxy']


@st.composite
def matrices(draw, shapes=None, subs=True, collect=True, square=False):
    rnd = random.Random(draw(st.integers(0, 2**32 - 1)))
    top = 9 if env.DEEP else 6
    r = draw(st.integers(1, top))
    c = r if square else draw(st.integers(1, top))
    dof = None
    if shapes == 'dof' and draw(st.booleans()):
        dof = draw(st.sampled_from([1, 2, 2, 3, 5]))
        if r < 2 and not square:
            r = 2*dof
    names = rnd.sample(expr.NAMES, rnd.randint(2, 6))
    fill = draw(st.sampled_from([.3, .6, 1.]))
    depth = draw(st.sampled_from([1, 2, 2, 3] + [4]*env.DEEP))
    if draw(st.integers(0, 11)) == 0:       # many rows and columns, few terms
        r = draw(st.integers(7, 60))
        c = r if square else draw(st.integers(1, 60))
        fill, depth = draw(st.sampled_from([8., 20.]))/(r*c), 1
    coll = None
    if collect and draw(st.integers(0, 4)) == 0:
        coll = rnd.sample(names, rnd.randint(1, min(2, len(names))))
    rows = []
    for i in range(r):
        row = []
        for j in range(c):
            if rnd.random() > fill:
                row.append(None)
            elif coll:
                row.append(polynomial(rnd, names))
            else:
                row.append(expr.tree(rnd, rnd.randint(0, depth), names))
        rows.append(row)
    if rnd.random() < .3 and r > 1 and rows[0][0]:      # equal sub-expressions
        rows[-1][-1] = ['+', rows[0][0], ['^', rows[0][0], 2]]
    sub = {}
    if subs and draw(st.booleans()):
        for k in rnd.sample(names, rnd.randint(1, len(names))):
            sub[k] = rnd.choice(NEW)
        if not coll and rnd.random() < .3:      # by numbers
            for k in rnd.sample(sorted(sub), rnd.randint(1, len(sub))):
                sub[k] = rnd.choice(['2', '3', '1/2', '7/3', '10', '1000003'])
        if rnd.random() < .3:      # of whole expressions
            a, b = rnd.sample(names, 2)
            sub[rnd.choice(['%s*%s', '%s + %s', '%s/%s', '%s - %s']) % (a, b)] = 'expr1'
            if rnd.random() < .5:
                sub['%s**2' % rnd.choice(names)] = 'expr2'
    return dict(rows=rows, names=names, subs=sub or None, dof=dof, collect=coll,
                name=draw(st.sampled_from(['K', 'k0', 'k0s_a', 'm', 'x_'])),
                sufix=draw(st.sampled_from([None, None, 'test', 'a1'])),
                header=draw(st.sampled_from([None, None, '# a header', '#\n# two lines', 'some text', '# blanks  ', '  # indented', '# line end\n', '\n# line'])),
                file=draw(st.sampled_from([True, True, False])), mul=draw(st.booleans()),
                kind=draw(st.sampled_from(['Matrix', 'Matrix', 'ImmutableMatrix'])),
                defaults=draw(st.integers(0, 3)) == 0, seed=draw(st.integers(0, 2**31)))


def polynomial(rnd, names):
    t = None
    for _ in range(rnd.randint(1, 4)):
        m = ['n', rnd.choice(['1', '2', '7', '1/2', '1/2', '-3', '1000003/7', '12345678901234567'])]
        for _ in range(rnd.randint(0, 3)):
            m = ['*', m, ['^', ['s', rnd.choice(names)], rnd.choice([1, 1, 2, 3])]]
        t = m if t is None else [rnd.choice('+-'), t, m]
    return t


def build(case):
    """SymPy matrix, and {(i, j): (value, scale)} of its non-zero terms"""
    import sympy as sp
    mpmath.mp.dps = expr.DPS
    env = expr.values(case['seed'])
    for k, v in zip(NEW, expr.values(case['seed'] + 1).values()):
        env[k] = v
    # the value of a name is the one of the name which replaces it
    sub = case['subs'] or {}
    for k, v in sub.items():
        if k in env:
            env[k] = Fraction(v) if v[0].isdigit() else env[v]
    for k, v in sub.items():
        if k not in env:
            env[v] = eval(k, {'__builtins__': {}}, env)
    want, M = {}, []
    for i, row in enumerate(case['rows']):
        M.append([])
        for j, t in enumerate(row):
            e = sp.Integer(0)
            if t is not None:
                try:
                    val = expr.evaluate(t, env)
                    e = expr.to_sympy(t)
                except (expr.Undefined, ZeroDivisionError):
                    raise Skip()
                if e.has(sp.nan, sp.zoo, sp.oo, sp.I):
                    raise Skip()
                if case['collect']:
                    e = sp.expand(e)
                if e.has(sp.Float):
                    # printed with 15 digits
                    if e.is_number and abs(e) < 1e-25:
                        raise Skip()
                    val = val[0], max(val[1], abs(val[0]))*mpmath.mpf('1e14')
                if e != 0:
                    want[i, j] = val
            M[-1].append(e)
    return getattr(sp, case['kind'])(M), want, env


def sympify_options(case):
    import sympy as sp
    out = {}
    if case['subs']:
        names = dict((k, sp.Symbol(k)) for k in expr.NAMES)
        out['subs'] = dict((eval(k, {'__builtins__': {}}, names), sp.Rational(v) if v[0].isdigit() else sp.Symbol(v))
                           for k, v in case['subs'].items())
    if case['collect']:
        out['collect_for'] = [sp.Symbol(k) for k in case['collect']]
        if case['subs']:
            out['collect_for'] = [sp.Symbol(case['subs'].get(k, k)) for k in case['collect']]
    return out


def printing(what, fn, case, m, kw, filename):
    """Call the printer: the file, the matrix, the result"""
    before = m.copy() if hasattr(m, 'copy') else m
    for f in os.listdir('.'):
        if f.startswith('print_'):
            os.remove(f)
    if case['seed'] % 3 == 0:
        with open(filename, 'w') as f:
            f.write('old text '*10000)
    listed = set(os.listdir('.'))
    out = call(what, fn, m, case['name'], **kw)
    ensure(isinstance(out, str), '%s returned a %s', what, type(out).__name__)
    ensure(m == before and type(m) is type(before), '%s changed the matrix given to it', what)
    new = set(os.listdir('.')) - listed
    if kw.get('print_file', True):
        ensure(os.path.isfile(filename), '%s did not write %s (new files: %s)', what, filename, sorted(new))
        ensure(not new - {filename}, '%s wrote %s', what, sorted(new))
        with open(filename) as f:
            ensure(f.read() == out, '%s: the file differs from the returned text', what)
    else:
        ensure(not new, '%s wrote %s with print_file=False', what, sorted(new))
    return out


class Program(object):
    """Interprets the printed lines. terms: [(array, index, operator, value)]"""
    def __init__(self, out, env, header, ints, collected=False):
        self.ns = expr.namespace(env)
        self.ints = dict(ints)
        self.terms = []
        self.cdef = []
        self.assigned = []
        self.comments = []
        lines = out.split('\n')
        if header:
            h = header.split('\n')
            at = [i for i in range(len(lines)) if lines[i:i+len(h)] == h]
            ensure(at, 'the header is missing')
            lines[at[0]:at[0]+len(h)] = []
        self.lines = lines
        current = None
        for line in lines:
            if collected and current is not None and line.startswith('    '):
                self.terms[current][3] += expr.run(line, self.ns)
                continue
            line = line.strip()
            if not line:
                continue
            if line.startswith('#'):
                self.comments.append(line)
                continue
            if line.startswith('cdef double '):
                self.cdef += [v.strip() for v in line[len('cdef double '):].split(',')]
                continue
            m = re.match(r'^(\w+)\s*\[(.*?)\]\s*(=|\+=|-=|\*=)\s*(.*)$', line)
            if m:
                name, index, op, val = m.groups()
                idx = self.integer('(%s,)' % index)
                if not val:
                    ensure(collected, 'no value in %r', line)
                    self.terms.append([name, idx, op, mpmath.mpf(0)])
                    current = len(self.terms) - 1
                elif self.integers(name):
                    self.terms.append([name, idx, op, self.integer(val)])
                else:
                    self.terms.append([name, idx, op, expr.run(val, self.ns)])
                continue
            m = re.match(r'^(\w+)\s*(=|\+=)\s*(.+)$', line)
            ensure(m is not None, 'line %r', line)
            name, op, val = m.groups()
            if op == '+=':
                self.ints[name] = self.ints.get(name, 0) + self.integer(val)
            else:
                self.assigned.append(name)
                self.ns[name] = expr.run(val, self.ns)

    def integers(self, name):
        return False

    def integer(self, text):
        try:
            return eval(text, {'__builtins__': {}}, self.ints)
        except Exception as exc:
            raise Violation('index %r: %s' % (text, exc))


def subs_header(out, case, comment):
    """(text without the table of substitutions). Every substituted name which
    is used has to be in the table"""
    import sympy as sp
    names = dict((k, sp.Symbol(k)) for k in expr.NAMES)
    sub = dict((str(eval(k, {'__builtins__': {}}, names)), v) for k, v in (case['subs'] or {}).items())
    lines = out.split('\n')
    h = case['header'].split('\n') if case['header'] else None
    start = next(i for i, l in enumerate(lines) if l.startswith('# %s' % case['name']) or (h and lines[i:i+len(h)] == h))
    head, rest = lines[:start], lines[start:]
    pairs = []
    for l in head:
        l = l.strip()
        if comment and l:
            ensure(l.startswith('#'), 'line %r above the matrix', l)
        m = re.match(r'^#?\s*(\S+) = (\S.*)$', l)
        if m:
            pairs.append((m.group(2), m.group(1)))
        else:
            ensure(not l or l.startswith('#') and l.strip('# ') in ('', 'subs'), 'line %r above the matrix', l)
    for k, v in pairs:
        ensure(sub.get(k) == v, 'substitution %s = %s is listed, which was not asked for', v, k)
    body = '\n'.join(l for l in rest if not l.startswith('#'))
    for k, v in sub.items():
        if not v[0].isdigit() and re.search(r'(?<!\w)%s(?!\w)' % v, body):
            ensure((k, v) in pairs, 'substitution %s = %s is used but not listed', v, k)
        if v != k and k in names and k not in sub.values() and k not in (case['name'],):
            ensure(not re.search(r'(?<![\w.])%s(?![\w\[])' % k, body), '%s was not replaced by %s', k, v)
    return '\n'.join(rest)


def powers_left(out):
    """integer powers of names left by pow_by_mul"""
    body = '\n'.join(l for l in out.split('\n') if not l.startswith('#'))
    return re.findall(r'(?<![\w.)\]])[A-Za-z_]\w*\*\*\d+(?![\w.])', body)


def compare(what, terms, want, rec):
    """terms {(i, j): value}"""
    ensure(set(terms) == set(want), '%s: terms %s are printed, %s are not zero', what,
           sorted(set(terms) - set(want)), sorted(set(want) - set(terms)))
    for ij, (v, s) in want.items():
        expr.same('%s: term %s' % (what, ij), terms[ij], v, max(s, abs(v), mpmath.mpf('1e-6')), rec)


def count(what, out, name, n):
    m = re.findall(r'^# %s_num=(\d+)$' % re.escape(name), out, re.M)
    ensure(m == [str(n)], '%s: number of terms %s, expected %d', what, m, n)
    ensure(re.search(r'^# %s$' % re.escape(name), out, re.M), '%s: no title', what)


def label(case, rec, want, out):
    rec.label('collected' if case['collect'] else 'plain', 'subs' if case['subs'] else 'no subs',
              'dof' if case['dof'] else 'no dof', 'powers as products' if case['mul'] else 'powers')
    rec.hit(len(want) > 1)
