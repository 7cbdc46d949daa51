"""Expression trees (JSON) with an exact-enough evaluator, rendered as text or
as SymPy expressions; evaluation of printed code"""
import ast
import random
from fractions import Fraction

import mpmath

from lib.core import Violation
from lib.gen import st

DPS = 50
NAMES = ['x', 'y', 'x1', 'xx', 'a_b', 'nx1', 'xvar', 'E44', 'pow1', 'mypow', 'Nxx', 'le']
ODD = ['1234567890123456789', '1000000000000007', '1/1000003', '22/7', '1/10000000000000000', '987654321/123456789', '100000', '-7', '1000001/2',
       '0.25', '1e-20', '1e-05', '3e15', '0.5', '1024.125']
FUNCS = ['sin', 'cos', 'exp', 'sqrt']


def mp(v):
    return mpmath.mpf(v)


def values(seed):
    """value of each name: 0.5..2"""
    rnd = random.Random(seed)
    return dict((k, Fraction(rnd.randint(300, 1200), 600)) for k in NAMES)


# trees: ['s', name] ['n', 'int or p/q'] ['+'|'-'|'*'|'/', a, b] ['neg', a]
#        ['^', a, n (int) or 'p/q' or name] ['f', name, a]
@st.composite
def trees(draw, depth=3, names=NAMES, funcs=True, text=False, leaf=True):
    rnd = random.Random(draw(st.integers(0, 2**32 - 1)))
    return tree(rnd, draw(st.integers(1, depth)), names, funcs)


def tree(rnd, depth, names=NAMES, funcs=True):
    r = rnd.random()
    if depth == 0 or r < .08:
        if rnd.random() < .8:
            return ['s', rnd.choice(names)]
        return ['n', rnd.choice(['1', '2', '3', '12', '10'] if rnd.random() < .7 else ODD)]
    sub = lambda: tree(rnd, depth - 1, names, funcs)
    if r < .28:
        return [rnd.choice('++-'), sub(), sub()]
    if r < .5:
        return [rnd.choice('**/'), sub(), sub()]
    if r < .9 or not funcs:
        p = rnd.random()
        n = (rnd.choice([2, 2, 2, 3, 4, 5, 1, 0]) if p < .72 else rnd.choice([10, 12]) if p < .78 else
             rnd.choice([-1, -2, -3]) if p < .87 else rnd.choice(['1/2', '3/2', '5/2', '1/3', '-1/2'])
             if p < .95 else rnd.choice(names))
        base = sub() if rnd.random() < .45 else ['s', rnd.choice(names)]
        return ['^', base, n]
    if r < .94:
        return ['neg', sub()]
    return ['f', rnd.choice(FUNCS), sub()]


def floats(t):
    """whether there are floating point numbers in the tree"""
    return t is not None and (t[0] == 'n' and ('.' in t[1] or 'e' in t[1]) or any(floats(a) for a in t if isinstance(a, list)))


class Undefined(Exception):
    """no finite real value (or a wildly large one)"""


def evaluate(t, env):
    """(value, sum of the absolute values of the terms it was made of)"""
    k = t[0]
    if k == 's':
        v = env[t[1]]
        v = mp(v.numerator)/v.denominator
        return v, abs(v)
    if k == 'n':
        q = Fraction(t[1])
        v = mp(q.numerator)/q.denominator
        return v, abs(v)
    if k == '^':
        a, s = evaluate(t[1], env)
        if isinstance(t[2], int):
            n = mp(t[2])
        elif t[2] in env:
            n = mp(env[t[2]].numerator)/env[t[2]].denominator
        else:
            q = Fraction(t[2])
            n = mp(q.numerator)/q.denominator
        if (n < 0 or n != int(n)) and abs(a) < mp('1e-3')*s:
            raise Undefined()
        if n != int(n) and a <= 0:
            raise Undefined()
        if abs(n) > 40 or (abs(a) > 1e9 and n > 3):
            raise Undefined()
        v = a**int(n) if n == int(n) else a**n
        return check(v), check(max(abs(v), s**n if n >= 0 else abs(v)*max(s/abs(a), 1)))
    if k == 'neg':
        a, s = evaluate(t[1], env)
        return -a, s
    if k == 'f':
        a, s = evaluate(t[2], env)
        if abs(a) > 50 or s > 1e4 or (t[1] == 'sqrt' and a <= mp('1e-3')*s):
            raise Undefined()
        v = getattr(mpmath, t[1])(a)
        return check(v), check(abs(v) + s*(abs(v) if t[1] == 'exp' else 1))
    a, s = evaluate(t[1], env)
    b, r = evaluate(t[2], env)
    if k == '+':
        return a + b, s + r
    if k == '-':
        return a - b, s + r
    if k == '*':
        return check(a*b), check(s*r)
    if abs(b) < mp('1e-3')*r:
        raise Undefined()
    return check(a/b), check(s/abs(b)*max(1, r/abs(b)))


def check(v):
    if not abs(v) < mp('1e30'):
        raise Undefined()
    return v


def to_sympy(t):
    import sympy as sp
    k = t[0]
    if k == 's':
        return sp.Symbol(t[1])
    if k == 'n':
        return sp.Float(t[1]) if '.' in t[1] or 'e' in t[1] else sp.Rational(t[1])
    if k == '^':
        n = t[2]
        n = sp.Integer(n) if isinstance(n, int) else sp.Symbol(n) if n[0].isalpha() else sp.Rational(n)
        return to_sympy(t[1])**n
    if k == 'neg':
        return -to_sympy(t[1])
    if k == 'f':
        return getattr(sp, t[1])(to_sympy(t[2]))
    a, b = to_sympy(t[1]), to_sympy(t[2])
    return a + b if k == '+' else a - b if k == '-' else a*b if k == '*' else a/b


def to_text(t, rnd, arrays=False):
    """Python/C-like text with arbitrary spacing, ** or pow()"""
    def sp():
        return rnd.choice(['', '', ' ', ' ', '  '])

    def par(q, prec):
        s, p = q
        return s if p >= prec else '(' + sp()*(rnd.random() < .2) + s + ')'

    def go(t):
        # (text, precedence): 1 sum, 2 product, 3 unary minus, 4 power, 5 atom
        k = t[0]
        if k == 's':
            if arrays and t[1] in ('x', 'nx1', 'Nxx'):
                return '%s[%s]' % (t[1], rnd.choice(['0', 'i', 'i+1', 'row+2'])), 5
            return t[1], 5
        if k == 'n':
            q = Fraction(t[1])
            if q.denominator == 1:
                n = '%d' % q.numerator
                return rnd.choice([n, n, n + '.', n + '.0', n + 'e0', '%d.e-1' % (10*q.numerator)]), 3 if q < 0 else 5
            if rnd.random() < .3 and float(q) == q:
                return '%r' % float(q), 5
            return '%d/%d.' % (q.numerator, q.denominator), 2
        if k == '^':
            n = t[2]
            e = str(n)
            if isinstance(n, int) and n < 0:
                e = rnd.choice(['%d' % n, '(%d)' % n])
            elif not isinstance(n, int) and not n[0].isalpha():
                q = Fraction(n)
                e = '(%d./%d)' % (q.numerator, q.denominator) if q.denominator == 3 else '%r' % float(q)
            if rnd.random() < .3:
                return 'pow(' + go(t[1])[0] + sp() + ',' + sp() + e + ')', 5
            b = par(go(t[1]), 5)
            return b + sp() + '**' + sp() + e, 4
        if k == 'neg':
            return '-' + par(go(t[1]), 4), 3
        if k == 'f':
            return t[1] + '(' + go(t[2])[0] + ')', 5
        a, b = go(t[1]), go(t[2])
        if k in '+-':
            return par(a, 1) + sp() + k + sp() + par(b, 2), 1
        return par(a, 2) + sp() + k + sp() + par(b, 4), 2
    return go(t)[0]


class _Exact(ast.NodeTransformer):
    def visit_Constant(self, node):
        if isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            return ast.copy_location(ast.Call(func=ast.Name(id='_num', ctx=ast.Load()),
                args=[ast.Constant(value=repr(node.value))], keywords=[]), node)
        return node

    def visit_Subscript(self, node):
        # an array element stands for the name of the array
        return node.value


def namespace(env):
    ns = dict((k, mp(v.numerator)/v.denominator) for k, v in env.items())
    ns.update(_num=mpmath.mpf, pow=lambda a, b: a**b, sqrt=mpmath.sqrt, sin=mpmath.sin, cos=mpmath.cos,
              exp=mpmath.exp, E=mpmath.exp(1))   # SymPy prints exp(1) as E
    return ns


def run(text, ns):
    """Value of an expression of the printed code"""
    try:
        tree = ast.parse(text.strip(), mode='eval')
        tree = ast.fix_missing_locations(_Exact().visit(tree))
        v = eval(compile(tree, '<printed>', 'eval'), dict(ns, __builtins__={}))
    except Exception as exc:
        raise Violation('printed expression %r cannot be evaluated: %s: %s' % (text[:300], type(exc).__name__, exc))
    return v


def same(what, got, want, scale, rec=None, tol='1e-25'):
    err = abs(got - want)/(mp(tol)*max(scale, mp('1e-200')))
    if rec is not None:
        rec.maxerr = max(rec.maxerr, float(err))
    if not err <= 1:
        raise Violation('%s is %s, expected %s' % (what, mpmath.nstr(got, 15), mpmath.nstr(want, 15)))
