"""pow2mul: powers become products, the value stays"""
import random
import re

import mpmath

from lib import env, expr
from lib.core import Skip, Sub, call, ensure
from lib.gen import st

RULE = ('Random arithmetic expressions (names that contain each other, numbers, nested brackets, calls, array elements) '
        'with integer, fractional, negative and symbolic powers written with ** or pow(), any spacing; evaluated before '
        'and after with 50 digits; non-trivial: at least one power was replaced.')
ASSUMPTIONS = ['pow() with two arguments; no string literals', 'one-line expressions of Python/C syntax']


@st.composite
def texts(draw):
    t = draw(expr.trees(depth=6 if env.DEEP else 4))
    return dict(tree=t, seed=draw(st.integers(0, 2**31)), arrays=draw(st.booleans()))


def check(case, rec):
    from meshless.dev.sympytools import pow2mul
    mpmath.mp.dps = expr.DPS
    rnd = random.Random(case['seed'])
    text = expr.to_text(case['tree'], rnd, case['arrays'])
    env = expr.values(case['seed'])
    try:
        want, scale = expr.evaluate(case['tree'], env)
    except expr.Undefined:
        raise Skip()
    ns = expr.namespace(env)
    expr.same('value of the generated text (harness)', expr.run(text, ns), want, scale, tol='1e-12')
    before = expr.run(text, ns)
    out = call('pow2mul', pow2mul, text)
    ensure(isinstance(out, str), 'result is a %s', type(out).__name__)
    expr.same('value of %r (from %r)' % (out[:300], text[:300]), expr.run(out, ns), before, scale, rec)
    left = re.findall(r'(?<![\w.)\]])[A-Za-z_]\w*\s*\*\*\s*\d+(?![\w.])(?!\s*\*\*)', out)
    ensure(not left, 'power %s left in %r', left[:1], out[:300])
    left = re.findall(r'(?<!\w)pow\(\s*\w+\s*,\s*\d+\s*\)', out)
    ensure(not left, 'power %s left in %r', left[:1], out[:300])
    if '**' not in text and 'pow(' not in text:
        ensure(out == text, 'text without powers changed to %r', out[:200])
    rec.label('replaced' if out != text else 'unchanged')
    rec.hit(out != text)


@st.composite
def products(draw):
    """product or sum of powers of names"""
    k = draw(st.integers(1, 4))
    return [[draw(st.sampled_from(expr.NAMES)), draw(st.integers(1, 13)), draw(st.sampled_from(['**', ' ** ', '** ', 'pow']))]
            for _ in range(k)]


def check_products(case, rec):
    """the result has exactly the factors, and no powers"""
    from meshless.dev.sympytools import pow2mul
    text = '*'.join('pow(%s, %d)' % (b, n) if how == 'pow' else '%s%s%d' % (b, how, n) for b, n, how in case)
    out = call('pow2mul', pow2mul, text)
    ensure('**' not in out and not re.search(r'(?<!\w)pow\(', out), 'powers left in %r', out)
    got = re.sub(r'[()\s]', '', out).split('*')
    want = [b for b, n, _ in case for _ in range(n)]
    ensure(got == want, 'factors of %r: %r', text, got)
    rec.hit(any(n > 1 for _, n, _ in case))


SUBS = [Sub('value', texts, check, 12000, 120000,
            examples=[dict(tree=['*', ['^', ['s', 'x'], 2], ['^', ['s', 'xx'], 2]], seed=3, arrays=False)]),
        Sub('factors', products, check_products, 2000, 20000)]
