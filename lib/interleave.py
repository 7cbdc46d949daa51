"""Runs functions in threads of which one at a time advances, changing from
one to another between randomly chosen statements of the code under test: a
schedule that a seed determines"""
import ast
import builtins
import gc
import os
import random
import sys
import threading
import types

from lib import env

STALL = 3.      # seconds
CURRENT = [None]
DONE = []


def step():
    s = CURRENT[0]
    if s is not None:
        s.step()


def meet():
    s = CURRENT[0]
    if s is not None and s.meeting:
        s.meet()


class Steps(ast.NodeTransformer):
    """A call of __step__ before each statement of a function"""
    depth = 0

    def function(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        node.body = self.body(node.body, True)
        return node
    visit_FunctionDef = visit_AsyncFunctionDef = function

    def body(self, stmts, first):
        out = []
        for k, s in enumerate(stmts):
            doc = first and k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            if not doc and not isinstance(s, (ast.Global, ast.Nonlocal)):
                e = ast.Expr(ast.Call(ast.Name('__step__', ast.Load()), [], []))
                out.append(ast.fix_missing_locations(ast.copy_location(e, s)))
            out.append(s)
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.depth and isinstance(node, (ast.For, ast.While, ast.If, ast.With, ast.Try, ast.ExceptHandler)):
            for field in ('body', 'orelse', 'finalbody'):
                if getattr(node, field, None):
                    setattr(node, field, self.body(getattr(node, field), False))
        return node


def codes_of(code, out):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out.setdefault((c.co_qualname, c.co_firstlineno), c)
            codes_of(c, out)
    return out


def instrument():
    """The functions of the modules already imported from the repository call
    __step__ before each statement"""
    if DONE:
        return
    DONE.append(True)
    builtins.__step__ = step
    root = os.path.realpath(env.REPO) + os.sep
    new = {}
    for m in list(sys.modules.values()):
        f = getattr(m, '__file__', None)
        if f and f.endswith('.py') and os.path.realpath(f).startswith(root):
            try:
                with open(f) as g:
                    tree = Steps().visit(ast.parse(g.read()))
                new[f] = codes_of(compile(ast.fix_missing_locations(tree), f, 'exec', dont_inherit=True), {})
            except (SyntaxError, ValueError, OSError):
                continue
    n = 0
    for fn in gc.get_objects():
        if isinstance(fn, types.FunctionType) and fn.__code__.co_filename in new:
            old = fn.__code__
            c = new[old.co_filename].get((old.co_qualname, old.co_firstlineno))
            if c is not None and c.co_freevars == old.co_freevars:
                fn.__code__ = c
                n += 1
    return n


class Schedule(object):
    """Turns of a geometric (p) or widely spread (p = 0) number of statements"""
    def __init__(self, seed, p, meeting=False):
        self.meeting = meeting
        self.rnd = random.Random(seed)
        self.p = p
        self.left = self.turn()
        self.switches = 0
        self.steps = 0
        # once the thread whose turn it is waits for another one (a lock of the
        # code under test), all of them run freely
        self.free = False

    def step(self):
        if not self.free:
            me = self.order.get(threading.get_ident())
            if me is not None:
                self.steps += 1
                self.left -= 1
                if self.left <= 0:
                    self.left = self.turn()
                    others = sorted(i for i in self.alive if i != me)
                    if others:
                        self.switches += 1
                        self.sems[self.rnd.choice(others)].release()
                        self.wait(me)

    def turn(self):
        if self.p:
            return 1 + int(self.rnd.expovariate(self.p))
        return int(2000.**self.rnd.random())

    def meet(self):
        """Goes on once the other threads have met as often, or are done"""
        me = self.order.get(threading.get_ident())
        if me is None:
            return
        self.level[me] += 1
        while not self.free:
            behind = sorted(i for i in self.alive if self.level[i] < self.level[me])
            if not behind:
                return
            self.sems[self.rnd.choice(behind)].release()
            self.wait(me)

    def wait(self, me):
        steps = self.steps
        while not self.sems[me].acquire(timeout=STALL):
            if self.free or self.steps == steps:
                self.free = True
                return
            steps = self.steps

    def run(self, fns):
        """[(result, exception)]"""
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.alive = set(range(n))
        self.level = [0]*n
        self.order = {}
        out = [(None, RuntimeError('not run'))]*n
        ready = threading.Barrier(n + 1)

        def body(i):
            self.order[threading.get_ident()] = i
            ready.wait()
            self.wait(i)
            try:
                r = fns[i](), None
            except BaseException as exc:
                r = None, exc
            out[i] = r
            self.alive.discard(i)
            if self.alive:
                self.sems[self.rnd.choice(sorted(self.alive))].release()
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        ready.wait()
        CURRENT[0] = self
        try:
            self.sems[self.rnd.randrange(n)].release()
            for t in ts:
                t.join(240.)
        finally:
            CURRENT[0] = None
        return out
