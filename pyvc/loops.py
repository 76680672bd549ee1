"""Loops by invariant.

Loops over other iterables are cut too when the contract asks for it (for_loops):
an arbitrary item is taken each time (items, item) and the end may come any time
(more).

cut(function, L) recompiles the real source of a function with every `while`
(and every `for` over a symbolic range) replaced by: check of the invariant on
entry, an arbitrary state that satisfies it, one iteration from there, check of
the invariant at its end.  `break` and the exit by the condition continue after
the loop.  What is dropped: nothing; what is changed: only the loop headers and
`continue`.  Loops whose range is concrete run as they are.

L (a Loop) says what the invariant is.  The variables assigned in the loop are
found in the source; attributes that may change are declared by L and the frame
is checked: every other attribute of the watched objects must be the same object
with the same contents at the end of the iteration."""
import ast
import inspect
import textwrap
import types
from .expr import Unsupported


class PathEnd(Exception):
    """the iteration is over: nothing more to check on this path"""


class Loop(object):
    """the loop contract; subclasses define invariant(i, env, entry) and havoc(i, env)"""

    def __init__(self, w, watch=()):
        self.w, self.watch = w, list(watch)
        self.entered = []

    def invariant(self, i, env, when):
        pass

    def state(self, i, env):
        """an arbitrary state: sets attributes, returns the values of local variables"""
        return {}

    def after(self, i, env):
        """obligations about one iteration (at its end)"""

    # -- called by the rewritten function
    def enter(self, i, env):
        self.entered.append(i)
        self.invariant(i, env, 'on entry')

    def havoc(self, i, env, names):
        new = self.state(i, env)
        for n in names:
            if n in env and n not in new:
                raise Unsupported('loop variable %s has no description' % n)
        missing = [n for n in new if n not in names and not n.startswith('_')]
        for n in missing:
            new.pop(n)
        snap = lambda v: self.w.snap(v) if hasattr(v, 'snapshot') else None
        self.frame = [(o, {k: (v, snap(v)) for k, v in vars(o).items()}) for o in self.watch]
        self.locals = {k: (v, snap(v)) for k, v in env.items() if k not in names and k not in self.mutated and hasattr(v, 'snapshot')}
        env = dict(env, **new)
        self.head = env
        return new

    # -- for loops
    for_loops = False

    def items(self, i, seqs):
        return seqs

    def more(self, i, seqs):
        return self.w.choice('another item?', [True, False], sym=[True, False])

    def item(self, i, seqs):
        raise Unsupported('item of a loop')

    changing = ()      # attributes of the watched objects the loop may assign
    mutated = ()       # local arrays the loop writes into

    def end(self, i, env):
        self.invariant(i, env, 'kept')
        self.after(i, env)
        for o, before in self.frame:
            for k, v in vars(o).items():
                if k in self.changing:
                    continue
                if k not in before:
                    raise Unsupported('attribute %s appears in the loop' % k)
                old, snap = before[k]
                if old is not v and not (isinstance(v, (int, float, str, bool, type(None))) and v == old):
                    raise Unsupported('attribute %s is assigned in the loop and not described' % k)
                if snap is not None:
                    self.w.unchanged('loop frame: ' + k, snap)
        for k, (v, snap) in self.locals.items():
            self.w.unchanged('loop frame: local ' + k, snap)
        raise PathEnd()


def _targets(nodes):
    names = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
    return sorted(names)


class _Continue(ast.NodeTransformer):
    def __init__(self, end):
        self.end = end

    def visit_While(self, n):
        return n
    visit_For = visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_While

    def visit_Continue(self, n):
        return ast.copy_location(self.end(), n)


class _Cut(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_FunctionDef(self, n):
        if getattr(self, 'inside', False):
            return n
        self.inside = True
        return self.generic_visit(n)

    for_loops = False

    def _body(self, stmts, end):
        out = []
        for b in stmts:
            r = self.visit(b)
            out += [_Continue(end).visit(x) for x in (r if isinstance(r, list) else [r])]
        return out

    def visit_For(self, n):
        if not self.for_loops:
            return self.generic_visit(n)
        if n.orelse:
            raise Unsupported('for ... else')
        i = self.n
        self.n += 1
        names = _targets(n.body + [n.target])
        it = n.iter
        zipped = isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip' and not it.keywords
        end = lambda: ast.parse('__L.end(%d, dict(locals()))' % i).body[0]
        body = self._body(n.body, end)
        seqs = ast.parse('__it%d = __L.items(%d, 0)' % (i, i)).body
        seqs[0].value.args[1] = ast.List(it.args if zipped else [it], ast.Load())
        pre = seqs + ast.parse('__L.enter(%d, dict(locals()))\n__h%d = __L.havoc(%d, dict(locals()), %r)' % (i, i, i, names)).body
        for x in names:
            pre += ast.parse('if %r in __h%d: %s = __h%d[%r]' % (x, i, x, i, x)).body
        loop = ast.parse('while True:\n  if not __L.more(%d, __it%d): break\n  x = __L.item(%d, __it%d)' % (i, i, i, i)).body[0]
        loop.body[1].targets = [n.target]
        loop.body += body + [end()]
        return [ast.copy_location(p, n) for p in pre] + [ast.copy_location(loop, n)]

    def visit_While(self, n):
        if n.orelse:
            raise Unsupported('while ... else')
        i = self.n
        self.n += 1
        names = [x for x in _targets(n.body + [n.test])]
        end = lambda: ast.parse('__L.end(%d, dict(locals()))' % i).body[0]
        body = self._body(n.body, end)
        pre = ast.parse('__L.enter(%d, dict(locals()))\n__h%d = __L.havoc(%d, dict(locals()), %r)' % (i, i, i, names)).body
        for x in names:
            pre += ast.parse('if %r in __h%d: %s = __h%d[%r]' % (x, i, x, i, x)).body
        loop = ast.parse('while True:\n  if not 1: break\n  pass').body[0]
        loop.body[0].test = ast.UnaryOp(ast.Not(), n.test)
        loop.body[1:] = body + [end()]
        return [ast.copy_location(p, n) for p in pre] + [ast.copy_location(loop, n)]


def cut(fn, L, cache={}):
    """the function with its loops cut by the loop contract L"""
    try:
        src = textwrap.dedent(inspect.getsource(fn))
        tree = ast.parse(src)
    except (OSError, TypeError, SyntaxError) as e:
        raise Unsupported('source of %r: %s' % (fn, e))
    f = tree.body[0]
    if not isinstance(f, ast.FunctionDef):
        raise Unsupported('not a function')
    f.decorator_list = []
    if fn.__code__.co_freevars:
        raise Unsupported('closure')
    c = _Cut()
    c.for_loops = L.for_loops
    f = c.visit(f)
    fac = ast.parse('def __factory(__L):\n  pass').body[0]
    fac.body = [f, ast.parse('return ' + f.name).body[0]]
    # `return` must stay inside the factory
    mod = ast.Module([fac], [])
    ast.fix_missing_locations(mod)
    d = {}
    exec(compile(mod, inspect.getsourcefile(fn), 'exec'), fn.__globals__, d)
    out = d['__factory'](L)
    out.__defaults__ = fn.__defaults__
    out.__kwdefaults__ = fn.__kwdefaults__
    L.loops = c.n
    return out
