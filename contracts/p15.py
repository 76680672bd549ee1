"""P15: the first-order solver (FISTA).

Symbolic: the loops of backtrack and fit by invariant (pyvc.loops), the composite
known only by its contract, fit checked against backtrack's contract.
Concrete: whole runs of the real solver on real convex problems, monitored."""
import copy as _copy
import warnings
import numpy as np
from pyvc.runner import contract
from pyvc.loops import Loop, PathEnd, cut
from pyvc.expr import Unsupported
from contracts.problab import fun, sc
from contracts import p14
from regreg.identity_quadratic import identity_quadratic as iq
import regreg.algorithms as AL

AF = 'regreg/algorithms.py:FISTA.'


class AnyComposite(object):
    """some smooth function plus some penalty with some proximal map"""

    def __init__(self, w, n):
        self.w, self.n = w, n
        self.coefs = w.arr('coefs', (n,))
        self.lipschitz = w.pos('lipschitz')
        self._asked = []
        self._checked = []

    def val(self, x):
        return fun(self.w, 'value', None, x)

    def grad(self, x):
        return fun(self.w, 'gradient', (self.n,), x)

    def pen(self, x):
        return fun(self.w, 'penalty', None, x)

    def obj(self, x):
        return self.val(x) + self.pen(x)

    def smooth_objective(self, x, mode='both', check_feasibility=False):
        return self.val(x) if mode == 'func' else self.grad(x) if mode == 'grad' else (self.val(x), self.grad(x))

    def nonsmooth_objective(self, x, check_feasibility=False):
        self._checked.append(check_feasibility)
        return self.pen(x)

    def answer(self, q):
        t = q.collapsed()
        return fun(self.w, 'prox', (self.n,), t.coef, t.linear_term + self.w.np.zeros((self.n,)))

    def proximal_step(self, q, prox_control=None):
        self._asked.append(_copy.copy(q))
        return self.answer(q)


def accepted(w, f, comp, y, p, L, tag=''):
    """the acceptance condition of a step from y to p at Lipschitz estimate L"""
    d = p - y
    g = comp.grad(y)
    sq = (d * d).sum()
    upper = comp.val(y) + (d * g).sum() + L * sq / 2 - comp.val(p)
    gap = L * sq / 2 - abs((d * (g - comp.grad(p))).sum())
    close = abs(comp.val(p) - comp.val(y)) - 1e-10 * w.np.maximum(comp.val(p), 1.)
    return upper, gap, close


def the_step(w, name, q, comp, y, L, z):
    w.eq(name, q.objective(z, 'grad') + 0 * z, L * (z - y) + comp.grad(y))


def backtracking():
    @contract('P15', 'backtrack', [AF + 'backtrack'], paths=600, cases=40,
              note='loop by invariant (the step stays positive, the point and its gradient stay fixed); termination is not claimed')
    def run(w):
        if not w.symbolic:
            return monitored(w)
        n = w.dim('n')
        comp = AnyComposite(w, n)
        s = AL.FISTA(comp)
        s.prox_control = {}
        s.step = w.pos('step')
        if w.choice('decrease?', [False, True]):
            s.attempt_decrease = True
        y = w.arr('y', (n,))
        s.working_coefs = y
        z = w.arr('z', (n,))
        finite = w.choice('value at the proposal', ['finite', 'infinite', 'nan'])
        it = w.integer('iteration', 0, 10 ** 9)
        snap = w.snap(y, comp.coefs)

        class C(Loop):
            changing = ('step', 'attempt_decrease', '_asked')

            def state(self, i, env):
                s.step = w.pos('step at the iteration')
                s.attempt_decrease = w.choice('decrease at the iteration?', [False, True])
                comp._asked = []
                if finite != 'finite':
                    real = comp.smooth_objective
                    seen = []

                    def f(x, mode='both', check_feasibility=False):
                        seen.append(1)
                        v = {'infinite': np.inf, 'nan': np.nan}[finite]
                        return v if mode == 'func' else real(x, mode) if mode == 'grad' else (v, comp.grad(x))
                    comp.__dict__['smooth_objective'] = f
                return {}

            def invariant(self, i, env, when):
                w.true('step positive ' + when, s.step > 0)
                w.true('same point ' + when, s.working_coefs is y)

            def after(self, i, env):
                w.true('another iteration uses a smaller step', True)

        L = C(w, watch=[s, comp])
        f = cut(AL.FISTA.backtrack, L)
        if L.loops != 1:
            raise Unsupported('%d loops' % L.loops)
        try:
            p, v = f(s, it)
        except PathEnd:
            return
        except ValueError:
            w.unchanged('arrays unchanged', snap)
            return
        w.true('a proposal with a non-finite value is never accepted', finite == 'finite')
        w.true('a proximal problem was solved', len(comp._asked) > 0)
        q = comp._asked[-1]
        w.true('the step is positive', s.step > 0)
        Lip = 1 / s.step
        the_step(w, 'the problem is the proximal gradient step at the current estimate', q, comp, y, Lip, z)
        w.eq('the proposal is its answer', p, comp.answer(q))
        w.eq('value of the proposal', v, comp.val(p))
        upper, gap, close = accepted(w, None, comp, y, p, Lip)
        w.implies('accepted only under the quadratic upper bound', close > 0, upper >= 0)
        w.implies('accepted only under the gradient bound when the values agree', close <= 0, gap >= 0)
        w.unchanged('arrays unchanged', snap)


def fitting():
    @contract('P15', 'fit', [AF + 'fit', AF + 'update_working_coefs', 'regreg/algorithms.py:algorithm.__init__'], paths=3000, cases=40, budget=300,
              note='loop by invariant: the working objective is that of the stored coefficients; backtrack by its contract')
    def run(w):
        if not w.symbolic:
            return monitored(w)
        n = w.dim('n')
        comp = AnyComposite(w, n)
        s = AL.FISTA(comp)
        tol, max_its, min_its = w.pos('tol'), w.integer('max_its', 1, 10 ** 9), w.integer('min_its', 1, 10 ** 9)
        s.perform_backtrack = w.choice('backtrack?', [True, False])
        coef_stop = w.choice('coef_stop', [False, True])
        mono = w.choice('monotone?', [True, False])
        ghost = {}

        def backtrack(it):
            """by contract"""
            p = w.arr('proposal', (n,))
            s.step = w.pos('step after backtracking')
            s.attempt_decrease = False if w.choice('failed once?', [True, False]) else s.attempt_decrease
            ghost['from'] = s.working_coefs
            return p, comp.val(p)
        s.backtrack = backtrack

        class C(Loop):
            changing = ('step', 'attempt_decrease', 'working_coefs', 'weight_old', 'weight_new', 'coefs', '_asked', '_checked')
            mutated = ('objective_hist',)

            def invariant(self, i, env, when):
                it, o = env['itercount'], env['working_obj']
                w.eq('objective is that of the coefficients ' + when, o, comp.obj(comp.coefs))
                w.true('iterations counted ' + when, it >= 0)
                w.true('no more iterations than allowed ' + when, it <= max_its)
                w.true('weight at least one ' + when, s.weight_old >= 1)
                if when == 'on entry':
                    w.true('feasibility of the start is checked', comp._checked == [True])
                    w.eq('starts from the coefficients', s.working_coefs, comp.coefs)

            def state(self, i, env):
                self.x = w.arr('x', (n,))
                self.y = w.arr('y', (n,))
                comp.coefs, s.working_coefs = self.x, self.y
                self.it = w.integer('itercount', 0, max_its + 1)
                s.weight_old = w.real('excess') ** 2 + 1
                s.weight_new = w.pos('weight_new')
                self.w_old = s.weight_old
                if s.perform_backtrack:
                    s.step = w.pos('step now')
                s.attempt_decrease = w.choice('decrease?', [False, True])
                comp._asked = []
                self.hist = env['objective_hist']
                h = w.arr('hist', (max_its,))
                self.hist[:] = h
                self.hist0 = h
                self.badstep = w.integer('badstep', 0, 4)
                self.obj = w.real('working_obj')
                w.assume(self.obj == comp.obj(self.x))
                return {'itercount': self.it, 'working_obj': self.obj, 'badstep': self.badstep, 'objective_hist': self.hist}

            def proposal(self, env):
                p = env['proposed_coefs']
                if s.perform_backtrack:
                    w.true('backtracks from the working point', ghost.get('from') is self.y)
                else:
                    w.true('one proximal problem', len(comp._asked) == 1)
                    q = comp._asked[0]
                    the_step(w, 'fixed step: proximal gradient step at the Lipschitz constant', q, comp, self.y, comp.lipschitz, w.arr('z', (n,)))
                    w.eq('fixed step: the proposal is its answer', p, comp.answer(q))
                return p

            def history(self, when):
                j = w.index('j', max_its)
                want = w.np.where(j == self.it, self.obj, self.hist0[j])
                w.eq('history records the objective of the coefficients ' + when, self.hist[j], want)

            def after(self, i, env):
                p = self.proposal(env)
                op = comp.obj(p)
                change = abs(op - self.obj)
                rel = change / w.np.maximum(abs(self.obj), 1.)
                worse = bool(self.it > 1) and bool(self.obj < op) and bool(rel > 1e-10)
                w.eq('one more iteration', env['itercount'], self.it + 1)
                if mono and worse:
                    w.eq('rejected: coefficients kept', comp.coefs, self.x)
                    w.eq('rejected: restarts from the coefficients', s.working_coefs, self.x)
                    w.eq('rejected: momentum restarts', s.weight_old, 1)
                else:
                    w.eq('accepted: the proposal becomes the coefficients', comp.coefs, p)
                    wn = s.weight_old
                    w.eq('accepted: weight recursion', wn * wn - wn, self.w_old * self.w_old)
                    w.eq('accepted: extrapolation', wn * (s.working_coefs - p), (self.w_old - 1) * (p - self.x))
                self.history('at the end of an iteration')
                w.unchanged('earlier coefficients unchanged', self.keep)

        class D(C):
            def state(self, i, env):
                r = C.state(self, i, env)
                self.keep = w.snap(self.x, self.y)
                return r

            def havoc(self, i, env, names):
                # everything else assigned in the loop is set before it is used
                return C.havoc(self, i, {k: v for k, v in env.items()}, names)

        L = D(w, watch=[s, comp])
        f = cut(AL.FISTA.fit, L)
        if L.loops != 1:
            raise Unsupported('%d loops' % L.loops)
        warned = []
        real = AL.warnings

        class W(object):
            @staticmethod
            def warn(*a, **k):
                warned.append(a)
        AL.warnings = W
        try:
            r = f(s, tol=tol, min_its=min_its, max_its=max_its, coef_stop=coef_stop, monotonicity_restart=mono)
        except PathEnd:
            return
        except KeyError as e:
            raise Unsupported('local variable %s' % e)
        finally:
            AL.warnings = real
        # the loop was left
        w.eq('returned: the coefficients of the last accepted step', comp.coefs, L.x)
        last = ghost.get('from') is L.y if s.perform_backtrack else len(comp._asked) == 1
        if not last:
            w.true('left before a step only at the iteration limit', L.it >= max_its)
        elif not warned:
            w.true('stopped after enough iterations', L.it >= min_its)
            L.history('at the stop')
            p = comp.answer(comp._asked[0]) if not s.perform_backtrack else ghost_proposal(w, s)
            op = comp.obj(p)
            change = abs(op - L.obj)
            if coef_stop:
                rel = w.np.sqrt(((L.x - p) ** 2).sum()) / w.np.maximum(1., w.np.sqrt((p * p).sum()))
                w.true('stopping rule on the coefficients', rel < tol)
            else:
                rel = change / w.np.maximum(abs(L.obj), 1.)
                w.true('stopping rule on the objective', (rel < tol) | (change < tol))
        else:
            w.true('a warning is given only after four bad steps', L.badstep == 3)
        w.unchanged('coefficients unchanged', L.keep)

    def ghost_proposal(w, s):
        return s.working_coefs


def monitored(w):
    """a whole run of the real solver on a real convex problem"""
    import regreg.api as rr
    P = p14.Real(w, linear=False)
    prob = rr.simple_problem(P.loss, P.atom())
    g = w.rng
    log = dict(asked=[], answers=[], coefs=[], calls=[])

    class Watched(type(prob)):
        def proximal_step(self, q, prox_control=None):
            r = SIprox(self, q)
            log['asked'].append(_copy.copy(q))
            log['answers'].append(np.array(r))
            return r

        def smooth_objective(self, x, mode='both', check_feasibility=False):
            r = SIobj(self, x, mode, check_feasibility)
            if mode in ('both', 'grad'):
                log['calls'].append((np.array(x), np.array(r[1] if mode == 'both' else r)))
            return r

        def _get(self):
            return self._c

        def _set(self, v):
            self._c = v
            log['coefs'].append((np.array(v), len(log['asked'])))
        coefs = property(_get, _set)
    SIobj, SIprox = type(prob).smooth_objective, type(prob).proximal_step
    prob.__dict__.pop('coefs', None)
    prob.__class__ = Watched
    start = g.standard_normal(P.p) * g.choice([0., 1., 10.])
    prob.coefs = start.copy()
    log['coefs'] = []
    s = AL.FISTA(prob)
    s.perform_backtrack = w.choice('backtrack?', [True, False])
    prob.lipschitz = 2 * np.linalg.norm(P.X, 2) ** 2 + 3
    mono = w.choice('monotone?', [True, False])
    coef_stop = w.choice('coef_stop', [False, True])
    max_its, min_its = int(g.choice([1, 3, 50, 400])), int(g.choice([1, 5]))
    tol = float(10. ** -g.integers(2, 11))
    w.record['run'] = dict(start=start.tolist(), max_its=max_its, min_its=min_its, tol=tol)
    step0 = float(10. ** g.integers(-3, 4))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        hist = s.fit(tol=tol, min_its=min_its, max_its=max_its, coef_stop=coef_stop, monotonicity_restart=mono, start_step=step0)
    warned = any('bad steps' in str(x.message) for x in ws)
    pts = [start] + [c for c, _ in log['coefs']]
    objs = [P.obj(x) for x in pts]
    # accepted points are proximal gradient steps under the bound
    for k, (x, m) in enumerate(log['coefs']):
        w.true('a step was asked for', m > 0)
        q, ans = log['asked'][m - 1], log['answers'][m - 1]
        w.eq('accepted: the answer of the last proximal problem', x, ans, tol=0.)
        at = [c for c in log['calls'] if _near(c, q)]
        w.true('accepted: a step from a point where the gradient was evaluated', len(at) > 0)
        y, gr = at[-1]
        L, z = q.coef, g.standard_normal(P.p)
        sz = 1 + np.abs(gr).max() + L * (np.abs(y).max() + np.abs(z).max())
        w.eq('accepted: proximal gradient step', q.objective(z, 'grad'), L * (z - y) + gr, tol=1e-9, scale=sz)
        d = x - y
        fx, fy = SIobj(prob, x, 'func'), SIobj(prob, y, 'func')
        w.true('accepted: finite value', np.isfinite(fx))
        w.le('accepted: quadratic upper bound', fx, fy + d.dot(gr) + L * d.dot(d) / 2, tol=3e-10, scale=1 + abs(fx) + abs(fy) + abs(d.dot(gr)))
    if mono:
        for k in range(3, len(objs)):
            w.le('accepted objectives never increase', objs[k], objs[k - 1], tol=2e-10, scale=max(1, abs(objs[k - 1])))
    # history: objectives of the points, in order
    w.true('no more iterations than allowed', len(hist) <= max_its)
    j = 0
    off = objs[0] - (SIobj(prob, start, 'func') + prob.nonsmooth_objective(start))
    for h in hist:
        while j < len(objs) and abs(objs[j] - off - h) > 1e-8 * (1 + abs(h)):
            j += 1
        w.true('history lists objectives of the successive coefficients', j < len(objs))
    w.eq('the stored solution is the last accepted point', prob.coefs, pts[-1], tol=0.)
    if len(hist) < max_its and not warned:
        x, p = pts[-1], log['answers'][-1]
        a, b = P.obj(x), P.obj(p)
        if coef_stop:
            w.le('stopping rule on the coefficients', np.linalg.norm(x - p) / max(1, np.linalg.norm(p)), tol, tol=1e-9)
        else:
            w.le('stopping rule on the objective', min(abs(a - b), abs(a - b) / max(1, abs(a))), tol, tol=1e-9)
        w.true('stopped after enough iterations', len(hist) >= min_its)


def _near(c, q):
    """was the quadratic built from this evaluation?"""
    y, g = c
    return np.allclose(q.objective(y, 'grad'), g, rtol=1e-9, atol=1e-9)


backtracking()
fitting()
