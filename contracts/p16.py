"""P16: solving under an extra quadratic is exact and leaves the problem unchanged."""
import numpy as np
from pyvc.runner import contract
from contracts import affzoo
from contracts.problab import AnySmooth, AnyAtom, somequad, noquad, swapped, sc, fun
from contracts.p07 import quad
from contracts import p14
from regreg.identity_quadratic import identity_quadratic as iq
import regreg.problems.simple as SI
import regreg.problems.container as CO
import regreg.problems.dual_problem as DU
import regreg.problems.composite as CM
import regreg.problems.separable as SE

SOLVE = {'simple': ('regreg/problems/simple.py:simple_problem.', SI), 'container': ('regreg/problems/container.py:container.', CO),
         'dual': ('regreg/problems/dual_problem.py:dual_problem.', DU), 'smooth': ('regreg/problems/composite.py:smooth.', CM)}


class Failed(Exception):
    pass


def build(w, kind, n):
    """a problem, its value and gradient of the differentiable part by formula (without its own quadratic), its penalty"""
    few = dict(curved=[True])
    if kind == 'dual':
        m = w.dim('m')
        T = affzoo.Abstract(w, 'D', (m,), (n,), off=False)
        F, A = AnySmooth(w, 'f*', (m,)), AnyAtom(w, 'penalty', (n,))
        P = DU.dual_problem(F, T, A)
        val = lambda x: F.val(-T.adjoint_map(x))
        grad = lambda x: -T.linear_map(F.grad(-T.adjoint_map(x)))
        return P, val, grad, A, lambda x: F.grad(-T.adjoint_map(x))
    if kind == 'smooth':
        P = AnySmooth(w, 'loss', (n,))
        return P, P.val, P.grad, None, None
    ql = somequad(w, 'loss quadratic', (n,), **few)
    L, A = AnySmooth(w, 'loss', (n,), quadratic=ql[0]), AnyAtom(w, 'penalty', (n,))
    P = SI.simple_problem(L, A) if kind == 'simple' else CO.container(L, A)
    return P, lambda x: L.val(x) + ql[2](x), lambda x: L.grad(x) + ql[1](x), A, None


def solver(kind):
    pre, module = SOLVE[kind]

    @contract('P16', kind + ' solve', [pre + 'solve', 'regreg/problems/composite.py:composite.get_quadratic', 'regreg/problems/composite.py:composite.set_quadratic'], paths=1500, note='FISTA by contract: it minimises the composite it is given')
    def run(w):
        n = w.dim('n')
        P, val, grad, A, primal = build(w, kind, n)
        own = somequad(w, 'own quadratic', (n,), curved=[True])
        if own[0] is not None:
            P.quadratic = own[0]
        pen = (lambda x: A.val(x)) if A is not None else (lambda x: 0.)
        z = w.arr('z', (n,))
        step = iq(w.pos('L'), 0, 0, 0)
        fail = w.choice('the solver fails', [False, True])
        calls = []

        class Probe(object):
            step = 1.

            def __init__(self, c):
                self.composite = c

            def fit(self, **kw):
                c = self.composite
                g = c.smooth_objective(z, 'grad')
                if A is None:
                    rest = step.coef * (z - c.proximal(step)) if False else None
                    r = c.proximal(step)
                    calls.append((g, r, c.smooth_objective(z, 'func') + c.nonsmooth_objective(z), kw))
                else:
                    A.asked = []
                    c.proximal(step)
                    calls.append((g + A.asked[-1].objective(z, 'grad') - step.coef * z, None, c.smooth_objective(z, 'func') + c.nonsmooth_objective(z), kw))
                if fail and len(calls) == 1:
                    raise Failed
                c.coefs = w.arr('minimiser %d' % len(calls), (n,))
        extra = [somequad(w, 'first extra', (n,)), somequad(w, 'second extra', (n,), curved=[True], sym=['array'])]
        held = [a for q in extra + [own] if q[0] is not None for a in list(q[3]) + [q[0].coef, q[0].constant_term] if a is not None and not isinstance(a, int)]
        before = w.snap(*held)
        opt = w.choice('optimum?', [False, True])
        for i, q in enumerate(extra):
            tag = ['first', 'second'][i]
            out = None
            with swapped((module, 'FISTA', Probe)):
                try:
                    out = P.solve(q[0], return_optimum=opt, tol=.5)
                except Failed:
                    w.true('only the failing solver raises', fail and i == 0)
            w.true(tag + ': one problem solved', len(calls) == i + 1)
            g, r, v, kw = calls[i]
            w.true(tag + ': options reach the solver', kw == {'tol': .5})
            total = val(z) + pen(z) + own[2](z) + q[2](z)
            s = sc(w, z, val(z), pen(z), own[2](z), q[2](z), grad(z), own[1](z), q[1](z))
            w.eq(tag + ': objective of the problem plus the quadratic', v, total, tol=1e-9, scale=s)
            if A is not None:
                w.eq(tag + ': gradient of the problem plus the quadratic', g, grad(z) + own[1](z) + q[1](z), tol=1e-9, scale=s)
            else:
                w.eq(tag + ': gradient of the loss', g, grad(z), tol=1e-9, scale=s)
                w.eq(tag + ': step with the quadratics', step.coef * r + own[1](r) + q[1](r), 0 * r, tol=1e-9, scale=sc(w, own[1](0 * r), q[1](0 * r)))
            w.eq(tag + ': own quadratic restored', P.quadratic.objective(z, 'func'), own[2](z), tol=1e-9, scale=s)
            w.eq(tag + ': own quadratic restored, gradient', P.quadratic.objective(z, 'grad') + 0 * z, own[1](z), tol=1e-9, scale=s)
            if out is not None:
                x = P.coefs
                want = primal(x) if primal is not None else x
                w.eq(tag + ': solution returned', out[1] if opt else out, want, tol=1e-9)
                if opt:
                    w.eq(tag + ': optimum of the problem plus the quadratic', out[0], val(x) + pen(x) + own[2](x) + q[2](x), tol=1e-9, scale=sc(w, val(x), pen(x), own[2](x), q[2](x)))
        w.unchanged('quadratics unchanged', before)


for k in SOLVE:
    solver(k)


@contract('P16', 'penalty solve', ['regreg/problems/composite.py:nonsmooth.solve'], paths=600)
def nonsm(w):
    n = w.dim('n')
    A = AnyAtom(w, 'penalty', (n,))
    own = somequad(w, 'own quadratic', (n,), curved=[True])
    if own[0] is not None:
        A.quadratic = own[0]
    z = w.arr('z', (n,))
    opt = w.choice('optimum?', [False, True])
    for tag in ('first', 'second'):
        q = quad(w, tag, (n,), w.pos(tag + ' L'))
        before = w.snap(q[0].coef, q[0].constant_term, *[a for a in q[3] if a is not None and not isinstance(a, int)])
        A.asked = []
        out = A.solve(q[0], return_optimum=opt)
        w.true(tag + ': one proximal problem', len(A.asked) == 1)
        w.eq(tag + ': the quadratic asked for', A.asked[0].objective(z, 'grad') + 0 * z, q[1](z), tol=1e-9, scale=sc(w, q[1](z)))
        x = A.answer(A.asked[0])
        w.eq(tag + ': solution', out[1] if opt else out, x, tol=1e-9)
        if opt:
            w.eq(tag + ': optimum', out[0], A.val(x) + q[2](x), tol=1e-9, scale=sc(w, A.val(x), q[2](x)))
        w.eq(tag + ': own quadratic', A.quadratic.objective(z, 'func'), own[2](z), tol=1e-9, scale=sc(w, own[2](z)))
        w.unchanged(tag + ': quadratic unchanged', before)




def realsolve(kind):
    pre = {'simple': SOLVE['simple'][0], 'container': SOLVE['container'][0], 'loss': 'regreg/problems/composite.py:smooth.', 'separable': SOLVE['simple'][0]}[kind]

    @contract('P16', 'real ' + kind + ' problems', [pre + 'solve'], sym=False, cases=25)
    def run(w):
        """the solution under an extra quadratic is that of the objective by formula; data, own quadratic and later solutions unaffected"""
        import regreg.api as rr
        P = p14.Real(w, linear=False)
        g = w.rng
        if kind == 'loss':
            P.lam = 0.
            full = P.obj
            pr = P.loss
            loss0 = P.loss
        elif kind == 'simple':
            pr = rr.simple_problem(P.loss, P.atom())
        elif kind == 'container':
            pr = rr.container(P.loss, P.atom())
        else:
            pr = SE.separable_problem.singleton(P.atom(), P.loss)
        base = P.obj
        if kind == 'loss':
            norm = {'l1norm': lambda z: np.abs(z).sum(), 'l2norm': lambda z: np.sqrt((z * z).sum()), 'supnorm': lambda z: np.abs(z).max()}[P.pen]
            lam = w.record['problem']['lam']
            base = lambda x: full(x)
        X0, y0 = P.X.copy(), P.y.copy()
        q0 = (P.loss.quadratic.coef, np.array(P.loss.quadratic.linear_term))
        pts = [g.standard_normal(P.p) for _ in range(3)]
        v0 = [pr.objective(t) for t in pts]
        c, cen, lin, k = float(g.uniform(0, 2)), g.standard_normal(P.p), g.standard_normal(P.p), float(g.standard_normal())
        form = w.choice('extra', ['full', 'no center', 'linear only', 'zero', 'none'])
        mk = {'full': lambda: (iq(c, cen, lin, k), lambda x: c * ((x - cen) ** 2).sum() / 2 + (lin * x).sum() + k),
              'no center': lambda: (iq(c, None, lin, 0), lambda x: c * (x * x).sum() / 2 + (lin * x).sum()),
              'linear only': lambda: (iq(0, 0, lin, 0), lambda x: (lin * x).sum()),
              'zero': lambda: (iq(0, 0, 0, 0), lambda x: 0.), 'none': lambda: (None, lambda x: 0.)}[form]
        q, qv = mk()
        w.record['extra quadratic'] = dict(coef=c, center=cen.tolist(), linear=lin.tolist(), constant=k)
        first = None
        for rep in range(3):
            tag = 'solve %d' % (rep + 1)
            use = (q, qv) if rep != 1 else (None, lambda x: 0.)
            v, x = pr.solve(use[0], return_optimum=True, **p14.TIGHT)

            class R(object):
                pass
            R.p, R.obj = P.p, staticmethod(lambda t, f=use[1]: base(t) + f(t))
            x = np.array(x)
            best = p14.certify(w, tag, R, x)
            w.eq(tag + ': reported optimum', v, best, tol=1e-8, scale=1 + abs(best))
            if rep == 0:
                first = x
            if rep == 2:
                w.eq('solved again: same solution', x, first, tol=1e-4, scale=1 + np.abs(first).max())
            w.eq(tag + ': objective of the problem afterwards', [pr.objective(t) for t in pts], v0, tol=1e-12, scale=1 + max(map(abs, v0)))
            w.true(tag + ': data unchanged', np.array_equal(P.X, X0) and np.array_equal(P.y, y0))
            w.true(tag + ': quadratic of the loss unchanged', P.loss.quadratic.coef == q0[0] and np.array_equal(np.array(P.loss.quadratic.linear_term), q0[1]))
            if q is not None:
                w.true(tag + ': the extra quadratic unchanged', abs(q.objective(pts[0], 'func') - qv(pts[0])) < 1e-9 * (1 + abs(qv(pts[0]))))


for k in ('simple', 'container', 'loss', 'separable'):
    realsolve(k)
