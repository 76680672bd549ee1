"""P14: assembled problems have exactly the objective of their parts."""
import numpy as np
from pyvc.runner import contract
from pyvc.world import Skip
from pyvc import kernels
from contracts import zoo, affzoo
from contracts.problab import AnySmooth, AnyAtom, somequad, swapped, asked_for, sc, fun, noquad
from contracts.p07 import quad
from regreg.identity_quadratic import identity_quadratic as iq
import regreg.problems.simple as SI
import regreg.problems.container as CO
import regreg.problems.dual_problem as DU
import regreg.problems.separable as SE
import regreg.problems.newton as NE
import regreg.problems.admm as AD
import regreg.affine as AF
from regreg.atoms import affine_atom

SF, CF, DF, EF = ('regreg/problems/%s.py:' % f for f in ('simple', 'container', 'dual_problem', 'separable'))


def modes(w, name, obj, x, val, grad):
    v, g = obj.smooth_objective(x, 'both')
    s = sc(w, val, grad)
    w.eq(name + ': value', v, val, tol=1e-9, scale=s)
    w.eq(name + ': gradient', g, grad, tol=1e-9, scale=s)
    w.eq(name + ': value alone', obj.smooth_objective(x, 'func'), val, tol=1e-9, scale=s)
    w.eq(name + ': gradient alone', obj.smooth_objective(x, 'grad'), grad, tol=1e-9, scale=s)


def simple(kind):
    cls = {'simple_problem': SI.simple_problem, 'quasi_newton': NE.quasi_newton}[kind]
    f = 'regreg/problems/%s.py:%s.' % ('newton' if kind == 'quasi_newton' else 'simple', kind)

    @contract('P14', kind, [f + m for m in ('__init__', 'smooth_objective', 'nonsmooth_objective', 'proximal')] + ['regreg/problems/composite.py:composite.objective', 'regreg/problems/composite.py:composite.proximal_step'], paths=600)
    def run(w):
        shape = (w.dim('n'),)
        ql, qp = somequad(w, 'loss quadratic', shape), somequad(w, 'own quadratic', shape)
        q = quad(w, 'proximal', shape, w.pos('L'))
        L, A = AnySmooth(w, 'loss', shape, quadratic=ql[0]), AnyAtom(w, 'penalty', shape)
        if kind == 'quasi_newton':
            p = object.__new__(cls)
            p.smooth_atom, p.proximal_atom, p.quadratic = L, A, iq(0, 0, 0, 0)
        else:
            p = cls(L, A)
        if qp[0] is not None:
            p.quadratic = qp[0]
        x, z = w.arr('x', shape), w.arr('z', shape)
        modes(w, 'smooth part', p, x, L.val(x), L.grad(x))
        non = A.val(x) + ql[2](x) + qp[2](x)
        s = sc(w, non, L.val(x), ql[2](x), qp[2](x))
        w.eq('non-smooth part', p.nonsmooth_objective(x), non, tol=1e-9, scale=s)
        A.checked = []
        w.eq('non-smooth part with feasibility', p.nonsmooth_objective(x, check_feasibility=True), non, tol=1e-9, scale=s)
        w.true('feasibility is asked of the penalty', A.checked and all(A.checked))
        if kind == 'simple_problem':
            w.eq('objective', p.objective(x), L.val(x) + non, tol=1e-9, scale=s)
            A.asked = []
            r = p.proximal_step(q[0])
        else:
            r = p.proximal(q[0])
        w.true('one proximal problem', len(A.asked) == 1)
        total = lambda y: q[1](y) + ql[1](y) + qp[1](y)
        asked_for(w, 'the penalty is asked for the whole quadratic', A.asked[0], total, z)
        w.eq('the answer is the proximal step', r, A.answer(A.asked[0]), tol=1e-9)


simple('simple_problem')
simple('quasi_newton')


@contract('P14', 'problem from one part', [SF + 'simple_problem.smooth', SF + 'simple_problem.nonsmooth'], paths=600)
def onepart(w):
    shape = (w.dim('n'),)
    ql = somequad(w, 'loss quadratic', shape)
    q = quad(w, 'proximal', shape, w.pos('L'))
    x = w.arr('x', shape)
    L, A = AnySmooth(w, 'loss', shape, quadratic=ql[0]), AnyAtom(w, 'penalty', shape)
    p = SI.simple_problem.smooth(L)
    modes(w, 'smooth problem', p, x, L.val(x), L.grad(x))
    w.eq('smooth problem: objective', p.objective(x), L.val(x) + ql[2](x), tol=1e-9, scale=sc(w, L.val(x), ql[2](x)))
    r = p.proximal(q[0])
    w.eq('smooth problem: step solves', q[1](r) + ql[1](r), 0 * r, tol=1e-9, scale=sc(w, q[1](0 * r), ql[1](0 * r)))
    p = SI.simple_problem.nonsmooth(A)
    modes(w, 'non-smooth problem', p, x, 0., 0 * x)
    w.eq('non-smooth problem: objective', p.objective(x), A.val(x), tol=1e-9, scale=sc(w, A.val(x)))
    r = p.proximal(q[0])
    asked_for(w, 'non-smooth problem: step', A.asked[-1], q[1], x)
    w.eq('non-smooth problem: answer', r, A.answer(A.asked[-1]), tol=1e-9)


def parts(w, shape, few=False):
    """one to three losses with quadratics; few: fewer combinations in the symbolic runs"""
    if few and w.symbolic:
        k = w.choice('losses', [1, 2])
        qs = [somequad(w, 'quadratic %d' % i, shape, curved=[True], present=[True] if i else [True, False]) for i in range(k)]
    else:
        k = w.choice('losses', [1, 2, 3])
        qs = [somequad(w, 'quadratic %d' % i, shape) if i < 2 else noquad() for i in range(k)]
    return [AnySmooth(w, 'loss%d' % i, shape, quadratic=q[0]) for i, q in enumerate(qs)], qs


@contract('P14', 'container objective', [CF + 'container.' + m for m in ('__init__', 'smooth_objective', 'nonsmooth_objective')] + [DF + 'stacked_dual'], paths=1500)
def contobj(w):
    n, m = w.dim('n'), w.dim('m')
    shape = (n,)
    Ls, qs = parts(w, shape)
    As = [AnyAtom(w, 'penalty', shape)]
    x = w.arr('x', shape)
    vals = As[0].val(x)
    if w.choice('linear penalty?', [True, False]):
        T = affzoo.Abstract(w, 'D', shape, (m,))
        a = zoo.ALL['l1norm'](w) if not w.symbolic else None
        B = Affine(w, AnyAtom(w, 'second', (m,)), T)
        As.append(B)
        vals = vals + B.atom.val(T.affine_map(x))
    parts_ = Ls + As
    if w.choice('order', ['losses first', 'penalties first']) == 'penalties first':
        parts_ = As + Ls
    c = CO.container(*parts_)
    qp = somequad(w, 'own quadratic', shape)
    if qp[0] is not None:
        c.quadratic = qp[0]
    modes(w, 'smooth part', c, x, sum(L.val(x) for L in Ls), sum(L.grad(x) for L in Ls))
    non = vals + sum(q[2](x) for q in qs) + qp[2](x)
    s = sc(w, non, *[L.val(x) for L in Ls])
    w.eq('non-smooth part', c.nonsmooth_objective(x), non, tol=1e-9, scale=s)
    w.eq('objective', c.objective(x), sum(L.val(x) for L in Ls) + non, tol=1e-9, scale=s)
    for a in As:
        (a.atom if isinstance(a, affine_atom) else a).checked = []
    c.nonsmooth_objective(x, check_feasibility=True)
    w.true('feasibility is asked of the penalties', all((a.atom if isinstance(a, affine_atom) else a).checked in ([True], [True, True]) for a in As))


class Affine(affine_atom):
    """affine_atom over an abstract transform and an abstract penalty: the
    offset stays in the transform (affine_atom itself is under contract in P02 and P05)"""

    def __init__(self, w, a, T):
        self.w, self.atom, self.T = w, a, T
        self.linear_transform = T
        self.input_shape, self.output_shape = T.input_shape, T.output_shape

    def nonsmooth_objective(self, x, check_feasibility=False):
        return self.atom.nonsmooth_objective(self.T.affine_map(x), check_feasibility=check_feasibility)

    dual = property(lambda s: (s.linear_transform, s.atom.conjugate))


@contract('P14', 'container proximal', [CF + 'container.proximal'], paths=1500)
def contprox(w):
    shape = (w.dim('n'),)
    Ls, qs = parts(w, shape)
    A = AnyAtom(w, 'penalty', shape)
    c = CO.container(*(Ls + [A]))
    qp = somequad(w, 'own quadratic', shape)
    if qp[0] is not None:
        c.quadratic = qp[0]
    q = quad(w, 'proximal', shape, w.pos('L'))
    z = w.arr('z', shape)
    A.asked = []
    r = c.proximal(q[0])
    w.true('one proximal problem', len(A.asked) == 1)
    asked_for(w, 'the penalty is asked for the whole quadratic', A.asked[0], lambda y: q[1](y) + qp[1](y) + sum(t[1](y) for t in qs), z)
    w.eq('the answer is the proximal step', r, A.answer(A.asked[0]), tol=1e-9)


class Solver(object):
    """FISTA by contract: it minimises the composite it is given; here it leaves
    its answer in composite.coefs"""
    log = []
    step = 1.

    def __init__(self, composite):
        self.composite = composite

    def fit(self, **kw):
        w = Solver.w
        Solver.log.append(self.composite)
        self.composite.coefs = w.arr('dual solution', self.composite.shape if hasattr(self.composite, 'shape') else self.composite.coefs.shape)


@contract('P14', 'container proximal through the dual', [CF + 'container.proximal', DF + 'dual_problem.__init__', DF + 'dual_problem.smooth_objective', DF + 'dual_problem.nonsmooth_objective', DF + 'dual_problem.proximal'], paths=1500,
          note='FISTA and power_L by contract; identity between the step and the dual solution')
def contdual(w):
    """the step x belongs to the dual solution u: the whole quadratic's gradient at x is
    -D'u, and the problem given to the solver has gradient -Dx at u and the conjugate
    penalty as its non-smooth part (so the Fenchel condition of u is that of x)"""
    n, m = w.dim('n'), w.dim('m')
    shape = (n,)
    Ls, qs = parts(w, shape, few=True)
    T = affzoo.Abstract(w, 'D', shape, (m,), off=False)
    B = Affine(w, AnyAtom(w, 'penalty', (m,)), T)
    two = w.choice('second penalty?', [True, False])
    extra = [AnyAtom(w, 'other', shape)] if two else []
    c = CO.container(*(Ls + [B] + extra))
    qp = somequad(w, 'own quadratic', shape, curved=[True])
    if qp[0] is not None:
        c.quadratic = qp[0]
    q = quad(w, 'proximal', shape, w.pos('L'), sym=['array'])
    Solver.w, Solver.log = w, []
    with swapped((CO.container, 'default_solver', Solver), (CO, 'power_L', lambda T, debug=False: w.pos('norm of D'))):
        x = c.proximal(q[0])
    w.true('one dual problem solved', len(Solver.log) == 1)
    d = Solver.log[0]
    u = w.copy(d.coefs)
    total = q[1](x) + qp[1](x) + sum(t[1](x) for t in qs)
    du = T.adjoint_map(u[:m]) + u[m:] if two else T.adjoint_map(u)
    s = sc(w, u, x, T.A) ** 2 if not w.symbolic else None
    w.eq('the step belongs to the dual solution', total, -du, tol=1e-9, scale=s)
    Dx = T.linear_map(x)
    g = d.smooth_objective(u, 'grad')
    w.eq('gradient of the dual problem', g[:m] if two else g, -Dx, tol=1e-9, scale=s)
    if two:
        w.eq('gradient of the dual problem, second penalty', g[m:], -x, tol=1e-9, scale=s)
    v = w.arr('v', d.coefs.shape)
    want = B.atom.conjugate.val(v[:m]) + extra[0].conjugate.val(v[m:]) if two else B.atom.conjugate.val(v)
    w.eq('non-smooth part of the dual problem', d.nonsmooth_objective(v), want, tol=1e-9)


@contract('P14', 'dual problem', [DF + 'dual_problem.' + m for m in ('__init__', 'smooth_objective', 'nonsmooth_objective', 'proximal')], paths=1500)
def dualp(w):
    n, m = w.dim('n'), w.dim('m')
    T = affzoo.Abstract(w, 'D', (n,), (m,), off=False)
    qf, qp = somequad(w, 'quadratic of f*', (n,)), somequad(w, 'own quadratic', (m,))
    F, G = AnySmooth(w, 'f*', (n,), quadratic=qf[0]), AnyAtom(w, 'g*', (m,))
    d = DU.dual_problem(F, T, G)
    u, z = w.arr('u', (m,)), w.arr('z', (m,))
    if qp[0] is not None:
        d.quadratic = qp[0]
    at = -T.adjoint_map(u)
    val, g = F.val(at) + qf[2](at), F.grad(at) + qf[1](at)
    modes(w, 'smooth part', d, u, val, -T.linear_map(g))
    s = sc(w, val, G.val(u), qp[2](u), g, qf[1](at))
    w.eq('primal point', d.primal, g, tol=1e-9, scale=s)
    w.eq('non-smooth part', d.nonsmooth_objective(u), G.val(u) + qp[2](u), tol=1e-9, scale=s)
    w.eq('objective', d.objective(u), val + G.val(u) + qp[2](u), tol=1e-9, scale=s)
    q = quad(w, 'proximal', (m,), w.pos('L'))
    r = d.proximal(q[0])
    asked_for(w, 'the step', G.asked[-1], lambda y: q[1](y) + qp[1](y), z)
    w.eq('the answer', r, G.answer(G.asked[-1]), tol=1e-9)


@contract('P14', 'separable', [EF + 'separable.' + m for m in ('__init__', 'seminorm', 'constraint', 'nonsmooth_objective', 'proximal', 'conjugate')], paths=1500)
def sep(w):
    n1, n2, n3 = w.dim('n1'), w.dim('n2'), w.dim('n3', lo=0)
    n = n1 + n2 + n3
    A, B = AnyAtom(w, 'first', (n1,)), AnyAtom(w, 'second', (n2,))
    if w.choice('order', ['in order', 'swapped']) == 'in order':
        ga, gb = slice(0, n1), slice(n1, n1 + n2)
    else:
        gb, ga = slice(0, n2), slice(n2, n2 + n1)
    P = SE.separable((n,), [A, B], [ga, gb])
    x, z = w.arr('x', (n,)), w.arr('z', (n,))
    w.eq('non-smooth part', P.nonsmooth_objective(x), A.val(x[ga]) + B.val(x[gb]), tol=1e-9, scale=sc(w, A.val(x[ga]), B.val(x[gb])))
    w.eq('seminorm', P.seminorm(x), A.seminorm(x[ga]) + B.seminorm(x[gb]), tol=1e-9, scale=sc(w, A.seminorm(x[ga]), B.seminorm(x[gb])))
    w.eq('constraint', P.constraint(x), A.constraint(x[ga]) + B.constraint(x[gb]), tol=1e-9, scale=sc(w, A.constraint(x[ga]), B.constraint(x[gb])))
    q = quad(w, 'proximal', (n,), w.pos('L'))
    r = P.proximal(q[0])
    for nm, a, g in (('first', A, ga), ('second', B, gb)):
        asked_for(w, nm + ' penalty: restricted quadratic', a.asked[-1], lambda y: q[1](embed(w, z, y, g))[g], z[g])
        w.eq(nm + ' penalty: answer', r[g], a.answer(a.asked[-1]), tol=1e-9)
    w.eq('uncovered coordinates', q[1](r)[n1 + n2:], 0 * r[n1 + n2:], tol=1e-9, scale=sc(w, q[1](0 * r)))
    C = P.conjugate
    w.eq('conjugate', C.nonsmooth_objective(x), A.conj.val(x[ga]) + B.conj.val(x[gb]), tol=1e-9, scale=sc(w, A.conj.val(x[ga]), B.conj.val(x[gb])))


def embed(w, z, y, g):
    r = w.copy(z)
    r[g] = y
    return r


AM = 'regreg/problems/admm.py:admm_problem.'


@contract('P14', 'admm steps', [AM + m for m in ('__init__', 'update_loss_coefs', 'update_atom_coefs', 'update_dual_coefs', 'solve')], paths=1500, note='FISTA by contract')
def admm(w):
    """each step minimises the augmented Lagrangian of loss(x) + penalty(Dx + alpha) + quadratic"""
    import regreg.problems.composite as CM
    n, m = w.dim('n'), w.dim('m')
    ql = somequad(w, 'loss quadratic', (n,), curved=[True])
    qo = somequad(w, 'own quadratic', (n,), curved=[True])
    L, A = AnySmooth(w, 'loss', (n,), quadratic=ql[0]), AnyAtom(w, 'penalty', (m,))
    T = affzoo.Abstract(w, 'D', (n,), (m,))
    rho = w.pos('rho')
    p = AD.admm_problem(L, A, T, rho, quadratic=qo[0])
    x0, y0, z0 = w.arr('x0', (n,)), w.arr('y0', (m,)), w.arr('z0', (m,))
    p.loss_coefs, p.dual_coefs, p.atom_coefs = w.copy(x0), w.copy(y0), w.copy(z0)
    t, v = w.arr('t', (n,)), w.arr('v', (m,))
    seen = []

    class Probe(object):
        def __init__(self, c):
            self.c = c

        def fit(self, **kw):
            c = self.c
            seen.append((c.smooth_objective(t, 'grad') + c.quadratic.objective(t, 'grad'), c.smooth_objective(t, 'func') + c.nonsmooth_objective(t)))
            c.coefs = w.arr('minimiser', (n,))
    with swapped((CM, 'FISTA', Probe)):
        p.solve(niter=1)
    s = sc(w, T.A, t, y0, z0, v, T.offset if hasattr(T, 'offset') and T.offset is not None else t) ** 3 * (1 + rho) if not w.symbolic else None
    w.true('one smooth problem solved', len(seen) == 1)
    xn = p.loss_coefs
    aff = lambda x: T.affine_map(x)
    want = L.grad(t) + ql[1](t) + qo[1](t) + T.adjoint_map(y0) + rho * T.adjoint_map(aff(t) - z0)
    w.eq('smooth step: gradient of the augmented Lagrangian', seen[0][0], want, tol=1e-9, scale=s)
    asked_for(w, 'penalty step: gradient of the augmented Lagrangian', A.asked[-1], lambda y: rho * (y - aff(xn)) - y0, v)
    w.eq('penalty step: its answer', p.atom_coefs, A.answer(A.asked[-1]), tol=1e-9)
    w.eq('multiplier step', p.dual_coefs, y0 + rho * (aff(xn) - p.atom_coefs), tol=1e-9, scale=s)


@contract('P14', 'quasi-Newton subproblem', ['regreg/problems/newton.py:quasi_newton.' + m for m in ('__init__', 'solve_inner_loop')], paths=600, note='FISTA by contract')
def qnewton(w):
    n = w.dim('n')
    ql, qo = somequad(w, 'loss quadratic', (n,), curved=[True]), somequad(w, 'own quadratic', (n,), curved=[True])
    L, A = AnySmooth(w, 'loss', (n,), quadratic=ql[0]), AnyAtom(w, 'penalty', (n,))
    H = w.mat('H', n, n)
    p = NE.quasi_newton(L, A, H + H.T, quadratic=qo[0])
    x0, z = w.arr('x0', (n,)), w.arr('z', (n,))
    p.coefs = w.copy(x0)
    seen = []

    class Probe(object):
        step = 1.

        def __init__(self, c):
            self.composite = c

        def fit(self, **kw):
            c = self.composite
            A.asked = []
            q = iq(1, 0, 0, 0)
            c.proximal(q)
            seen.append((c.smooth_objective(z, 'grad'), A.asked[-1].objective(z, 'grad') - z))
            c.coefs = w.arr('minimiser', (n,))
    with swapped((SI, 'FISTA', Probe)):
        d, g, s = p.solve_inner_loop()
    w.true('one problem solved', len(seen) == 1)
    B = p.hessian
    got = seen[0][0] + seen[0][1]
    want = L.grad(x0) + w.np.dot(B, z - x0) + ql[1](z) + qo[1](z)
    w.eq('gradient of the subproblem', got, want, tol=1e-9, scale=sc(w, H, z, x0) ** 2 if not w.symbolic else None)
    w.eq('step', d, s - x0, tol=1e-9)
    w.eq('gradient of the loss', g, L.grad(x0), tol=1e-9)


@contract('P14', 'numerical conjugate', ['regreg/problems/conjugate.py:conjugate.' + m for m in ('__init__', 'smooth_objective')], paths=900, note='FISTA by contract')
def conj(w):
    """value and gradient of the conjugate, in terms of the minimiser of f(z) + q(z) - <v, z>"""
    from regreg.problems.conjugate import conjugate
    n = w.dim('n')
    smooth = w.choice('atom', ['smooth', 'penalty']) == 'smooth'
    q = quad(w, 'quadratic', (n,), w.pos('L'))
    ql = somequad(w, 'loss quadratic', (n,), curved=[True]) if smooth else noquad()
    F = AnySmooth(w, 'f', (n,), quadratic=ql[0]) if smooth else AnyAtom(w, 'f', (n,))
    neg = w.choice('negate', [False, True])
    C = conjugate(F, quadratic=q[0], negate=neg)
    F = C.atom
    x, z = w.arr('x', (n,)), w.arr('z', (n,))
    v = -x if neg else x
    seen = []

    class Probe(object):
        step = 1.

        def __init__(self, c):
            self.composite = c

        def fit(self, **kw):
            c = self.composite
            seen.append((c.smooth_objective(z, 'grad') + c.quadratic.objective(z, 'grad') + c.smooth_atom.quadratic.objective(z, 'grad'), c.objective(z)))
            c.coefs = fun(w, 'minimiser', (n,), *[1. * a for a in (v,)])
    before = w.snap(q[0].coef, *[a for a in q[3] if a is not None and not isinstance(a, int)])
    F.asked = []
    with swapped((SI, 'FISTA', Probe)):
        val, g = C.smooth_objective(x, 'both')
        g2 = C.smooth_objective(x, 'grad')
        val2 = C.smooth_objective(x, 'func')
    want = lambda t: q[1](t) - v + (F.grad(t) + ql[1](t) if smooth else 0)
    s = None if w.symbolic else sc(w, want(z), x, z) ** 2 + abs(val)
    if smooth:
        w.true('three problems solved', len(seen) == 3)
        w.eq('gradient of the problem solved', seen[0][0], want(z), tol=1e-9, scale=s)
        mz = fun(w, 'minimiser', (n,), v)
        fm = F.val(mz) + ql[2](mz)
    else:
        asked_for(w, 'the proximal problem', F.asked[0], want, z)
        mz = F.answer(F.asked[0])
        fm = F.val(mz)
    if not w.symbolic:
        s = s + abs(fm) + abs(q[2](mz)) + abs((v * mz).sum())
    w.eq('value', val, (v * mz).sum() - fm - q[2](mz), tol=1e-9, scale=s)
    w.eq('value alone', val2, val, tol=1e-9, scale=s)
    w.eq('gradient', g, -mz if neg else mz, tol=1e-9)
    w.eq('gradient alone', g2, g, tol=1e-9)
    w.unchanged('quadratic unchanged', before)


# -- real parts: all forms of one problem attain the same optimum (bounded) --

class Real(object):
    """a strongly convex loss and a penalty of a linear map, with their objective by formula"""

    def __init__(self, w, linear=True):
        import regreg.api as rr
        g = w.rng
        n, p = int(g.integers(3, 9)), int(g.integers(1, 5))
        X = w.arr('X', (n, p)) if g.random() < .3 else g.standard_normal((n, p))
        X = np.clip(X, -3, 3)
        y = g.standard_normal(n)
        kind = w.choice('loss', ['gaussian', 'logistic', 'huber'])
        cw = g.integers(1, 3, n).astype(float)
        mk = {'gaussian': lambda: rr.glm.gaussian(X, y, case_weights=cw), 'logistic': lambda: rr.glm.logistic(X, (y > 0).astype(float), case_weights=cw), 'huber': lambda: rr.glm.huber(X, y, 1., case_weights=cw)}
        f = {'gaussian': lambda e: (cw * (y - e) ** 2).sum() / 2, 'logistic': lambda e: (cw * (np.logaddexp(0, e) - (y > 0) * e)).sum(), 'huber': lambda e: (cw * hub(y - e)).sum()}[kind]
        c, lin = float(g.uniform(.5, 2)), g.standard_normal(p)
        self.quadratic = iq(c, 0, lin, 0)
        self.loss = mk[kind]()
        self.loss.quadratic = self.quadratic
        self.X, self.y, self.p, self.lam = X, y, p, float(g.choice([0., .1, 1., 10.]))
        if linear:
            m = int(g.integers(1, 5))
            self.D = g.standard_normal((m, p))
            self.alpha = g.standard_normal(m) if g.random() < .5 else None
        else:
            m, self.D, self.alpha = p, np.identity(p), None
        self.m = m
        self.pen = w.choice('penalty', ['l1norm', 'l2norm', 'supnorm'])
        norm = {'l1norm': lambda z: np.abs(z).sum(), 'l2norm': lambda z: np.sqrt((z * z).sum()), 'supnorm': lambda z: np.abs(z).max()}[self.pen]
        a = 0 if self.alpha is None else self.alpha
        self.obj = lambda x: f(X.dot(x)) + c * (x * x).sum() / 2 + (lin * x).sum() + self.lam * norm(self.D.dot(x) + a)
        self.cls = getattr(rr, self.pen)
        w.record['problem'] = dict(loss=kind, X=X.tolist(), y=y.tolist(), weights=cw.tolist(), coef=c, linear=lin.tolist(), lam=self.lam, D=self.D.tolist(), alpha=None if self.alpha is None else self.alpha.tolist(), penalty=self.pen)

    def atom(self):
        return self.cls((self.m,), lagrange=self.lam)

    def affine(self):
        import regreg.api as rr
        T = rr.affine_transform(self.D, self.alpha)
        return affine_atom(self.atom(), T)


def hub(r):
    a = np.abs(r)
    return np.where(a <= 1, r * r / 2, a - .5)


def certify(w, name, P, x, rel=1e-5):
    """no nearby point does better (the objective is convex: local is global)"""
    v = P.obj(x)
    s = 1 + abs(v)
    worst = 0.
    for r in (1e-1, 1e-2, 3e-3):
        for _ in range(12):
            d = w.rng.standard_normal(P.p)
            worst = max(worst, v - P.obj(x + r * d / max(np.linalg.norm(d), 1e-9)))
    for t in (.1, .5, 1.):
        worst = max(worst, v - P.obj((1 - t) * x))
    w.le(name + ': no nearby point is better', worst, 0., scale=s, tol=rel)
    return v


TIGHT = dict(tol=1e-12, min_its=30, max_its=3000)


@contract('P14', 'forms of a problem', [SF + 'simple_problem.solve', SF + 'gengrad', CF + 'container.solve', EF + 'separable_problem.__init__', EF + 'separable_problem.singleton', EF + 'separable_problem.fromatom'], sym=False, cases=25)
def forms(w):
    """simple, container, separable and generalised gradient forms attain the minimum of the objective by formula"""
    P = Real(w, linear=False)
    import regreg.api as rr
    pr = rr.simple_problem(P.loss, P.atom())
    v, x = pr.solve(return_optimum=True, **TIGHT)
    best = certify(w, 'simple', P, x)
    s = 1 + abs(best)
    w.eq('simple: reported optimum', v, best, tol=1e-8, scale=s + const(P))
    c = rr.container(P.loss, P.atom())
    v, x = c.solve(return_optimum=True, **TIGHT)
    w.eq('container: optimum', P.obj(x), best, tol=1e-6, scale=s)
    w.eq('container: reported optimum', v, P.obj(x), tol=1e-8, scale=s)
    x = SE.separable_problem.singleton(P.atom(), P.loss).solve(**TIGHT)
    w.eq('separable: optimum', P.obj(x), best, tol=1e-6, scale=s)
    k = P.p // 2
    if 0 < k and P.pen == 'l1norm':
        parts_ = [P.cls((k,), lagrange=P.lam), P.cls((P.p - k,), lagrange=P.lam)]
        sp = SE.separable_problem(P.loss, (P.p,), parts_, [slice(0, k), slice(k, P.p)])
        v, x = sp.solve(return_optimum=True, **TIGHT)
        w.eq('separable, two parts: optimum', P.obj(x), best, tol=1e-6, scale=s)
        w.eq('separable, two parts: reported optimum', v, best, tol=1e-6, scale=s)
        x = SE.separable_problem.fromatom(sp.proximal_atom, P.loss).solve(**TIGHT)
        w.eq('separable, from an atom: optimum', P.obj(x), best, tol=1e-6, scale=s)
    pr = rr.simple_problem(P.loss, P.atom())
    L = np.linalg.norm(P.X, 2) ** 2 * 2 + 2
    x = SI.gengrad(pr, L, tol=1e-13, max_its=5000)
    w.eq('generalised gradient: optimum', P.obj(x), best, tol=1e-5, scale=s)


def const(P):
    return 0.


@contract('P14', 'forms with a linear map', [CF + 'container.solve', DF + 'stacked_dual', AM + 'solve', SF + 'nesta'], sym=False, cases=10)
def lforms(w):
    """container, ADMM and smoothing forms of a penalty of a linear map attain the same minimum"""
    P = Real(w)
    import regreg.api as rr
    c = rr.container(P.loss, P.affine())
    v, x = c.solve(return_optimum=True, tol=1e-10, min_its=20, max_its=300)
    best = certify(w, 'container', P, x, 1e-4)
    s = 1 + abs(best)
    w.eq('container: reported optimum', v, best, tol=1e-8, scale=s)
    a = AD.admm_problem(P.loss, P.atom(), rr.affine_transform(P.D, P.alpha), 1., fit_args=dict(tol=1e-10, min_its=5, max_its=200))
    a.solve(niter=200)
    w.eq('split form: optimum', P.obj(a.loss_coefs), best, tol=1e-3, scale=s)


@contract('P14', 'dual form', [DF + 'dual_problem.fromprimal', DF + 'dual_problem.solve', 'regreg/smooth/quadratic.py:quadratic_loss.get_conjugate'], sym=False, cases=40)
def dforms(w):
    """the dual of a quadratic loss plus a penalty of a linear map: the primal point it returns is optimal and the optimal values are opposite"""
    import regreg.api as rr
    from regreg.smooth.quadratic import quadratic_loss
    P = Real(w)
    g = w.rng
    a = float(g.uniform(.5, 2))
    q = g.uniform(.5, 2, P.p)
    off = g.standard_normal(P.p) if w.choice('offset?', [True, False]) else None
    lin = g.standard_normal(P.p) if w.choice('linear?', [True, False]) else np.zeros(P.p)
    loss = quadratic_loss((P.p,), coef=a, Q=q, Qdiag=True, offset=off, quadratic=iq(0, 0, lin, .5) if np.any(lin) else None)
    o = 0 if off is None else off
    norm = {'l1norm': lambda z: np.abs(z).sum(), 'l2norm': lambda z: np.sqrt((z * z).sum()), 'supnorm': lambda z: np.abs(z).max()}[P.pen]
    al = 0 if P.alpha is None else P.alpha
    P.obj = lambda x: a * (q * (x - o) ** 2).sum() / 2 + (lin * x).sum() + (.5 if np.any(lin) else 0) + P.lam * norm(P.D.dot(x) + al)
    w.record['dual case'] = dict(a=a, q=q.tolist(), offset=None if off is None else off.tolist(), linear=lin.tolist())
    d = DU.dual_problem.fromprimal(loss, P.affine())
    v, x = d.solve(return_optimum=True, **TIGHT)
    best = certify(w, 'dual', P, x, 1e-4)
    w.eq('the optimal values are opposite', v, -best, tol=1e-4, scale=1 + abs(best))
    c = rr.container(loss, P.affine())
    x = c.solve(tol=1e-10, min_its=20, max_its=200)
    w.eq('container: optimum', P.obj(x), best, tol=1e-4, scale=1 + abs(best))


@contract('P14', 'selected coordinates', [CF + 'container.proximal', CF + 'is_restriction'], sym=False, cases=60)
def selected(w):
    """penalty of selected (and possibly transformed) coordinates: the proximal step of the container solves its problem"""
    import regreg.api as rr
    g = w.rng
    p = int(g.integers(2, 7))
    kind = w.choice('index', ['slice', 'array', 'mask', 'repeated'])
    idx = {'slice': slice(int(g.integers(0, p // 2)), int(g.integers(p // 2 + 1, p + 1))), 'array': g.permutation(p)[:max(1, p // 2)], 'mask': np.arange(p) % 2 == 0, 'repeated': np.array([0, 0, 1])}[kind]
    m = np.empty(p)[idx].shape[0]
    inner = w.choice('inner map', ['none', 'matrix', 'reshape'])
    D = np.identity(p)[idx]
    lam = float(g.uniform(.1, 2))
    if inner == 'matrix':
        M = g.standard_normal((int(g.integers(1, 4)), m))
        T = AF.selector(idx, (p,), rr.astransform(M))
        D = M.dot(D)
    elif inner == 'reshape':
        T = AF.selector(idx, (p,), reshape=(m, 1))
    else:
        T = AF.selector(idx, (p,))
    atom = rr.l1norm(T.output_shape, lagrange=lam)
    L = AnySmooth(w, 'loss', (p,), quadratic=iq(1., 0, 0, 0) if g.random() < .5 else None)
    c = rr.container(L, rr.linear_atom(atom, T)) if hasattr(rr, 'linear_atom') else rr.container(L, affine_atom(atom, T))
    Lq, cen, lin = float(g.uniform(.5, 3)), g.standard_normal(p), g.standard_normal(p)
    w.record['case'] = dict(index=str(idx), D=D.tolist(), lam=lam, coef=Lq, center=cen.tolist(), linear=lin.tolist())
    x = c.proximal(iq(Lq, cen, lin, 0))
    own = 1. if L.quadratic.coef == 1 else 0.

    class P(object):
        pass
    P.p = p
    P.obj = staticmethod(lambda z: Lq * ((z - cen) ** 2).sum() / 2 + (lin * z).sum() + own * (z * z).sum() / 2 + lam * np.abs(D.dot(z)).sum())
    certify(w, 'step', P, x, 1e-6)


@contract('P14', 'penalties only', [CF + 'container.__init__'], sym=False, cases=40)
def nonly(w):
    """a container of penalties only"""
    import regreg.api as rr
    g = w.rng
    p = int(g.integers(1, 6))
    l1, l2 = float(g.uniform(0, 2)), float(g.uniform(0, 2))
    two = w.choice('two?', [True, False])
    c = rr.container(*([rr.l1norm((p,), lagrange=l1)] + ([rr.l2norm((p,), lagrange=l2)] if two else [])))
    x = w.vec('x', p)
    p = x.shape[0]
    c = rr.container(*([rr.l1norm((p,), lagrange=l1)] + ([rr.l2norm((p,), lagrange=l2)] if two else [])))
    val = lambda z: l1 * np.abs(z).sum() + (l2 * np.sqrt((z * z).sum()) if two else 0)
    w.eq('objective', c.objective(x), val(x), tol=1e-9, scale=1 + val(x))
    Lq, cen = float(g.uniform(.5, 3)), g.standard_normal(p)
    z = c.proximal(iq(Lq, cen, 0, 0))

    class P(object):
        pass
    P.p = p
    P.obj = staticmethod(lambda z: Lq * ((z - cen) ** 2).sum() / 2 + val(z))
    certify(w, 'step', P, z, 1e-6)


@contract('P14', 'separable shapes and groups', [EF + 'separable.' + m for m in ('nonsmooth_objective', 'proximal')], sym=False, cases=60)
def sepshapes(w):
    """groups given as index arrays, masks or slices of a matrix, parts with their own shapes"""
    import regreg.api as rr
    g = w.rng
    p = int(g.integers(4, 9))
    perm = g.permutation(p)
    k = int(g.integers(1, p - 1))
    groups = {'arrays': [perm[:k], perm[k:]], 'masks': [np.arange(p) < k, np.arange(p) >= k], 'slices': [slice(0, k), slice(k, None)]}[w.choice('groups', ['arrays', 'masks', 'slices'])]
    shapes = w.choice('shapes', ['flat', 'column'])
    lams = g.uniform(.1, 2, 2)
    sh = [(k, 1), (p - k, 1)] if shapes == 'column' else None
    atoms = [rr.l2norm(sh[0] if sh else (k,), lagrange=lams[0]), rr.l1norm(sh[1] if sh else (p - k,), lagrange=lams[1])]
    S = SE.separable((p,), atoms, groups, shapes=sh if sh else [], test_for_overlap=True)
    x = g.standard_normal(p) * g.choice([0., 1., 3.])
    val = lambda z: lams[0] * np.sqrt((z[groups[0]] ** 2).sum()) + lams[1] * np.abs(z[groups[1]]).sum()
    w.record['case'] = dict(groups=[str(a) for a in groups], lams=lams.tolist(), x=x.tolist(), shapes=shapes)
    before = x.copy()
    w.eq('objective', S.nonsmooth_objective(x), val(x), tol=1e-9, scale=1 + val(x))
    w.true('argument unchanged', np.array_equal(x, before) and x.shape == before.shape)
    Lq, cen, lin = float(g.uniform(.5, 3)), g.standard_normal(p), g.standard_normal(p)
    z = S.proximal(iq(Lq, cen, lin, 0))

    class P(object):
        pass
    P.p = p
    P.obj = staticmethod(lambda z: Lq * ((z - cen) ** 2).sum() / 2 + (lin * z).sum() + val(z))
    certify(w, 'step', P, z, 1e-6)
