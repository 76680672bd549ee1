"""P21: linear-constraint atoms project exactly on the subspace they name"""
import numpy as np
from pyvc.runner import contract
from contracts import p07
from regreg.atoms import linear_constraints as LC
from regreg.identity_quadratic import identity_quadratic as iq

F = 'regreg/atoms/linear_constraints.py:'
CLS = {'projection': (LC.projection, False), 'projection_complement': (LC.projection_complement, True)}


class Space(object):
    """subspace named by the atom: span of the rows of B, or its complement"""

    def __init__(self, w, name):
        self.w = w
        self.cls, self.comp = CLS[name]
        self.other = [c for c, _ in CLS.values() if c is not self.cls][0]
        self.n = w.dim('n', lo=1)
        self.k = w.dim('k', lo=0, hi=6)
        w.assume(self.k <= self.n)
        self.B = w.orthonormal('B', self.k, self.n)
        self.shape = (self.n,)

    def span(self, x):
        return self.w.np.dot(self.w.np.dot(self.B, x), self.B)

    def on(self, x):
        """orthogonal projection on the subspace"""
        return x - self.span(x) if self.comp else self.span(x)

    def off(self, x):
        return x - self.on(x)

    def make(self, **k):
        return self.cls(self.shape, self.B, **k)


def make(name):
    @contract('P21', name + ' cone_prox', [F + name + '.cone_prox'])
    def cone_prox(w):
        S = Space(w, name)
        a = S.make()
        v = w.vec('v', S.n)
        z = S.on(w.vec('z', S.n))
        snap = w.snap(v, S.B)
        u = a.cone_prox(v)
        w.true('shape', tuple(u.shape) == tuple(v.shape))
        w.eq('in the subspace', S.off(u), 0 * v, scale=abs(v))
        w.eq('residual orthogonal to every vector of the subspace', ((v - u) * z).sum(), 0, scale=(v * v).sum() + (z * z).sum())
        w.eq('vectors of the subspace are fixed', a.cone_prox(z), z)
        w.eq('any curvature', a.cone_prox(v, lipschitz=w.pos('L')), u)
        w.eq('complementary projections sum to the identity', u + S.other(S.shape, S.B).cone_prox(v), v)
        w.unchanged('argument and basis unchanged', snap)

    @contract('P21', name + ' constraint', [F + name + '.constraint', 'regreg/atoms/cones.py:cone.nonsmooth_objective'])
    def constraint(w):
        S = Space(w, name)
        off = w.vec('offset', S.n) if w.choice('offset?', [True, False]) else None
        a = S.make(offset=off)
        o = 0 if off is None else off
        z = S.on(w.vec('z', S.n))
        y = w.vec('y', S.n)
        res = S.off(y)
        snap = w.snap(z, y, S.B)
        # float rounding stays below the tolerance of the membership test
        if not w.symbolic:
            w.assume(np.fabs(z).max() < 1e6)
        w.eq('zero on the subspace', a.constraint(z), 0)
        if off is None or w.symbolic or np.linalg.norm(off) <= 1e4:
            w.eq('objective zero on the shifted subspace', a.nonsmooth_objective(z + o, check_feasibility=True), 0)
        nr = w.np.linalg.norm
        w.assume(nr(res) > 1.001e-5 * nr(y))
        w.assume(nr(res) > 1.001e-5)
        w.true('infinite off the subspace', w.isinf(a.constraint(y)))
        if off is None or w.symbolic or np.linalg.norm(off) <= 1e3 * nr(res):
            w.true('objective infinite off the shifted subspace', w.isinf(a.nonsmooth_objective(y + o, check_feasibility=True)))
        w.unchanged('arguments unchanged', snap)

    @contract('P21', name + ' proximal', [F + name + '.proximal', F + name + '.cone_prox', 'regreg/atoms/cones.py:cone.proximal'], paths=3000)
    def proximal(w):
        S = Space(w, name)
        off, q1, q2 = p07.setting(w, S)
        a = p07.build(w, S, off, q1)
        st = p07.state(w, off, q1, q2) + w.snap(S.B)
        p = a.proximal(q2[0])
        y = p if off is None else p - off
        g = p07.total(q1, q2)(p)
        sc = p07.sizes(w, p, off, q1, q2)
        w.eq('feasible', S.off(y), 0 * p, scale=sc)
        w.eq('gradient of the quadratics normal to the subspace', S.on(g), 0 * p, scale=sc)
        w.unchanged('offset, quadratics, basis unchanged', st)

    @contract('P21', name + ' conjugate', [F + 'linear_constraint.get_conjugate', F + name + '.get_conjugate', 'regreg/atoms/cones.py:cone.get_dual'])
    def conjugate(w):
        S = Space(w, name)
        off = w.vec('offset', S.n) if w.choice('offset?', [True, False]) else None
        lin = w.vec('linear', S.n) if w.choice('linear?', [True, False]) else None
        q = iq(0, 0, lin, w.real('const')) if lin is not None else None
        a = S.make(offset=off, quadratic=q)
        snap = w.snap(S.B, *[z for z in (off, lin) if z is not None])
        c = a.conjugate
        w.true('complementary class', type(c) is S.other)
        o = 0 if off is None else off
        l = 0 if lin is None else lin
        # f(x) = <l,x> + const on x - o in M: f*(u) = <u - l, o> - const on u - l in M'
        x = S.on(w.vec('x', S.n)) + o
        u = S.off(w.vec('u', S.n)) + l
        fx = a.nonsmooth_objective(x)
        fu = c.nonsmooth_objective(u)
        k = q.constant_term if q is not None else 0
        sc = None if w.symbolic else [1 + np.sum(np.fabs(x) + np.fabs(u) + np.fabs(o) + np.fabs(l)) ** 2 + abs(k)]
        w.eq('value', fx, (l * x).sum() + k if lin is not None else k, scale=sc)
        w.eq('Fenchel equality on the two sets', fx + fu, (x * u).sum(), scale=sc)
        if not w.symbolic:
            m = np.linalg.norm
            w.assume(m(x) < 1e4 and m(u) < 1e4)
        w.eq('feasible for the conjugate', c.nonsmooth_objective(u, check_feasibility=True), fu, scale=sc)
        cc = c.conjugate
        w.true('same class back', type(cc) is S.cls)
        w.eq('conjugate of the conjugate', cc.nonsmooth_objective(x), fx, scale=sc)
        L = w.pos('L')
        v = w.vec('v', S.n)
        p = a.proximal(iq(L, v, 0, 0))
        p2 = c.proximal(iq(1 / L, L * v, 0, 0))
        w.eq('Moreau', p + p2 / L, v, scale=None if w.symbolic else np.fabs(v) + np.fabs(l) / L + np.fabs(o))
        w.unchanged('basis, offset, linear term unchanged', snap)

    @contract('P21', name + ' dual and linear', [F + 'linear_constraint.linear', 'regreg/atoms/cones.py:cone.get_dual'], cases=150)
    def linear(w):
        S = Space(w, name)
        m = w.dim('m')
        X = w.mat('X', S.n, m)
        off = w.vec('offset', S.n) if w.choice('offset?', [True, False]) else None
        snap = w.snap(X, S.B, *([off] if off is not None else []))
        a = S.cls.linear(X, S.B, offset=off)
        b = w.vec('beta', m)
        e = w.np.dot(X, b) + (0 if off is None else off)
        nr = w.np.linalg.norm
        if w.choice('inside', [True, False]):
            w.assume(nr(S.off(e)) == 0) if w.symbolic else w.assume(nr(S.off(e)) <= 1e-7)
            w.eq('zero', a.nonsmooth_objective(b, check_feasibility=True), 0)
        else:
            w.assume(nr(S.off(e)) > 1.001e-5 * nr(e))
            w.assume(nr(S.off(e)) > 1.001e-5)
            w.true('infinite', w.isinf(a.nonsmooth_objective(b, check_feasibility=True)))
        w.unchanged('arrays unchanged', snap)


for nm in CLS:
    make(nm)
