"""P13: losses composed with linear maps obey the chain rule.

The saturated losses are stand-ins known only by their contract (some value,
some gradient at the point they are evaluated at): what is proved holds for
every loss.  The same statements are then run on the real losses."""
import numpy as np
from scipy import sparse
from pyvc.runner import contract
import regreg.smooth as SM
from regreg.smooth import smooth_atom, affine_smooth, glm as GM, mglm as MG
from contracts.affzoo import AFF, Abstract, aff
from contracts.losszoo import ALL, BASE, Opts, GLM, MGL

S0 = 'regreg/smooth/__init__.py:'


class AnyLoss(smooth_atom):
    """a smooth function known by its contract: at each point one value and one
    gradient; remembers where it was evaluated and with which weights"""

    def __init__(self, w, name, shape, coef=1., hess=None):
        smooth_atom.__init__(self, shape, coef=coef)
        self.w, self.name = w, name
        self.calls = []
        self.f = w.real(name + '_value')
        self.g = w.arr(name + '_gradient', shape)
        self.W = w.arr(name + '_hessian', shape)
        self.Y = w.arr(name + '_data', shape)
        if hess == 'hessian':
            self.hessian = self._hessian
        elif hess == 'mult':
            self.hessian_mult = self._mult

    data = property(lambda s: s.Y, lambda s, v: None)

    def smooth_objective(self, x, mode='both', check_feasibility=False, case_weights=None):
        self.calls.append((self.w.copy(x), case_weights, mode))
        g = self.w.copy(self.g)
        return {'both': (self.f, g), 'func': self.f, 'grad': g}[mode]

    def _hessian(self, x, case_weights=None):
        self.calls.append((self.w.copy(x), case_weights, 'hessian'))
        return self.w.copy(self.W)

    def _mult(self, x, right, case_weights=None):
        self.calls.append((self.w.copy(x), case_weights, 'mult'))
        return self.W * right


def seen(w, name, L, arg, cw=None, tol=1e-9, scale=1.):
    w.true(name + ': evaluated', len(L.calls) > 0)
    for x, c, m in L.calls:
        w.eq(name + ': evaluated at the linear predictor', x, arg, tol=tol, scale=None if w.symbolic else sc(w, arg, scale))
        if cw is None:
            w.true(name + ': no weights', c is None)
        else:
            w.eq(name + ': weights given once', c, cw, tol=1e-12)
    L.calls = []


def sc(w, *a):
    return None if w.symbolic else max([1.] + [float(np.max(np.fabs(x))) for x in a if np.size(x)])


def chain(nm, mk):
    @contract('P13', 'affine_smooth of ' + nm, [S0 + 'affine_smooth.smooth_objective', S0 + 'affine_smooth.__init__'], sym=mk.sym, paths=mk.paths, cases=150, note='transform outside the symbolic subset')
    def run(w):
        T = mk(w)
        if getattr(T, 'extra', False):
            return        # applied to the columns of a matrix: not its declared shapes
        L = AnyLoss(w, 'loss', T.outs)
        obj = affine_smooth(L, T.T)
        x = w.arr('x', T.ins)
        sl = None if w.symbolic else T.scale * sc(w, x, L.g)
        off = T.off
        lin = T.lin(x)
        eta = lin if off is None else lin + off
        adj = T.T.adjoint_map(w.copy(L.g))
        if getattr(adj, 'ndim', None) != len(T.ins):
            adj = adj.reshape(T.ins)
        w.eq('value', obj.smooth_objective(x, 'func'), L.f, tol=1e-12)
        seen(w, 'value', L, eta, tol=T.tol, scale=sl)
        w.eq('gradient', obj.smooth_objective(x, 'grad'), adj, tol=T.tol, scale=sl)
        seen(w, 'gradient', L, eta, tol=T.tol, scale=sl)
        f, g = obj.smooth_objective(x, 'both')
        w.eq('value of both', f, L.f, tol=1e-12)
        w.eq('gradient of both', g, adj, tol=T.tol, scale=sl)
        seen(w, 'both', L, eta, tol=T.tol, scale=sl)
        w.true('coef is the loss coef', obj.coef == L.coef)


for nm, mk in AFF.items():
    chain(nm, mk)


def build_glm(w, hess=None, p=None):
    n = w.dim('n')
    p = w.dim('p') if p is None else p
    X = w.mat('X', n, p)
    L = AnyLoss(w, 'loss', (n,), hess=hess)
    off = w.vec('offset', p) if w.choice('offset?', [True, False]) else None
    cw = w.vec('case_weights', n, sign='nonneg') if w.choice('weights?', [True, False]) else None
    D = X
    if not w.symbolic and w.choice('sparse?', [True, False]):
        D = getattr(sparse, ['csr_matrix', 'csc_matrix'][w.rng.integers(0, 2)])(X)
    m = GM.glm(D, L.Y, L, offset=off, case_weights=cw)
    c = w.pos('coef') if w.choice('coef?', [True, False]) else None
    if c is not None:
        m.coef = c
    else:
        c = 1.
    L.calls = []
    return n, p, X, L, off, cw if cw is not None else w.np.ones(n), m, c


@contract('P13', 'glm value and gradient', [GLM + 'glm.smooth_objective', GLM + 'glm.objective', GLM + 'glm.gradient', GLM + 'glm.linear_predictor', GLM + 'glm.__init__'])
def glm(w):
    n, p, X, L, off, cw, m, c = build_glm(w)
    b = w.vec('beta', p)
    eta = w.np.dot(X, b if off is None else b - off)
    G = c * w.np.dot(X.T, L.g)
    s = sc(w, G, np.fabs(X).sum(0).max() * np.fabs(L.g).max() * c) if not w.symbolic else None
    w.eq('value', m.smooth_objective(b, 'func'), c * L.f, tol=1e-10)
    seen(w, 'value', L, eta, cw)
    w.eq('gradient', m.smooth_objective(b, 'grad'), G, tol=1e-10, scale=s)
    seen(w, 'gradient', L, eta, cw)
    f, g = m.smooth_objective(b, 'both')
    w.eq('value of both', f, c * L.f, tol=1e-10)
    w.eq('gradient of both', g, G, tol=1e-10, scale=s)
    seen(w, 'both', L, eta, cw)
    w.eq('objective', m.objective(b), c * L.f, tol=1e-10)
    w.eq('gradient method', m.gradient(b), G, tol=1e-10, scale=s)
    w.eq('linear predictor', m.linear_predictor(b), w.np.dot(X, b), tol=1e-10, scale=None if w.symbolic else max(1., np.fabs(X).max() * np.fabs(b).sum()))


@contract('P13', 'glm hessian', [GLM + 'glm.hessian'])
def hessian(w):
    how = w.choice('how', ['hessian', 'mult'])
    p = None
    if how == 'mult':
        p = w.choice('p', [1, 2, 3], sym=[2])
    n, p, X, L, off, cw, m, c = build_glm(w, how, p)
    b = w.vec('beta', p)
    H = m.hessian(b)
    want = c * w.np.dot(X.T, L.W[:, None] * X)
    w.eq('hessian is X\'WX', H, want, tol=1e-10, scale=None if w.symbolic else max(1., c * (np.fabs(X).T.dot(np.fabs(L.W)[:, None] * np.fabs(X))).max()))
    seen(w, 'hessian', L, w.np.dot(X, b if off is None else b - off), cw)


@contract('P13', 'matrix glm value and gradient', [MGL + 'mglm.__init__', GLM + 'glm.smooth_objective'])
def mglm(w):
    n, p, q = w.dim('n'), w.dim('p'), w.dim('q')
    X = w.mat('X', n, p)
    L = AnyLoss(w, 'loss', (n, q))
    off = w.mat('offset', p, q) if w.choice('offset?', [True, False]) else None
    cw = w.vec('case_weights', n, sign='nonneg') if w.choice('weights?', [True, False]) else None
    D = X
    if not w.symbolic and w.choice('sparse?', [True, False]):
        D = sparse.csr_matrix(X)
    m = MG.mglm(D, L, offset=off, case_weights=cw)
    cw = cw if cw is not None else w.np.ones(n)
    c = 1.
    if w.choice('coef?', [True, False]):
        m.coef = c = w.pos('coef')
    L.calls = []
    b = w.mat('beta', p, q)
    eta = w.np.dot(X, b if off is None else b - off)
    G = c * w.np.dot(X.T, L.g)
    s = None if w.symbolic else sc(w, np.fabs(X).sum(0).max() * np.fabs(L.g).max() * c)
    w.eq('value', m.smooth_objective(b, 'func'), c * L.f, tol=1e-10)
    w.eq('gradient', m.smooth_objective(b, 'grad'), G, tol=1e-10, scale=s)
    f, g = m.smooth_objective(b, 'both')
    w.eq('value of both', f, c * L.f, tol=1e-10)
    w.eq('gradient of both', g, G, tol=1e-10, scale=s)
    seen(w, 'calls', L, eta, cw)


@contract('P13', 'sum of smooth functions', [S0 + 'sum.smooth_objective', S0 + 'sum.__init__'])
def total(w):
    n = w.dim('n')
    k = w.choice('k', [1, 2, 3])
    atoms = [AnyLoss(w, 'loss%d' % j, (n,)) for j in range(k)]
    weights = None
    if w.choice('weights?', [True, False]):
        weights = [w.nonneg('weight%d' % j) for j in range(k)]
    obj = SM.sum(atoms, weights=weights)
    off = w.vec('offset', n) if w.choice('offset?', [True, False]) else None
    if off is not None:
        obj.offset = off
    x = w.vec('x', n)
    arg = x if off is None else x - off
    ws = weights or [1.] * k
    F, G = 0, 0
    for c, a in zip(ws, atoms):
        F = F + c * a.f
        G = G + c * a.g
    w.eq('value', obj.smooth_objective(x, 'func'), F, tol=1e-10)
    w.eq('gradient', obj.smooth_objective(x, 'grad'), G, tol=1e-10)
    f, g = obj.smooth_objective(x, 'both')
    w.eq('value of both', f, F, tol=1e-10)
    w.eq('gradient of both', g, G, tol=1e-10)
    for a in atoms:
        seen(w, 'calls', a, arg)


@contract('P13', 'zero function', [S0 + 'zero.smooth_objective'])
def zero(w):
    n = w.dim('n')
    z = SM.zero((n,))
    x = w.vec('x', n)
    w.eq('value', z.smooth_objective(x, 'func'), 0)
    w.eq('gradient', z.smooth_objective(x, 'grad'), 0 * x)
    f, g = z.smooth_objective(x, 'both')
    w.eq('value of both', f, 0)
    w.eq('gradient of both', g, 0 * x)


@contract('P13', 'scaling', [S0 + 'smooth_atom.scale'])
def scaling(w):
    n = w.dim('n')
    c = w.pos('coef')
    L = AnyLoss(w, 'loss', (n,), coef=c)
    v = w.vec('v', n)
    w.eq('scaled', L.scale(v), c * v, tol=1e-12)
    w.eq('scaled value', L.scale(L.f), c * L.f, tol=1e-12)


def make_glm(w):
    """a glm of one of the losses through its class method; returns the loss, the
    glm, the dense design, the design passed and every array passed"""
    kind = w.choice('kind', sorted(BASE) + ['multinomial', 'multinomial baseline', 'stacked common'])
    L = ALL[kind](w)
    p = w.dim('p')
    X = w._rec('X', w.rng.standard_normal((L.n, p)) * w.rng.choice([.1, 1.]))
    D = sparse.csr_matrix(X) if w.choice('sparse?', [True, False]) else X
    c = w.pos('coef') if w.choice('coef?', [True, False]) else 1.
    cw = w._rec('cw', w.rng.choice([0., 1., 2., .5], L.n)) if w.choice('weights?', [True, False]) else None
    so = w._rec('saturated offset', w.rng.standard_normal(L.shape)) if w.choice('saturated offset?', [True, False]) else None
    off = w._rec('beta offset', w.rng.standard_normal((p,) + L.shape[1:])) if w.choice('beta offset?', [True, False]) else None
    kw = dict(coef=c, saturated_offset=so, offset=off, case_weights=cw)
    kw = dict((k, v) for k, v in kw.items() if not (v is None or type(v) is float and v == 1.))
    if kind in ('logistic', 'probit', 'cloglog'):
        m = getattr(GM.glm, kind)(D, L.successes, trials=L.trials, **kw)
    elif kind in ('huber', 'huber_svm'):
        m = getattr(GM.glm, kind)(D, L.data, L.eps, **kw)
    elif kind == 'cox':
        m = GM.glm.cox(D, L.times, L.cens, **kw)
    elif kind.startswith('multinomial'):
        m = MG.mglm.multinomial(D, L.data, baseline=kind != 'multinomial', **kw)
    elif kind == 'stacked common':
        m = MG.mglm.stacked(D, L.make()._losses, **kw)
    else:
        m = getattr(GM.glm, kind)(D, L.data, **kw)
    L.kind = kind
    L.coef, L.cw, L.so, L.off = c, cw, so, off
    return L, m, X, D, [x for x in (cw, so, off) if x is not None] + ([D] if D is X else [D.data, D.indices, D.indptr])


@contract('P13', 'class methods of glm', [GLM + 'glm.' + k for k in ('gaussian', 'logistic', 'probit', 'cloglog', 'poisson', 'huber', 'huber_svm', 'cox')] + [MGL + 'mglm.multinomial', MGL + 'mglm.stacked'], sym=False, cases=1500)
def classmethods(w):
    """real losses: value, gradient, Hessian, weights once"""
    L, m, X, D, arrays = make_glm(w)
    kind, c, cw, so, off = L.kind, L.coef, L.cw, L.so, L.off
    p = X.shape[1]
    base = np.ones(L.n) if cw is None else cw
    eta = lambda b: X.dot(b if off is None else b - off)
    v = lambda b: L.value(eta(b), base, coef=c, offset=so)
    a, b = [w._rec('beta%d' % k, w.rng.standard_normal((p,) + L.shape[1:])) for k in range(2)]
    S = m.smooth_objective
    w.eq('value up to a constant', S(a, 'func') - S(b, 'func'), v(a) - v(b), tol=1e-9, scale=max(1., abs(v(a)), abs(v(b))))
    sat = L.make(coef=c, offset=so)
    G = X.T.dot(sat.smooth_objective(eta(a), 'grad', case_weights=base))
    w.eq('gradient', S(a, 'grad'), G, tol=1e-8, scale=max(1., np.fabs(G).max()))
    f, g = S(a, 'both')
    w.eq('both', f, S(a, 'func'), tol=1e-12)
    w.eq('gradient of both', g, G, tol=1e-8, scale=max(1., np.fabs(G).max()))
    w.eq('objective method', m.objective(a), f, tol=1e-12)
    w.eq('gradient method', m.gradient(a), G, tol=1e-8, scale=max(1., np.fabs(G).max()))
    arg = eta(a) if so is None else eta(a) - so
    if L.hess is not None:
        H = X.T.dot((c * base * L.hess(arg))[:, None] * X)
        w.eq('hessian', m.hessian(a), H, tol=1e-8, scale=max(1., np.fabs(H).max()))
    elif kind == 'cox':
        H = c * X.T.dot(L.hessmat(arg, base)).dot(X)
        w.eq('hessian', m.hessian(a), H, tol=1e-7, scale=max(1., np.fabs(H).max(), c * base.sum()))
