"""P10: losses report consistent values, gradients and curvature"""
import numpy as np
from pyvc.runner import contract
from regreg.smooth import quadratic as QL, losses as LS
from contracts.losszoo import quadratic, hubhinge, ALL, Opts, fn, in_range, given

QUAD = "regreg/smooth/quadratic.py:"
SM = "regreg/smooth/__init__.py:"


def fdiff(f, x, d, h=1e-3):
    """directional derivative, fourth order"""
    return (8 * (f(x + h * d) - f(x - h * d)) - (f(x + 2 * h * d) - f(x - 2 * h * d))) / (12 * h)


def directions(w, shape, k=3):
    yield np.ones(shape)
    for _ in range(k):
        d = np.zeros(shape)
        d.flat[w.rng.integers(0, d.size)] = 1.
        yield d
    yield w.rng.standard_normal(shape) / np.sqrt(max(1, np.prod(shape)))


def derivative(w, name, f, g, x, smooth2=True, mag=1.):
    """g(x) is the derivative of f at x (f convex)"""
    G = g(x)
    w.true(name + ' (shape)', np.shape(G) == np.shape(x))
    sc = max(1., np.max(np.fabs(G)) if np.size(G) else 0., mag)
    for d in directions(w, x.shape):
        s = np.sum(G * d)
        if smooth2:
            w.eq(name, fdiff(f, x, d), s, tol=3e-6, scale=sc)
        else:
            # convex with a kink in its derivative: subgradient inequalities, tight as h shrinks
            for h in (1e-5, 1e-1, 3.):
                up, lo, fx = f(x + h * d), f(x - h * d), f(x)
                w.ge(name + ' (from above)', up - fx, h * s, tol=1e-11 * 1, scale=sc * 1e2 + abs(fx))
                w.ge(name + ' (from below)', h * s, fx - lo, tol=1e-11 * 1, scale=sc * 1e2 + abs(fx))
            h = 1e-5
            w.eq(name, (f(x + h * d) - f(x - h * d)) / (2 * h), s, tol=1e-3, scale=sc * 10)


def make(kind, mk):
    @contract('P10', 'value and gradient ' + kind, fn(kind, '__init__', 'smooth_objective'), sym=kind != 'cox', paths=1500, note='compiled kernels')
    def grad(w):
        L = mk(w)
        o = Opts(w, L)
        obj = L.make(**o.kw())
        eta = L.eta()
        S = lambda x, mode: obj.smooth_objective(x, mode, case_weights=o.cw)
        f, g = S(eta, 'func'), w.copy(S(eta, 'grad'))
        fb, gb = S(eta, 'both')
        w.eq('value-only and combined', f, fb, tol=1e-12)
        w.eq('gradient-only and combined', g, gb, tol=1e-12)
        if w.symbolic:
            w.eq('gradient is the derivative of the value', g, w.grad(f, eta))
        else:
            w.finite('value', f)
            mag = o.coef * np.sum(np.fabs(o.cw if o.cw is not None else 1)) if 0 else abs(f) * 1e-3
            derivative(w, 'gradient is the derivative of the value', lambda x: S(x, 'func'), lambda x: S(x, 'grad'), eta, L.smooth2, mag=mag)
        one = L.make(coef=1., offset=o.offset, own=o.own)
        w.eq('coef multiplies the value', f, o.coef * one.smooth_objective(eta, 'func', case_weights=o.cw), tol=1e-10)
        w.eq('coef multiplies the gradient', g, o.coef * one.smooth_objective(eta, 'grad', case_weights=o.cw), tol=1e-10)
        if o.offset is not None:
            zero = L.make(coef=o.coef, own=o.own)
            w.eq('offset shifts the argument of the value', f, zero.smooth_objective(eta - o.offset, 'func', case_weights=o.cw), tol=1e-9)
            w.eq('offset shifts the argument of the gradient', g, zero.smooth_objective(eta - o.offset, 'grad', case_weights=o.cw), tol=1e-9)

    if kind in ('gaussian', 'poisson', 'logistic', 'probit', 'cloglog'):
        @contract('P10', 'hessian ' + kind, fn(kind, 'hessian', 'smooth_objective'))
        def hess(w):
            L = mk(w)
            o = Opts(w, L)
            obj = L.make(**o.kw())
            eta = L.eta()
            H = obj.hessian(eta, case_weights=o.cw)
            w.finite('hessian', H)
            c = w.np.ones(L.n)
            for x in (o.cw, o.own):
                if x is not None:
                    c = c * x
            arg = eta if o.offset is None else eta - o.offset
            in_range(w, L, arg)
            w.eq('hessian formula', H, o.coef * c * L.hess(arg), tol=1e-9)
            if L.canonical:
                u = w.vec('direction', L.n)
                g = lambda x: obj.smooth_objective(x, 'grad', case_weights=o.cw)
                if w.symbolic:
                    w.eq('hessian is the derivative of the gradient', H * u, w.grad(w.np.sum(g(eta) * u), eta))
                else:
                    u = w.rng.standard_normal(L.n)
                    w.eq('hessian is the derivative of the gradient', H * u, fdiff(g, eta, u), tol=1e-6, scale=max(1., np.max(np.fabs(g(eta)))))


for kind, mk in ALL.items():
    make(kind, mk)


@contract('P10', 'hessian cox', fn('cox', 'hessian_mult'), sym=False)
def cox_hess(w):
    L = ALL['cox'](w)
    o = Opts(w, L)
    obj = L.make(**o.kw())
    eta = L.eta()
    c = np.ones(L.n)
    for x in (o.cw, o.own):
        if x is not None:
            c = c * x
    u = w.rng.standard_normal(L.n)
    arg = eta if o.offset is None else eta - o.offset
    H = obj.hessian_mult(eta, u, case_weights=o.cw)
    w.eq('hessian_mult formula', H, o.coef * L.hessmat(arg, c).dot(u), tol=1e-8)
    g = lambda x: obj.smooth_objective(x, 'grad', case_weights=o.cw)
    w.eq('hessian_mult is the derivative of the gradient', H, fdiff(g, eta, u), tol=1e-6, scale=max(1., np.max(np.fabs(g(eta)))))


@contract('P10', 'quadratic loss', [QUAD + 'quadratic_loss.smooth_objective', QUAD + 'quadratic_loss.fromarray', QUAD + 'quadratic_loss.diagonal', QUAD + 'signal_approximator'])
def quad(w):
    q = quadratic(w)
    x = w.vec('x', q.n)
    S = q.obj.smooth_objective
    f, g = S(x, 'func'), w.copy(S(x, 'grad'))
    fb, gb = S(x, 'both')
    w.eq('value-only and combined', f, fb, tol=1e-12)
    w.eq('gradient-only and combined', g, gb, tol=1e-12)
    arg = x if q.offset is None else x - q.offset
    w.eq('gradient', g, q.coef * q.apply(arg), tol=1e-9, scale=q.mag(arg))
    if w.symbolic and q.kind != 'matrix':
        w.eq('gradient is the derivative of the value', g, w.grad(f, x))
    elif not w.symbolic:
        d = w.rng.standard_normal(q.n)
        w.eq('gradient is the derivative of the value', fdiff(lambda z: S(z, 'func'), x, d), np.sum(g * d), tol=1e-6, scale=max(1., abs(f), np.max(np.fabs(g))))


@contract('P10', 'squared error and linear class methods', [QUAD + 'squared_error', SM + 'smooth_atom.affine', SM + 'smooth_atom.linear', SM + 'smooth_atom.shift', SM + 'affine_smooth.smooth_objective'])
def sqerr(w):
    n, p = w.dim('n'), w.dim('p')
    X, Y = w.mat('X', n, p), w.vec('Y', n)
    c = w.pos('coef') if w.choice('coef?', [True, False]) else 1.
    kw = given(c, None, None)
    kind = w.choice('by', ['squared_error', 'signal_approximator', 'affine', 'linear', 'shift'])
    if kind == 'squared_error':
        obj = QL.squared_error(X, Y, **kw)
    elif kind == 'affine':
        obj = QL.quadratic_loss.affine(X, -Y, **kw)
    elif kind == 'linear':
        obj = QL.quadratic_loss.linear(X, offset=Y, **kw)
    elif kind == 'signal_approximator':
        obj = QL.signal_approximator(Y, **kw)
    else:
        obj = QL.quadratic_loss.shift(Y, **kw)
    kind = 'shift' if kind == 'signal_approximator' else kind
    b = w.vec('beta', n if kind == 'shift' else p)
    r = (b if kind == 'shift' else w.np.dot(X, b)) - Y
    v = c * w.np.sum(r ** 2) / 2
    g = c * r if kind == 'shift' else c * w.np.dot(X.T, r)
    f, gg = obj.smooth_objective(b, 'both')
    w.eq('value', f, v, tol=1e-9)
    sc = None if w.symbolic else max(1., abs(v), np.fabs(X).max() * np.fabs(r).max() * c)
    w.eq('gradient', gg, g, tol=1e-9, scale=sc)
    w.eq('value only', obj.smooth_objective(b, 'func'), v, tol=1e-9)
    w.eq('gradient only', obj.smooth_objective(b, 'grad'), g, tol=1e-9, scale=sc)


@contract('P10', 'huberized_svm', ['regreg/smooth/losses.py:huberized_svm.smooth_objective'], sym=False)
def hsvm(w):
    n, p = w.dim('n', lo=2), w.dim('p')
    X = w.mat('X', n, p)
    lab = w._rec('labels', np.r_[0, 1, w.rng.integers(0, 2, n - 2)] * w.rng.choice([1, 2]) - w.rng.choice([0, 1]))
    eps = w.pos('smoothing', lo=.05, hi=20.)
    c = w.pos('coef') if w.choice('coef?', [True, False]) else 1.
    off = w.vec('offset', p) if w.choice('offset?', [True, False]) else None
    obj = LS.huberized_svm(X, lab, eps, coef=c, offset=off)
    b = w.vec('beta', p)
    arg = b if off is None else b - off
    Y = 2. * (lab == lab.max()) - 1
    z = Y * X.dot(arg)
    v = c * np.sum(hubhinge(w, z, eps))
    d = np.clip((1 - z) / eps, 0, 1)
    f, g = obj.smooth_objective(b, 'both')
    w.eq('value', f, v, tol=1e-8)
    w.eq('value only', obj.smooth_objective(b, 'func'), v, tol=1e-8)
    G = -c * X.T.dot(d * Y)
    sc = max(1., np.fabs(X).max() * max(1., np.fabs(z).max()) * max(1., 1 / eps))
    w.eq('gradient', g, G, tol=1e-8, scale=sc)
    w.eq('gradient only', obj.smooth_objective(b, 'grad'), G, tol=1e-8, scale=sc)
