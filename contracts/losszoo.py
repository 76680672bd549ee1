"""Smooth losses with their documented formulas.

Each builder draws data and returns a Loss: `make(coef, offset, own)` builds
the object of /repo, `form(eta, cw)` is the documented negative
log-likelihood (without coef, offset or the loss's own case weights) up to a
constant, `hess(eta)` the per-case second derivative where it is diagonal,
`mean(eta)` the documented mean function."""
import numpy as np
from scipy import sparse, stats
from regreg.smooth import glm as GM, binary as B, cox as CX, mglm as MG, quadratic as Q
from pyvc import shim
from pyvc.world import Skip

GLM = 'regreg/smooth/glm.py:'
BIN = 'regreg/smooth/binary.py:'
COX = 'regreg/smooth/cox.py:'
MGL = 'regreg/smooth/mglm.py:'


def ndbn(w):
    return shim._Dbn() if w.symbolic else stats.norm


def tot(w, x):
    return w.np.sum(x)


class Loss(object):
    percase = True       # sum over cases of cw_i * t_i
    smooth2 = True       # twice differentiable
    canonical = True     # hessian is the second derivative (else expected information)
    matrix = False
    hess = None
    mean = None
    big = 30.
    cutoff = None

    def __init__(self, w, n, **kw):
        self.w, self.n = w, n
        self.shape = (n,)
        for k, v in kw.items():
            setattr(self, k, v)

    # value of the object: coef * form(eta - offset, cw * own)
    def value(self, eta, cw=None, coef=1., offset=None, own=None):
        if offset is not None:
            eta = eta - offset
        c = None
        for x in (cw, own):
            if x is not None:
                c = x if c is None else c * x
        if c is None:
            c = self.w.np.ones(self.n)
        return coef * self.form(eta, c)

    def form(self, eta, cw):
        w = self.w
        t = self.terms(eta)
        if self.matrix:
            t = w.np.sum(t, 1) if t.ndim == 2 else t
        return w.np.sum(cw * t)

    def eta(self, name='eta', scale=None):
        w = self.w
        if w.symbolic:
            return w.arr(name, self.shape)
        e = w.arr(name, self.shape)
        k = w.rng.integers(0, 5)
        if k == 0:
            e = w.rng.standard_normal(self.shape)
        elif k == 1:
            e = 4 * w.rng.standard_normal(self.shape)
        e = np.clip(e, -self.big, self.big)
        return w._rec(name, e)


def in_range(w, L, *args):
    """exact arithmetic: the logistic loss replaces log(1+exp(x)) by x for x > 100"""
    if w.symbolic and L.cutoff:
        for a in args:
            w.assume(w.np.max(a) <= L.cutoff)


class Opts(object):
    """coef, offset, own case weights, case_weights argument"""

    def __init__(self, w, L, arg=True, coef=True, offset=True, own=True):
        self.coef = w.pos('coef') if coef and w.choice('coef?', [True, False], sym=[True]) else 1.
        self.offset = None
        if offset and w.choice('offset?', [True, False]):
            self.offset = w.arr('offset', L.shape)
            if not w.symbolic:
                self.offset = np.clip(self.offset, -5, 5)
        self.own = w.vec('own_weights', L.n, sign='nonneg') if own and w.choice('own weights?', [True, False]) else None
        self.cw = w.vec('case_weights', L.n, sign='nonneg') if arg and w.choice('case_weights?', [True, False]) else None
        if not w.symbolic:
            # weights of very different orders make finite differences useless
            self.own = None if self.own is None else w._rec('own_weights', np.minimum(self.own, 50.))
            self.cw = None if self.cw is None else w._rec('case_weights', np.minimum(self.cw, 50.))

    def kw(self):
        return dict(coef=self.coef, offset=self.offset, own=self.own)


def gaussian(w):
    n = w.dim('n')
    y = w.vec('response', n)
    L = Loss(w, n, data=y)
    L.make = lambda coef=1., offset=None, own=None, idx=slice(None): GM.gaussian_loglike(y[idx].shape, y[idx], **given(coef, offset, own))
    L.terms = lambda eta: (eta - y) ** 2 / 2
    L.hess = lambda eta: w.np.ones(n)
    L.mean = lambda eta: eta
    L.held = [y]
    L.eta = lambda name='eta': w.vec(name, n)
    L.ints = False
    return L


def poisson(w):
    n = w.dim('n')
    y = w.counts('counts', n)
    if not w.symbolic and w.rng.random() < .3:
        y = y * 1.
    L = Loss(w, n, data=y)
    L.make = lambda coef=1., offset=None, own=None, idx=slice(None): GM.poisson_loglike(y[idx].shape, y[idx], **given(coef, offset, own))
    L.terms = lambda eta: w.np.exp(eta) - y * eta
    L.hess = lambda eta: w.np.exp(eta)
    L.mean = lambda eta: w.np.exp(eta)
    L.held = [y]
    L.big = 10.
    return L


def binom(w):
    """(n, successes, trials or None)"""
    n = w.dim('n')
    if w.choice('trials?', [True, False]):
        if w.symbolic:
            s = w.vec('successes', n, sign='nonneg')
            t = w.vec('trials', n, sign='pos')
            w.assume(w.np.all(t >= s))
        else:
            t = 1. + w.counts('trials', n)
            s = w._rec('successes', np.round(t * w.rng.choice([0., .3, 1., w.rng.random()], n)))
            if w.rng.random() < .2:
                s = w._rec('successes', s * .5)
            elif w.rng.random() < .5:
                s, t = s.astype(int), t.astype(int)
        return n, s, t
    s = w.binary('successes', n)
    return n, s, None


def _binary(cls, w, terms, hess, mean, **kw):
    n, s, t = binom(w)
    L = Loss(w, n, data=s)
    one = w.np.ones(n) if t is None else t
    L.make = lambda coef=1., offset=None, own=None, idx=slice(None): cls(s[idx].shape, s[idx], trials=None if t is None else t[idx], **given(coef, offset, own))
    L.terms = lambda eta: terms(eta, s, one)
    L.hess = lambda eta: hess(eta) * one
    L.mean = mean
    L.held = [s, t]
    L.successes, L.trials = s, t
    for k, v in kw.items():
        setattr(L, k, v)
    return L


def logistic(w):
    N = w.np

    def hess(eta):
        if w.symbolic:
            return N.exp(eta) / (1 + N.exp(eta)) ** 2
        e = np.exp(-np.fabs(eta))
        return e / (1 + e) ** 2
    L = _binary(B.logistic_loglike, w, lambda e, s, t: t * N.logaddexp(0 * e, e) - s * e, hess, lambda e: 1 / (1 + N.exp(-e)), cutoff=100)
    return L


def probit(w):
    N, D = w.np, ndbn(w)

    def terms(e, s, t):
        return -s * D.logcdf(e) - (t - s) * D.logsf(e)

    def hess(e):
        if w.symbolic:
            return D.pdf(e) ** 2 / (D.cdf(e) * D.sf(e))
        return np.exp(2 * D.logpdf(e) - D.logcdf(e) - D.logsf(e))
    return _binary(B.probit_loglike, w, terms, hess, D.cdf, canonical=False, big=8.)


def cloglog(w):
    N = w.np

    def terms(e, s, t):
        if w.symbolic:
            return -s * N.log(1 - N.exp(-N.exp(e))) + (t - s) * N.exp(e)
        return -s * np.log(-np.expm1(-np.exp(e))) + (t - s) * np.exp(e)

    def hess(e):
        if w.symbolic:
            return N.exp(e) ** 2 / (N.exp(N.exp(e)) - 1)
        with np.errstate(over='ignore'):
            return np.exp(e) ** 2 / np.expm1(np.exp(e))
    return _binary(B.cloglog_loglike, w, terms, hess, lambda e: 1 - N.exp(-N.exp(e)) if w.symbolic else -np.expm1(-np.exp(e)), canonical=False, big=6.)


def hub(w, r, eps):
    a = w.np.fabs(r)
    return w.np.where(a <= eps, r ** 2 / (2 * eps), a - eps / 2)


def huber(w):
    n = w.dim('n')
    y = w.vec('response', n)
    eps = w.pos('smoothing', lo=.05, hi=20.)
    L = Loss(w, n, data=y)
    L.make = lambda coef=1., offset=None, own=None, idx=slice(None): GM.huber_loss(y[idx].shape, y[idx], eps, **given(coef, offset, own))
    L.terms = lambda eta: hub(w, eta - y, eps)
    L.smooth2 = False
    L.held = [y]
    L.eps = eps
    L.eta = lambda name='eta': w.vec(name, n) if w.symbolic or w.rng.random() < .6 else w._rec(name, y + eps * w.rng.choice([-2., -1., 0., .5, 1., 1.5], n))
    return L


def hubhinge(w, z, eps):
    d = 1 - z
    return w.np.where(d <= 0, 0 * d, w.np.where(d <= eps, d ** 2 / (2 * eps), d - eps / 2))


def huber_svm(w):
    n = w.dim('n')
    s = w.binary('successes', n)
    eps = w.pos('smoothing', lo=.05, hi=20.)
    L = Loss(w, n, data=s)
    L.make = lambda coef=1., offset=None, own=None, idx=slice(None): B.huber_svm(s[idx].shape, s[idx], eps, **given(coef, offset, own))
    L.terms = lambda eta: hubhinge(w, (2 * s - 1) * eta, eps)
    L.smooth2 = False
    L.held = [s]
    L.eps = eps
    L.eta = lambda name='eta': w.vec(name, n) if w.symbolic or w.rng.random() < .6 else w._rec(name, (2 * s - 1) * (1 - eps * w.rng.choice([-1., 0., .5, 1., 1.5], n)))
    return L


def cox(w):
    w.bounded_only('compiled Cox kernels')
    n = w.dim('n', lo=1, hi=9)
    k = w.rng.integers(0, 3)
    T = w.rng.random(n) * 10 if k == 0 else w.rng.integers(1, 5, n).astype([float, int][w.rng.integers(0, 2)])
    T = w._rec('event_times', T)
    d = w._rec('censoring', w.rng.integers(0, 2, n) if w.rng.random() < .8 else np.ones(n, int))
    L = Loss(w, n, data=T)
    L.make = lambda coef=1., offset=None, own=None, idx=slice(None): CX.cox_loglike(T[idx].shape, T[idx], d[idx], **given(coef, offset, own))

    def form(eta, cw):
        v = 0.
        for i in range(n):
            if d[i] and cw[i] > 0:
                risk = (T >= T[i]) & (cw > 0)
                m = eta[risk].max()
                v += cw[i] * (m + np.log(np.sum(cw[risk] * np.exp(eta[risk] - m))) - eta[i])
        return v
    L.form = form

    def hessmat(eta, cw):
        H = np.zeros((n, n))
        for i in range(n):
            if d[i] and cw[i] > 0:
                p = np.where(T >= T[i], cw * np.exp(eta - eta[T >= T[i]].max()), 0.)
                p = p / p.sum()
                H += cw[i] * (np.diag(p) - np.outer(p, p))
        return H
    L.hessmat = hessmat
    L.percase = False
    L.held = [T, d]
    L.times, L.cens = T, d
    L.big = 20.
    return L


def multinomial(w, baseline=False):
    n = w.dim('n')
    J = w.dim('J', lo=2, hi=4)
    y = w.counts('counts', (n, J))
    if w.symbolic:
        w.assume(w.np.all(w.np.sum(y, 1) > 0))
    else:
        y = y * [1, 1.][w.rng.integers(0, 2)]
        y[np.arange(n), w.rng.integers(0, J, n)] += 1
        w._rec('counts', y)
        y = y.astype(float) if w.rng.random() < .5 else y
    L = Loss(w, n, data=y)
    L.shape = (n, J - 1 if baseline else J)
    cls = MG.multinomial_baseline_loglike if baseline else MG.multinomial_loglike

    def make(coef=1., offset=None, own=None, idx=slice(None)):
        yy = y[idx]
        return cls((yy.shape[0], L.shape[1]), yy, **given(coef, offset, own))
    L.make = make
    N = w.np

    def terms(eta):
        tr = N.sum(y, 1)
        yy = y[:, :-1] if baseline else y
        if w.symbolic:
            e = N.sum(N.exp(eta), 1)
            return tr * N.log(e + 1 if baseline else e) - N.sum(yy * eta, 1)
        m = np.maximum(eta.max(1), 0)
        e = np.exp(eta - m[:, None]).sum(1) + (np.exp(-m) if baseline else 0)
        return tr * (m + np.log(e)) - (yy * eta).sum(1)
    L.terms = terms
    L.matrix = True
    L.held = [y]
    return L


def needless(trials, data):
    """binary successes in single trials: the trials need not be given"""
    return all(t is None or np.all(t == 1) and np.isin(s, (0, 1)).all() for t, s in zip(trials, [d[0] if isinstance(d, tuple) else d for d in data]))


def given(coef, offset, own):
    """only what is not the default is passed"""
    kw = {}
    if not (type(coef) is float and coef == 1.):
        kw['coef'] = coef
    if offset is not None:
        kw['offset'] = offset
    if own is not None:
        kw['case_weights'] = own
    return kw


def stacked(w):
    """two losses one after the other"""
    kind = w.choice('parts', ['gaussian', 'poisson', 'logistic', 'probit', 'cloglog', 'huber', 'huber_svm', 'cox'], sym=['gaussian', 'poisson'])
    k = w.choice('k', [1, 2, 3], sym=[2])
    parts = [BASE[kind](w) for _ in range(k)]
    if kind in ('huber', 'huber_svm'):
        for p in parts[1:]:
            parts = [parts[0]] * 1
    n = b_sum([p.n for p in parts])
    L = Loss(w, n)
    cls = GM.stacked_loglike
    viacls = not w.symbolic and w.choice('class method?', [True, False])

    def make(coef=1., offset=None, own=None):
        if viacls:
            tr = [getattr(p, 'trials', None) for p in parts]
            data = [p.data for p in parts]
            tr = None if needless(tr, data) else tr
            kw = given(coef, offset, own)
            if kind in ('logistic', 'probit', 'cloglog'):
                return getattr(cls, kind)(data, trials=tr, **kw)
            if kind in ('huber', 'huber_svm'):
                return getattr(cls, kind)(None, data, parts[0].eps, **kw)
            if kind == 'cox':
                return cls.cox(None, data, [p.cens for p in parts], **kw)
            return getattr(cls, kind)(data, **kw)
        return cls([p.make() for p in parts], **given(coef, offset, own))
    L.make = make

    def form(eta, cw):
        v, at = 0, 0
        for p in parts:
            v = v + p.form(eta[at:at + p.n], cw[at:at + p.n])
            at = at + p.n
        return v
    L.form = form
    L.percase = kind != 'cox'
    L.smooth2 = parts[0].smooth2
    L.held = [h for p in parts for h in p.held]
    L.big = min(p.big for p in parts)
    L.hess = None
    if kind == 'gaussian':
        L.big = 1e6
    return L


def stacked_common(w):
    """losses with a common design: one column of parameters each"""
    kind = w.choice('parts', ['gaussian', 'poisson', 'logistic', 'huber', 'huber_svm', 'cox'], sym=['gaussian', 'poisson'])
    k = w.choice('k', [1, 2, 3], sym=[2])
    n = w.dim('n')
    if w.symbolic:
        draws = [BASE[kind](_Fixed(w, n)) for _ in range(k)]
    else:
        draws = []
        p0 = BASE[kind](w)
        n = p0.n
        draws = [p0] + [BASE[kind](_Fixed(w, n)) for _ in range(k - 1)]
    if kind in ('huber', 'huber_svm'):
        draws = draws[:1]
    k = len(draws)
    L = Loss(w, n)
    L.shape = (n, k)
    cls = MG.stacked_common_loglike
    viacls = not w.symbolic and w.choice('class method?', [True, False])

    def make(coef=1., offset=None, own=None):
        if viacls:
            data = [p.data for p in draws]
            kw = given(coef, offset, own)
            if kind == 'logistic':
                tr = [p.trials for p in draws]
                tr = None if needless(tr, data) else tr
                return cls.logistic(data, trials=tr, **kw)
            if kind in ('huber', 'huber_svm'):
                return getattr(cls, kind)(None, data, draws[0].eps, **kw)
            if kind == 'cox':
                return cls.cox(None, data, [p.cens for p in draws], **kw)
            return getattr(cls, kind)(data, **kw)
        return cls([p.make() for p in draws], **given(coef, offset, own))
    L.make = make

    def form(eta, cw):
        v = 0
        for i, p in enumerate(draws):
            v = v + p.form(eta[:, i], cw)
        return v
    L.form = form
    L.percase = kind != 'cox'
    L.smooth2 = draws[0].smooth2
    L.held = [h for p in draws for h in p.held]
    L.big = min(p.big for p in draws)
    return L


def b_sum(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


class _Fixed(object):
    """a world whose next dimension named n is given"""

    def __init__(self, w, n):
        self.__dict__.update(w=w, n=n)

    def __getattr__(self, nm):
        return getattr(self.w, nm)

    def dim(self, name, *a, **k):
        return self.n if name == 'n' else self.w.dim(name, *a, **k)


BASE = {'gaussian': gaussian, 'poisson': poisson, 'logistic': logistic, 'probit': probit, 'cloglog': cloglog, 'huber': huber,
        'huber_svm': huber_svm, 'cox': cox}
ALL = dict(BASE)
ALL.update({'multinomial': multinomial, 'multinomial baseline': lambda w: multinomial(w, True), 'stacked': stacked, 'stacked common': stacked_common})
FUNCS = {'gaussian': GLM + 'gaussian_loglike', 'poisson': GLM + 'poisson_loglike', 'logistic': BIN + 'logistic_loglike', 'probit': BIN + 'probit_loglike',
         'cloglog': BIN + 'cloglog_loglike', 'huber': GLM + 'huber_loss', 'huber_svm': BIN + 'huber_svm', 'cox': COX + 'cox_loglike',
         'multinomial': MGL + 'multinomial_loglike', 'multinomial baseline': MGL + 'multinomial_baseline_loglike',
         'stacked': GLM + 'stacked_loglike', 'stacked common': MGL + 'stacked_common_loglike'}
EXTRA = {'huber': [GLM + '_huber_loss'], 'huber_svm': [BIN + '_huber_svm']}


def fn(kind, *methods):
    return [FUNCS[kind] + '.' + m for m in methods] + EXTRA.get(kind, [])


class quadratic(object):
    """coef/2 * (x - offset)' Q (x - offset), Q symmetric"""

    def __init__(self, w):
        n = self.n = w.dim('n')
        self.w = w
        k = self.kind = w.choice('kind', ['identity', 'diagonal', 'matrix', 'transform'], sym=['identity', 'diagonal', 'matrix', 'transform'])
        self.coef = w.pos('coef') if w.choice('coef?', [True, False]) else 1.
        self.offset = w.vec('offset', n) if w.choice('offset?', [True, False]) else None
        kw = given(self.coef, self.offset, None)
        via = w.choice('class method?', [True, False])
        ql = Q.quadratic_loss
        if k == 'identity':
            self.apply = lambda x: x
            self.Q = None
            if via and self.offset is not None:
                self.obj = Q.signal_approximator(self.offset, **given(self.coef, None, None))
            else:
                self.obj = ql((n,), **kw)
        elif k == 'diagonal':
            D = self.Q = w.vec('D', n, sign='nonneg')
            self.apply = lambda x: D * x
            if via:
                self.obj = ql.diagonal(D, offset=self.offset)
                self.coef = 1.
            else:
                self.obj = ql((n,), Q=D, Qdiag=True, **kw)
        else:
            m = w.dim('m')
            R = w.mat('R', m, n)
            M = self.Q = w.np.dot(R.T, R)
            self.apply = lambda x: w.np.dot(M, x)
            if k == 'transform':
                if via:
                    self.obj = ql.squared_transform(R, offset=self.offset)
                    self.coef = 1.
                else:
                    from regreg.affine import astransform
                    self.obj = ql((n,), Q=astransform(M), **kw)
            elif via:
                self.obj = ql.fromarray(M, offset=self.offset)
                self.coef = 1.
            else:
                self.obj = ql((n,), Q=M, **kw)

    def mag(self, x):
        if self.w.symbolic:
            return None
        q = 1. if self.Q is None else np.fabs(self.Q).max()
        return max(1., q * np.fabs(x).sum() * self.coef)

    def value(self, x):
        arg = x if self.offset is None else x - self.offset
        return self.coef * self.w.np.sum(arg * self.apply(arg)) / 2
