"""P19: estimator wrappers decode, fit, predict and score the data they are given"""
import contextlib
import numpy as np
from scipy import special
from pyvc import shim
from pyvc.runner import contract
from contracts import losszoo as Z
from regreg.smooth import glm as GM, binary as BI, cox as CX, mglm as MG
from regreg.sklearn import base as SB, gaussian as S_g, huber as S_h, huber_svm as S_s, logistic as S_l, probit as S_p, cloglog as S_c, multinomial as S_m, cox as S_x
import regreg.api as rr

HERE = 'regreg/sklearn/'
EPS = .75


class Kind(object):
    """a family of estimators: where it lives, its packed response, its loss"""

    def __init__(self, name, mod, cls, sym=True, width=1, binary=False):
        self.name, self.mod, self.cls, self.sym, self.width, self.binary = name, mod, cls, sym, width, binary
        self.file = HERE + mod.__name__.split('.')[-1] + '.py:'

    def make(self, which, *a, **k):
        c = getattr(self.mod, self.cls + which)
        if self.name in ('huber', 'huber_svm'):
            return c(EPS, *a, **k)
        return c(*a, **k)

    def response(self, w, n, trials=False):
        """(list of response columns, response as the user would pass it, trials)"""
        N = w.np
        if self.name in ('gaussian', 'huber'):
            y = w.vec('response', n)
            return [y], y, None
        if self.name == 'huber_svm' or (self.binary and not trials):
            y = w.binary('labels', n)
            return [y], y, None
        if self.binary:
            if w.symbolic:
                s, t = w.vec('successes', n, sign='nonneg'), w.vec('trials', n, sign='pos')
                w.assume(N.all(t >= s))
            else:
                t = 1. + w.rng.integers(0, 5, n)
                s = np.round(t * w.rng.random(n))
                w._rec('successes', s), w._rec('trials', t)
            return [s, t], N.array([s, t]).T, t
        if self.name == 'cox':
            t = np.round(np.fabs(w.rng.standard_normal(n)) * 4, 1) + .1
            c = w.rng.integers(0, 2, n) * 1.
            w._rec('times', t), w._rec('status', c)
            return [t, c], np.array([t, c]).T, None
        J = 2 + int(w.integer('classes', 0, 2))
        lab = w.rng.integers(0, J, n)
        if n >= J:
            lab[:J] = np.arange(J)
        Y = np.eye(J)[lab]
        w._rec('indicators', Y)
        return list(Y.T), Y, None

    def loss(self, w, cols, case_weights=None, **k):
        """the loss of the response (its formula is property P11)"""
        y = cols[0]
        if self.name == 'gaussian':
            return GM.gaussian_loglike(y.shape, y, case_weights=case_weights)
        if self.name == 'huber':
            return GM.huber_loss(y.shape, y, EPS, case_weights=case_weights)
        if self.name == 'huber_svm':
            return GM.huber_svm(y.shape, y, EPS, case_weights=case_weights)
        if self.name == 'cox':
            return CX.cox_loglike(y.shape, y, cols[1], case_weights=case_weights)
        if self.name == 'multinomial':
            Y = np.array(cols).T
            return MG.multinomial_loglike(Y.shape, Y, case_weights=case_weights)
        c = {'logistic': BI.logistic_loglike, 'probit': BI.probit_loglike, 'cloglog': BI.cloglog_loglike}[self.name]
        return c(y.shape, y, trials=cols[1] if len(cols) > 1 else None, case_weights=case_weights)

    def factor(self):
        return 1. if self.name in ('huber', 'huber_svm') else 2.


KINDS = {k.name: k for k in [
    Kind('gaussian', S_g, 'sklearn_gaussian'), Kind('huber', S_h, 'sklearn_huber'), Kind('huber_svm', S_s, 'sklearn_huber_svm'),
    Kind('logistic', S_l, 'sklearn_logistic', binary=True), Kind('probit', S_p, 'sklearn_probit', binary=True), Kind('cloglog', S_c, 'sklearn_cloglog', binary=True),
    Kind('cox', S_x, 'sklearn_cox', sym=False), Kind('multinomial', S_m, 'sklearn_multinomial', sym=False)]}


class Packed(object):
    """a response with optional case weight and offset columns"""

    def __init__(self, w, K, trials=None, offset=True, weights=True, n=None):
        N = w.np
        self.n = n = w.dim('n') if n is None else n
        if K.name == 'cox' and not w.symbolic:
            self.n = n = max(n, 2)
        t = K.binary and (w.choice('trials?', [False, True]) if trials is None else trials)
        self.cols, resp, self.trials = K.response(w, n, t)
        self.weights = weights and w.choice('case weights?', [False, True])
        self.offset = offset and K.name != 'multinomial' and w.choice('offset?', [False, True])
        self.w = self.o = None
        packed = list(self.cols)
        if self.weights:
            self.w = w.vec('weights', n, sign='pos')
            packed.append(self.w)
        if self.offset:
            self.o = w.vec('offset', n)
            packed.append(self.o)
        if self.weights or self.offset:
            self.y = N.array(packed).T
        else:
            self.y = resp

    def flags(self):
        return dict(case_weights=self.weights, offset=self.offset)


class Problem(object):
    """the callee `simple_problem` by its contract (property P14): the solution is unknown"""
    made = []

    def __init__(self, loss, atom, **k):
        self.loss, self.atom = loss, atom
        self.coefs = Problem.world.np.zeros(loss.shape)
        Problem.made.append(self)

    def solve(self, *a, **k):
        self.args = (a, k)
        self.start = Problem.world.copy(self.coefs)
        if self.loss.shape == ():
            raise ValueError
        nm = 'solution%d' % len(Problem.made)
        self.lagrange = getattr(self.atom, 'lagrange', None)
        self.answer = Problem.world.arr(nm, self.loss.shape if isinstance(self.loss.shape, tuple) else (self.loss.shape,))
        if not Problem.world.symbolic:
            self.answer = Problem.world._rec(nm, np.clip(self.answer, -3, 3))
        return self.answer


@contextlib.contextmanager
def by_contract(w):
    old = SB.simple_problem
    Problem.made, Problem.world = [], w
    SB.simple_problem = Problem
    try:
        yield Problem.made
    finally:
        SB.simple_problem = old


class Tools(object):
    """atom constructors that record what they are asked for"""

    def __init__(self):
        self.asked = []

    def plain(self, **k):
        self.asked.append(k)
        self.atom = object()
        return self.atom

    def scored(self, score, **k):
        self.asked.append((score, k))
        a = Penalty(k['level'])
        self.atom = a
        return a


class Penalty(object):
    def __init__(self, lagrange):
        self.lagrange = lagrange
        self.quadratic = None


def design(w, n):
    p = w.dim('p', lo=1)
    X = w.mat('X', n, p)
    if not w.symbolic:
        X = w._rec('X', np.clip(X, -3, 3))
    return p, X


def beta(w, K, p, P, name='beta'):
    if K.name == 'multinomial':
        b = w.arr(name, (p, len(P.cols)))
    else:
        b = w.vec(name, p)
    if not w.symbolic:
        b = w._rec(name, np.clip(b, -2, 2))
    return b


def calm(w, K, eta):
    """the logistic loss is replaced by a line for linear predictors > 100"""
    if w.symbolic and K.name == 'logistic':
        w.assume(w.np.max(eta) <= 100)


def shifted(eta, P):
    return eta if P.o is None else eta - P.o


@contract('P19', 'decode packed responses', [HERE + 'base.py:base_mixin._check_y_arg'])
def decode(w):
    n = w.dim('n')
    k = w.choice('response columns', [1, 2, 3])
    cw, off = w.choice('case weights?', [False, True]), w.choice('offset?', [False, True])
    y = w.arr('y', (n, k + cw + off))
    if not (cw or off) and k == 1 and w.choice('flat', [True, False]):
        y = y[:, 0]
    hold = w.snap(y)
    e = SB.base_mixin(None, {}, case_weights=cw, offset=off)
    r, c, o = e._check_y_arg(y)
    if not (cw or off):
        w.true('response is y', r is y)
    elif k == 1:
        w.true('response is a vector', r.shape == (n,))
        w.eq('response', r, y[:, 0])
    else:
        w.true('response keeps its columns', r.shape == (n, k))
        w.eq('response', r, y[:, :k])
    w.true('case weights exactly when asked', (c is not None) == cw)
    w.true('offset exactly when asked', (o is not None) == off)
    if cw:
        w.eq('case weights are the last column but the offset', c, y[:, k])
    if off:
        w.eq('offset is the last column', o, y[:, k + cw])
    w.unchanged('y', hold)


def fits(K, variant):
    @contract('P19', 'fit ' + K.name + variant, [HERE + 'base.py:base_mixin.fit', HERE + 'base.py:lagrange_mixin.fit', HERE + 'base.py:lagrange_mixin._construct_atom', K.file + K.cls + '._loglike_factory'],
              sym=K.sym, paths=1200, budget=300, note='simple_problem by contract (P14)')
    def fit(w):
        N = w.np
        classifier = 'classifier' in variant
        lag = 'lagrange' in variant
        P = Packed(w, K, offset=not classifier, trials=False if w.symbolic and classifier else None)
        p, X = design(w, P.n)
        T = Tools()
        kw = dict(case_weights=P.weights)
        if not classifier:
            kw['offset'] = P.offset
        coef = kw['coef'] = w.pos('coef')
        full = K.name not in ('huber', 'huber_svm')
        initial = None
        shape = (p,) if K.name != 'multinomial' else (p, len(P.cols))
        extras = w.choice('extras?', [False, True])
        more = lambda nm: w.choice(nm, [False, True], sym=[extras])
        if full and more('initial?'):
            initial = kw['initial'] = w.arr('initial', shape)
        if full and not classifier and more('solve_args?'):
            kw['solve_args'] = {'tol': 1e-3}
        quad = None
        if not lag and full and more('quadratic?'):
            quad = kw['quadratic'] = rr.identity_quadratic(w.pos('ridge'), 0, 0, 0)
        enet, null = 0, False
        level = None
        if lag:
            level = w.pos('level')
            params = {'level': level}
            mixed = w.choice('enet?', [False, True])
            if mixed:
                enet = kw['enet_alpha'] = w.real('alpha')
                w.assume(enet > 0), w.assume(enet < 1)
            if not classifier and full:
                null = kw['unpenalized'] = w.choice('unpenalized?', [False, True], sym=[not mixed])
        else:
            params = {'size': 3, 'name': 'x'}
        e = K.make(variant, T.scored if lag else T.plain, params, **kw)
        hold = w.snap(P.y, X)
        with by_contract(w) as made:
            w.true('fit returns the estimator', e.fit(X, P.y) is e)
        w.unchanged('y and X', hold)
        prob = made[-1]
        # the loss that is fitted
        b, b0 = beta(w, K, p, P), beta(w, K, p, P, 'beta0')
        eta, eta0 = shifted(N.dot(X, b), P), shifted(N.dot(X, b0), P)
        calm(w, K, eta), calm(w, K, eta0)
        L = K.loss(w, P.cols, case_weights=P.w)
        f = lambda x: prob.loss.smooth_objective(x, 'func')
        v = lambda x: coef * L.smooth_objective(x, 'func')
        fa, fb, va, vb = f(b), f(b0), v(eta), v(eta0)
        sc = None if w.symbolic else max(1., abs(va), abs(vb))
        w.eq('the fitted loss is the likelihood of the data', fa - fb, va - vb, tol=1e-9, scale=sc)
        g = prob.loss.smooth_objective(b, 'grad')
        want = coef * N.dot(X.T, L.smooth_objective(eta, 'grad'))
        w.eq('its gradient', g, want, tol=1e-8, scale=None if w.symbolic else 1 + np.fabs(X).max() * np.fabs(L.smooth_objective(eta, 'grad')).sum() * coef)
        # the penalty
        w.true('the atom is the one constructed', prob.atom is T.atom)
        if not lag:
            w.true('the atom is constructed from its parameters', T.asked == [params])
        else:
            w.true('one problem per fit', len(made) == (2 if null else 1))
            score, k = T.asked[-1]
            w.true('the atom is constructed from its parameters', k == params)
            if null:
                base = made[0]
                w.true('null fit: the atom of the score at zero', base.atom is not prob.atom)
                w.true('null fit: infinite lagrange', base.lagrange == np.inf)
                at = base.answer
            else:
                at = N.zeros(shape)
            eta_ = shifted(N.dot(X, at), P)
            calm(w, K, eta_)
            gs = L.smooth_objective(eta_, 'grad')
            w.eq('the score is the gradient at the null solution', score, coef * N.dot(X.T, gs), tol=1e-8, scale=None if w.symbolic else 1 + np.fabs(X).max() * np.fabs(gs).sum() * coef)
            w.eq('lagrange share of the penalty', prob.atom.lagrange, level * (1 - enet), tol=1e-12)
            if isinstance(enet, int):
                w.true('no ridge', prob.atom.quadratic is None)
            else:
                w.eq('ridge share of the penalty', prob.atom.quadratic.objective(b, 'func'), enet * level * N.sum(b ** 2) / 2, tol=1e-9)
        # start and solution
        w.eq('the solver starts from the initial value', prob.start, N.zeros(shape) if initial is None else initial)
        args = dict(prob.args[1])
        q = args.pop('quadratic', None)
        w.true('the quadratic of the estimator', q is quad and prob.args[0] == ())
        w.true('solve_args are passed on', args == kw.get('solve_args', {}))
        w.true('the coefficients are the solution', e._coefs is prob.answer)


def w_which(K):
    r = ['', '_lagrange']
    if K.name in ('logistic', 'probit', 'cloglog', 'multinomial'):
        r += ['_classifier', '_classifier_lagrange']
    return r


def null_value(w, K, P, W):
    """the constant linear predictor whose mean is the mean response"""
    N = w.np
    m = N.average(P.cols[0], weights=W)
    if K.name in ('gaussian', 'huber', 'huber_svm'):
        return m
    if P.trials is not None:
        m = m / N.average(P.trials, weights=W)
    if w.symbolic:
        w.assume(m > 0), w.assume(m < 1)
        if K.name == 'logistic':
            return N.log(m / (1 - m))
        w.true('one quantile', len(Quantile.asked) == 1)
        q, z = Quantile.asked[0]
        w.eq('the quantile of the mean response', q, m)
        return z
    return {'logistic': lambda: np.log(m / (1 - m)), 'probit': lambda: special.ndtri(m), 'cloglog': lambda: np.log(-np.log1p(-m))}[K.name]()


class Quantile(object):
    """scipy.stats quantile functions by contract: an unknown value per argument"""
    asked = []
    world = None

    def __getattr__(self, nm):
        return getattr(Z.ndbn(Quantile.world), nm)

    def ppf(self, q):
        z = Quantile.world.real('quantile%d' % len(Quantile.asked))
        Quantile.asked.append((q, z))
        return z


def quantile_stubs():
    return {('regreg.sklearn.probit', 'normal_dbn'): Quantile(), ('regreg.sklearn.cloglog', 'gumbel_l'): Quantile()}


def scores(K):
    @contract('P19', 'score ' + K.name, [HERE + 'base.py:base_mixin.score', K.file + K.cls + '._saturated_score'], sym=K.sym)
    def score(w):
        N = w.np
        P = Packed(w, K)
        p, X = design(w, P.n)
        method = w.choice('method', ['deviance', 'mean_deviance'])
        e = K.make(w.choice('estimator', ['', '_lagrange']), None, {}, score_method=method, **P.flags())
        e._coefs = beta(w, K, p, P)
        sw = None
        if w.choice('sample_weight?', [False, True]):
            sw = w.vec('sample_weight', P.n, sign='pos')
        hold = w.snap(P.y, X, sw)
        eta = shifted(N.dot(X, e._coefs), P)
        calm(w, K, eta)
        s = e.score(X, P.y) if sw is None else e.score(X, P.y, sample_weight=sw)
        w.unchanged('data', hold)
        W = P.w if sw is None else sw if P.w is None else P.w * sw
        loss = K.loss(w, P.cols, case_weights=W).smooth_objective(eta, 'func')
        want = -K.factor() * loss
        if method == 'mean_deviance':
            want = want / P.n
        w.eq('score', s, want, tol=1e-9)

    @contract('P19', 'R2 ' + K.name, [K.file + K.cls + '._saturated_score'], sym=K.sym, cases=200, stubs=quantile_stubs, note='scipy.stats quantiles by contract')
    def r2(w):
        N = w.np
        Quantile.asked, Quantile.world = [], w
        P = Packed(w, K)
        if not w.symbolic and K.name in ('gaussian', 'huber') and np.ptp(P.cols[0]) == 0:
            w.assume(False)
        p, X = design(w, P.n)
        e = K.make('', None, {}, score_method='R2', **P.flags())
        e._coefs = beta(w, K, p, P)
        eta = shifted(N.dot(X, e._coefs), P)
        calm(w, K, eta)
        L = K.loss(w, P.cols, case_weights=P.w)
        if K.name == 'cox':
            null = np.zeros(P.n)
        elif K.name == 'multinomial':
            if (np.array(P.cols).sum(1) == 0).any():
                w.assume(False)
            null = np.multiply.outer(np.ones(P.n), np.log(np.average(np.array(P.cols).T, 0, weights=P.w)))
        else:
            first = e.score(X, P.y) if w.symbolic and K.name in ('probit', 'cloglog') else None
            z = null_value(w, K, P, P.w)
            if not w.symbolic:
                w.assume(bool(np.isfinite(z)))
            null = z * N.ones(P.n)
            calm(w, K, null)
        l0 = L.smooth_objective(null, 'func')
        if w.symbolic:
            w.assume(l0 > 0)
        else:
            w.assume(bool(np.isfinite(l0)) and abs(l0) > 1e-6)
        s = e.score(X, P.y) if K.name in ('cox', 'multinomial') or first is None else first
        w.eq('R2 compares the loss with that of the null model', s, 1 - L.smooth_objective(eta, 'func') / l0, tol=1e-7)


@contract('P19', 'unknown score method', [HERE + 'base.py:base_mixin.score'], sym=False, cases=60)
def unknown(w):
    K = KINDS[w.choice('kind', sorted(KINDS))]
    P = Packed(w, K)
    p, X = design(w, P.n)
    e = K.make('', None, {}, score_method='other', **P.flags())
    e._coefs = beta(w, K, p, P)
    w.true('nan', bool(np.isnan(e.score(X, P.y))))


@contract('P19', 'predict', [HERE + 'base.py:base_mixin.predict', HERE + 'base.py:classifier_mixin.predict'])
def predict(w):
    N = w.np
    n = w.dim('n')
    p, X = design(w, n)
    K = KINDS[w.choice('kind', ['gaussian', 'huber', 'logistic', 'probit', 'cloglog', 'huber_svm'], sym=['gaussian', 'logistic', 'probit', 'cloglog'])]
    classifier = K.binary and w.choice('classifier', [False, True])
    cw = w.choice('case weights?', [False, True])
    b = w.vec('beta', p)
    kw = dict(case_weights=cw)
    if not classifier:
        kw['offset'] = w.choice('offset?', [False, True])
    e = K.make(('_classifier' if classifier else '') + w.choice('lagrange', ['', '_lagrange']), None, {}, **kw)
    e._coefs = b
    hold = w.snap(X, b)
    out = e.predict(X)
    w.unchanged('data', hold)
    eta = N.dot(X, b)
    if classifier:
        w.eq('label 1 exactly when the linear predictor is positive', out * 1, N.where(eta > 0, 1, 0))
    else:
        w.eq('linear predictor and nothing else', out, eta, tol=1e-12, scale=None if w.symbolic else 1 + np.fabs(X).sum() * np.fabs(b).max())


@contract('P19', 'probabilities', [K + '.predict_proba' for K in (HERE + 'logistic.py:sklearn_logistic_classifier', HERE + 'probit.py:sklearn_probit_classifier', HERE + 'cloglog.py:sklearn_cloglog_classifier')])
def proba(w):
    N = w.np
    n = w.dim('n')
    p, X = design(w, n)
    kind = w.choice('kind', ['logistic', 'probit', 'cloglog'])
    b = w.vec('beta', p)
    if not w.symbolic:
        b = w._rec('beta', b * w.choice('size', [1., 1., 300.]))
    e = KINDS[kind].make('_classifier', None, {})
    e._coefs = b
    hold = w.snap(X, b)
    out = e.predict_proba(X)
    w.unchanged('data', hold)
    eta = N.dot(X, b)
    if w.symbolic:
        want = {'logistic': lambda: N.exp(eta) / (1 + N.exp(eta)), 'probit': lambda: Z.ndbn(w).cdf(eta), 'cloglog': lambda: 1 - N.exp(-N.exp(eta))}[kind]()
    else:
        want = {'logistic': lambda: special.expit(eta), 'probit': lambda: special.ndtr(eta), 'cloglog': lambda: -np.expm1(-np.exp(np.clip(eta, -700, 10)))}[kind]()
    w.eq('probability of label 1', out, want, tol=1e-9)


@contract('P19', 'multinomial labels', [HERE + 'multinomial.py:sklearn_multinomial_classifier.' + k for k in ('predict', 'predict_proba', '_saturated_score')], sym=False)
def multi(w):
    K = KINDS['multinomial']
    P = Packed(w, K)
    p, X = design(w, P.n)
    e = K.make('_classifier' + w.choice('lagrange', ['', '_lagrange']), None, {}, case_weights=P.weights)
    e._coefs = beta(w, K, p, P) * w.choice('size', [1., 1., 500.])
    eta = X.dot(e._coefs)
    pr = e.predict_proba(X)
    w.eq('probabilities', pr, special.softmax(eta, 1), tol=1e-9)
    lab = e.predict(X)
    w.true('labels maximise the linear predictor', bool(np.all(eta[np.arange(P.n), lab] == eta.max(1))))
    hold = w.snap(P.y)
    s = e.score(X, P.y)
    w.unchanged('y', hold)
    w.eq('accuracy', s, np.average(lab == np.argmax(np.array(P.cols).T, 1), weights=P.w), tol=1e-12)


@contract('P19', 'accuracy', [HERE + m + '.py:sklearn_' + m + c + '._saturated_score' for m in ('logistic', 'probit', 'cloglog') for c in ('', '_classifier')] + [HERE + 'base.py:base_mixin.score'])
def accuracy(w):
    N = w.np
    K = KINDS[w.choice('kind', ['logistic', 'probit', 'cloglog'])]
    classifier = w.choice('classifier', [False, True])
    P = Packed(w, K, trials=False, offset=not classifier)
    p, X = design(w, P.n)
    kw = dict(case_weights=P.weights)
    if not classifier:
        kw.update(offset=P.offset, score_method='accuracy')
    e = K.make(('_classifier' if classifier else '') + w.choice('lagrange', ['', '_lagrange']), None, {}, **kw)
    e._coefs = w.vec('beta', p)
    sw = None
    if w.choice('sample_weight?', [False, True]):
        sw = w.vec('sample_weight', P.n, sign='pos')
    hold = w.snap(P.y, X, sw)
    s = e.score(X, P.y) if sw is None else e.score(X, P.y, sample_weight=sw)
    w.unchanged('data', hold)
    eta = shifted(N.dot(X, e._coefs), P)
    W = P.w if sw is None else sw if P.w is None else P.w * sw
    right = N.where(eta > 0, P.cols[0], 1 - P.cols[0])
    if W is None:
        want = N.sum(right) / P.n
    else:
        want = N.sum(W * right) / N.sum(W)
    w.eq('weighted share of the labels predicted', s, want, tol=1e-9)


@contract('P19', 'parameters survive cloning', [HERE + 'base.py:%s.__init__' % k for k in ('base_mixin', 'lagrange_mixin', 'classifier_mixin', 'classifier_lagrange_mixin')] + [K.file + K.cls + '.__init__' for K in KINDS.values()], sym=False, cases=150)
def cloned(w):
    from sklearn.base import clone
    K = KINDS[w.choice('kind', sorted(KINDS))]
    variant = w.choice('estimator', w_which(K))
    kw = {}
    import inspect
    cls = getattr(K.mod, K.cls + variant)
    names = [k for k in inspect.signature(cls.__init__).parameters if k not in ('self', 'smoothing_parameter', 'atom_constructor', 'atom_params')]
    pool = dict(case_weights=[False, True], offset=[False, True], coef=[1., 2.5], score_method=['deviance', 'R2', 'accuracy'], solve_args=[{}, {'tol': 1e-4}], initial=[None, 3.], enet_alpha=[0., .5], unpenalized=[False, True],
                quadratic=[None, 'q'])
    for k in names:
        kw[k] = pool[k][int(w.integer(k, 0, len(pool[k]) - 1))]
    e = K.make(variant, rr.l1norm, {'shape': 3, 'lagrange': .1}, **kw)
    got = e.get_params(deep=False)
    for k in kw:
        w.true('constructor keeps ' + k, got[k] == kw[k] and getattr(e, k) == kw[k])
    twin = clone(e).get_params(deep=False)
    w.true('clone', all(twin[k] == got[k] for k in kw))
    fresh = K.make(variant, rr.l1norm, {})
    w.true('default offset', fresh.offset is False and fresh.case_weights is False)
    w.true('default arguments are not shared', fresh.initial is None and fresh.solve_args == {})


@contract('P19', 'end to end', [HERE + 'base.py:base_mixin.fit', HERE + 'base.py:lagrange_mixin.fit'], sym=False, cases=60)
def end_to_end(w):
    """the fitted coefficients satisfy the optimality conditions of the penalised likelihood"""
    K = KINDS[w.choice('kind', ['gaussian', 'logistic', 'probit', 'cloglog', 'huber', 'cox'])]
    n = 15 + int(w.integer('cases', 0, 20))
    P = Packed(w, K, n=n)
    p = 1 + int(w.integer('features', 0, 4))
    X = w._rec('X', w.rng.standard_normal((n, p)))
    if P.w is not None:
        P.w[:] = np.clip(P.w, .2, 3.)
    if P.o is not None:
        P.o[:] = np.clip(P.o, -1, 1)
    for c in P.cols[:1]:
        if K.name in ('gaussian', 'huber'):
            c[:] = np.clip(c, -5, 5)
    if P.weights or P.offset:
        y = np.array(list(P.cols) + [x for x in (P.w, P.o) if x is not None]).T
    else:
        y = P.cols[0] if len(P.cols) == 1 else np.array(P.cols).T
    frac = .1 + .8 * w.rng.random()
    kw = P.flags()
    lag = w.choice('lagrange', [False, True])
    if lag:
        e = K.make('_lagrange', lambda score: rr.l1norm(score.shape, lagrange=frac * max(np.fabs(score).max(), 1e-3)), {}, **kw)
    else:
        lam = 2 * frac
        e = K.make('', rr.l1norm, {'shape': p, 'lagrange': lam}, **kw)
    e.solve_args = {'tol': 1e-14, 'min_its': 200}   # the constructors of the Huber losses take no solve_args
    hold = w.snap(X, y)
    e.fit(X, y)
    w.unchanged('data', hold)
    L = K.loss(w, P.cols, case_weights=P.w)
    gr = lambda b: X.T.dot(L.smooth_objective(shifted(X.dot(b), P), 'grad'))
    if lag:
        lam = frac * max(np.fabs(gr(np.zeros(p))).max(), 1e-3)
    g = gr(e._coefs)
    tol = 2e-3 * (1 + lam)
    w.true('score bounded by the lagrange', bool(np.all(np.fabs(g) <= lam + tol)))
    on = np.fabs(e._coefs) > 1e-4
    w.true('active scores equal the lagrange', bool(np.all(np.fabs(g + lam * np.sign(e._coefs))[on] <= tol)))


for _k in KINDS.values():
    for _v in w_which(_k):
        fits(_k, _v)
    scores(_k)
