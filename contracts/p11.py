"""P11: losses equal their documented negative log-likelihoods"""
import numpy as np
from pyvc.runner import contract
from contracts.losszoo import quadratic, ALL, BASE, Opts, fn, in_range, FUNCS, GLM, BIN


def make(kind, mk):
    @contract('P11', 'formula ' + kind, fn(kind, '__init__', 'smooth_objective'), sym=kind != 'cox', note='compiled kernels')
    def formula(w):
        L = mk(w)
        o = Opts(w, L)
        obj = L.make(**o.kw())
        a, b = w.copy(L.eta('eta')), L.eta('eta0')
        if o.offset is None:
            in_range(w, L, a, b)
        else:
            in_range(w, L, a - o.offset, b - o.offset)
        f = lambda x: obj.smooth_objective(x, 'func', case_weights=o.cw)
        v = lambda x: L.value(x, o.cw, **o.kw())
        fa, fb, va, vb = f(a), f(b), v(a), v(b)
        sc = None if w.symbolic else max(abs(fa), abs(fb), abs(va), abs(vb), 1.)
        w.eq('value is the negative log-likelihood up to a constant', fa - fb, va - vb, tol=1e-9, scale=sc)
        both = obj.smooth_objective(a, 'both', case_weights=o.cw)[0]
        w.eq('combined value', both - fb, va - vb, tol=1e-9, scale=sc)

    if kind in ('gaussian', 'poisson', 'logistic', 'probit', 'cloglog'):
        @contract('P11', 'mean function ' + kind, fn(kind, 'mean_function'))
        def mean(w):
            L = mk(w)
            obj = L.make()
            eta = L.eta()
            w.eq('mean function', obj.mean_function(eta), L.mean(eta), tol=1e-9)


for kind, mk in ALL.items():
    make(kind, mk)


@contract('P11', 'data can be replaced', [FUNCS[k] + '.set_data' for k in BASE], sym=False, cases=400)
def setdata(w):
    """after obj.data = other data, the loss is the one of the new data"""
    kind = w.choice('kind', sorted(BASE))
    mk = BASE[kind]
    L = mk(w)
    o = Opts(w, L, own=False)
    if kind in ('huber', 'huber_svm', 'gaussian', 'poisson', 'cox'):
        obj = L.make(**o.kw())
        perm = w.rng.permutation(L.n)
        if kind == 'cox':
            obj.data = np.array([L.times[perm], L.cens[perm]]).T
            twin = obj.data
            w.eq('data reads back', twin, np.array([L.times[perm], L.cens[perm]]).T)
        else:
            obj.data = L.data[perm]
            w.eq('data reads back', obj.data, L.data[perm])
        new = L.make(idx=perm, **o.kw())
    else:
        obj = L.make(**o.kw())
        perm = w.rng.permutation(L.n)
        if L.trials is None or w.choice('keep trials?', [True, False]):
            s = L.successes.copy() if L.trials is not None else L.successes[perm]
            obj.data = s
            new = L.make(**o.kw()) if L.trials is not None else L.make(idx=perm, **o.kw())
        else:
            obj.data = (L.successes[perm], L.trials[perm])
            new = L.make(idx=perm, **o.kw())
    a, b = L.eta('eta'), L.eta('eta0')
    S = lambda m, x: m.smooth_objective(x, 'func', case_weights=o.cw)
    w.eq('loss of the new data', S(obj, a) - S(obj, b), S(new, a) - S(new, b), tol=1e-9, scale=max(1., abs(S(new, a))))


@contract('P11', 'extreme parameters', [FUNCS[k] + '.smooth_objective' for k in ('logistic', 'probit', 'cloglog', 'cox', 'multinomial', 'multinomial baseline')], sym=False, cases=600)
def extreme(w):
    """value and gradient at very large linear predictors: finite where the formula is"""
    kind = w.choice('kind', ['logistic', 'probit', 'cloglog', 'multinomial', 'multinomial baseline'])
    L = ALL[kind](w)
    obj = L.make()
    top = {'probit': 37., 'cloglog': 6.5}.get(kind, 650.)
    eta = w._rec('eta', w.rng.choice([-1., 1., 0., .5], L.shape) * top * w.rng.choice([1., .6, .2]))
    f, g = obj.smooth_objective(eta, 'both')
    v = L.value(eta)
    w.eq('value', f, v, tol=1e-9, scale=max(1., abs(v)))
    w.finite('gradient', g)
    if kind in ('logistic', 'probit', 'cloglog'):
        m = obj.mean_function(eta)
        w.finite('mean', m)
        w.eq('mean function', m, L.mean(np.clip(eta, -600, 600)), tol=1e-9)
        w.finite('hessian', obj.hessian(eta))


@contract('P11', 'quadratic forms', ['regreg/smooth/quadratic.py:quadratic_loss.smooth_objective', 'regreg/smooth/quadratic.py:signal_approximator'])
def quad(w):
    q = quadratic(w)
    a = w.vec('x', q.n)
    v = q.value(a)
    w.eq('value is the quadratic form', q.obj.smooth_objective(a, 'func'), v, tol=1e-9, scale=None if w.symbolic else q.mag(a) * max(1., np.fabs(a).max()))
