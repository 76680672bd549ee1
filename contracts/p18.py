"""P18: subsampling and case weights select exactly the chosen observations"""
import numpy as np
from copy import copy
from scipy import sparse
from pyvc.runner import contract
from regreg.smooth import glm as GM, mglm as MG
from contracts.losszoo import ALL, BASE, Opts, fn, in_range, GLM, MGL


def diffs(w, name, S, v, a, b, tol=1e-9):
    """S and v agree up to a constant"""
    p, q, r, s = S(a), S(b), v(a), v(b)
    sc = None if w.symbolic else max(1., abs(p), abs(q), abs(r), abs(s))
    w.eq(name, p - q, r - s, tol=tol, scale=sc)


def make(kind, mk):
    @contract('P18', 'subsample ' + kind, fn(kind, 'subsample', '__copy__', 'smooth_objective'), sym=kind not in ('cox',), paths=1500, note='compiled kernels')
    def sub(w):
        L = mk(w)
        o = Opts(w, L)
        obj = L.make(**o.kw())
        idx, mask = w.index_set('cases', L.n) if w.choice('by index?', [True, False]) else [w.mask('cases', L.n)] * 2
        keep = w.np.where(mask, w.np.ones(L.n), w.np.zeros(L.n))
        a, b = L.eta('eta'), L.eta('eta0')
        if o.offset is None:
            in_range(w, L, a, b)
        else:
            in_range(w, L, a - o.offset, b - o.offset)
        S = lambda x, m=obj, mode='func': m.smooth_objective(x, mode, case_weights=o.cw)
        f0, g0 = w.copy(S(a)), w.copy(S(a, mode='grad'))
        snap = w.snap(*[h for h in L.held if h is not None] + [x for x in (o.own, o.offset, o.cw) if x is not None])
        sub = obj.subsample(idx)
        cw = keep if o.cw is None else o.cw * keep
        diffs(w, 'the restriction is the sum over the chosen cases', lambda x: S(x, sub), lambda x: L.value(x, cw, **o.kw()), a, b)
        G = S(a, sub, 'grad')
        w.eq('its gradient is that of the chosen cases', G, obj.smooth_objective(a, 'grad', case_weights=cw), tol=1e-9)
        w.eq('original value unaffected', S(a), f0, tol=1e-12)
        w.eq('original gradient unaffected', S(a, mode='grad'), g0, tol=1e-12)
        w.unchanged('data, weights and offset unchanged', snap)
        if w.symbolic:
            return
        if mask.any() and kind not in ('stacked', 'stacked common'):
            own = None if o.own is None else o.own[mask]
            off = None if o.offset is None else o.offset[mask]
            alone = L.make(coef=o.coef, offset=off, own=own, idx=mask)
            c = None if o.cw is None else o.cw[mask]
            T = lambda x, mode='func': alone.smooth_objective(x[mask], mode, case_weights=c)
            diffs(w, 'the restriction is the loss built from those cases alone', lambda x: S(x, sub), T, a, b)
            GA = np.zeros(np.shape(a))
            GA[mask] = T(a, 'grad')
            w.eq('gradient of the loss built from those cases alone', G, GA, tol=1e-9, scale=max(1., np.max(np.fabs(GA))))
        # restricting twice restricts to the intersection
        m2 = w.mask('cases2', L.n)
        both = sub.subsample(m2)
        diffs(w, 'restricting twice', lambda x: S(x, both), lambda x: L.value(x, cw * m2, **o.kw()), a, b)
        diffs(w, 'first restriction unaffected by the second', lambda x: S(x, sub), lambda x: L.value(x, cw, **o.kw()), a, b)

    if kind not in ('stacked', 'stacked common'):
        @contract('P18', 'integer weights ' + kind, fn(kind, 'smooth_objective'), sym=False, cases=200)
        def reps(w):
            L = mk(w)
            o = Opts(w, L, own=False, arg=False)
            k = w._rec('repeats', w.rng.integers(0, 4, L.n))
            if not k.any():
                k[0] = 2
            rep = np.repeat(np.arange(L.n), k)
            off = None if o.offset is None else o.offset[rep]
            many = L.make(coef=o.coef, offset=off, idx=rep)
            a, b = L.eta('eta'), L.eta('eta0')
            T = lambda x, mode='func': many.smooth_objective(x[rep], mode)
            GA = np.zeros(np.shape(a))
            np.add.at(GA, rep, T(a, 'grad'))
            kw = w.choice('weights by', ['argument', 'own'])
            kk = k * 1.
            if kw == 'own':
                m = L.make(coef=o.coef, offset=o.offset, own=kk)
                S = lambda x, mode='func': m.smooth_objective(x, mode)
            else:
                m = L.make(coef=o.coef, offset=o.offset)
                S = lambda x, mode='func': m.smooth_objective(x, mode, case_weights=kk)
            diffs(w, 'integer weights equal repetition', S, T, a, b)
            w.eq('gradient under integer weights', S(a, 'grad'), GA, tol=1e-9, scale=max(1., np.max(np.fabs(GA))))


for kind, mk in ALL.items():
    make(kind, mk)


@contract('P18', 'subsample of a regression loss', [GLM + 'glm.subsample', GLM + 'glm.__copy__', GLM + 'glm.smooth_objective', MGL + 'mglm.subsample', MGL + 'mglm.__copy__'], sym=False, cases=1500)
def glmsub(w):
    kind = w.choice('kind', sorted(ALL))
    L = ALL[kind](w)
    p = w.dim('p')
    own = Opts(w, L, arg=False)
    X = w._rec('X', w.rng.standard_normal((L.n, p)) * w.rng.choice([.1, 1.]))
    sat = L.make(**own.kw())
    cw = w._rec('cw', w.rng.choice([0., 1., 2., .5], L.n)) if w.choice('weights?', [True, False]) else None
    off = w._rec('beta offset', w.rng.standard_normal((p,) + L.shape[1:])) if w.choice('beta offset?', [True, False]) else None
    D = sparse.csr_matrix(X) if w.choice('sparse?', [True, False]) else X
    matrix = len(L.shape) == 2
    model = MG.mglm(D, sat, offset=off, case_weights=cw) if matrix else GM.glm(D, L.data if not hasattr(L, 'trials') else (L.successes, sat.trials), sat, offset=off, case_weights=cw) if kind not in ('stacked', 'cox') else GM.glm(D, sat.data, sat, offset=off, case_weights=cw)
    if w.choice('model coef?', [True, False]):
        model.coef = c0 = w.pos('model_coef')
    else:
        c0 = 1.
    idx, mask = w.index_set('cases', L.n)
    if w.choice('boolean?', [True, False]):
        idx = mask
    beta = [w._rec('beta%d' % k, w.rng.standard_normal((p,) + L.shape[1:])) for k in range(2)]
    eta = lambda b: X.dot(b if off is None else b - off)
    base = np.ones(L.n) if cw is None else cw
    v = lambda b, c: c0 * L.value(eta(b), c, **own.kw())
    f0, g0 = model.smooth_objective(beta[0], 'func'), model.smooth_objective(beta[0], 'grad').copy()
    snap = w.snap(X, *[h for h in L.held if h is not None] + [x for x in (cw, off, own.own, own.offset) if x is not None])
    sub = model.subsample(idx)
    S = lambda m: lambda b: m.smooth_objective(b, 'func')
    diffs(w, 'the model is the weighted loss', S(model), lambda b: v(b, base), *beta)
    diffs(w, 'the restriction is the sum over the chosen cases', S(sub), lambda b: v(b, base * mask), *beta)
    want = c0 * X.T.dot(sat.smooth_objective(eta(beta[0]), 'grad', case_weights=base * mask))
    w.eq('gradient of the restriction', sub.smooth_objective(beta[0], 'grad'), want, tol=1e-8, scale=max(1., np.fabs(want).max()))
    m2 = w.mask('cases2', L.n)
    both = sub.subsample(m2)
    diffs(w, 'restricting twice', S(both), lambda b: v(b, base * mask * m2), *beta)
    diffs(w, 'first restriction unaffected', S(sub), lambda b: v(b, base * mask), *beta)
    w.eq('original value unaffected', model.smooth_objective(beta[0], 'func'), f0, tol=1e-12)
    w.eq('original gradient unaffected', model.smooth_objective(beta[0], 'grad'), g0, tol=1e-12)
    w.unchanged('data, weights and offsets unchanged', snap)
    # the saturated loss restricted by itself
    ss = sat.subsample(idx)
    diffs(w, 'restricted saturated loss', lambda b: ss.smooth_objective(eta(b), 'func'), lambda b: L.value(eta(b), mask * 1., **own.kw()), *beta)
    diffs(w, 'model unaffected by restricting its saturated loss', S(model), lambda b: v(b, base), *beta)
