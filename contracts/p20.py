"""P20: the compiled threshold kernels.

Symbolic side: contracts/kern.py (the extracted text, all inputs).  Concrete
side: the same contract on the compiled kernel, with ties, zeros, breakpoints
and multi-scale entries, and the extracted text against the compiled code."""
import numpy as np
from pyvc.runner import contract
from . import kern

PW = 'regreg/atoms/piecewise_linear.pyx:'
PR = 'regreg/atoms/projl1_cython.pyx:'
MX = 'regreg/atoms/mixed_lasso_cython.pyx:'


def mod(path):
    import importlib
    return importlib.import_module(path.split(':')[0][:-4].replace('/', '.'))


_PY = {}


def extracted(path, fname):
    """the extracted text, run as Python"""
    path = path.rstrip(':')
    if path not in _PY:
        src, tree, per = kern.source(path)
        g = {'__name__': 'regreg.atoms.extracted', '__package__': 'regreg.atoms'}
        exec(compile(tree, '<extracted %s>' % path, 'exec'), g)
        _PY[path] = g
    return _PY[path][fname]


def entries(w, name, n, sign=None):
    """entries with ties, zeros, equal magnitudes of both signs, wide scales"""
    kind = w.choice(name + ' style', ['plain', 'ties', 'zeros', 'scales', 'equal', 'sparse'])
    r = w.rng
    if kind == 'plain':
        v = r.standard_normal(n)
    elif kind == 'ties':
        v = r.integers(-3, 4, size=n) / 2.
    elif kind == 'zeros':
        v = np.zeros(n)
    elif kind == 'scales':
        v = r.standard_normal(n) * 10. ** r.integers(-6, 6, size=n)
    elif kind == 'equal':
        v = np.ones(n) * r.standard_normal() * r.choice([-1, 1], size=n)
    else:
        v = r.standard_normal(n) * (r.random(n) < .4)
    if sign == '+':
        v = np.abs(v)
    return w._rec(name, v.astype(float))


def level(w, name, vals, lo):
    """right-hand sides on, near and away from the breakpoints"""
    kind = w.choice(name + ' style', ['break', 'any', 'zero', 'total', 'above'])
    r = w.rng
    tot = float(np.sum(vals))
    if kind == 'break' and len(vals):
        t = vals[r.integers(len(vals))]
        b = float(np.maximum(vals - t, 0).sum())
    elif kind == 'zero':
        b = 0.
    elif kind == 'total':
        b = tot
    elif kind == 'above':
        b = tot + abs(r.standard_normal())
    else:
        b = r.random() * max(tot, 1.)
    if lo is None and r.random() < .3:
        b = -b
    if lo is not None:
        b = max(b, lo)
    return w._rec(name, float(b))


def root_concrete(w, fname, slope, weighted):
    n = w.dim('n', 1, 9)
    v = entries(w, 'norms', n, '+' if slope is not None else None)
    args = [v]
    wt = np.ones(n)
    if weighted:
        wt = w._rec('weights', w.rng.choice([0., .5, 1., 1., 2., 1e-3, 3.3], size=n))
        args = [v, wt]
    if slope is None:
        b = w._rec('b', float(np.exp(w.rng.standard_normal())))
        full = [b] + args
    else:
        b = level(w, 'b', wt * v, 0. if slope == 0 else None)
        full = [b, float(slope)] + args
    keep = [w.snap(a) for a in args]
    t = getattr(mod(PW), fname)(*full)
    for k, s in enumerate(keep):
        w.unchanged('input %d unchanged' % k, s)
    s0 = slope or 0.
    F = (wt * np.maximum(v - wt * t, 0)).sum()
    tot = (wt * v).sum()
    sc = (wt * np.abs(v)).sum() + abs(b) + abs(t) * (wt ** 2).sum()
    near = abs(tot - b) <= 1e-9 * sc
    if slope is not None and tot < b and not near:
        w.eq('0 when the sum is below b', t, 0.)
    elif not near:
        if slope and t + b < 0:
            w.true('above all knots', t * (1 + 1e-9) + 1e-12 >= np.max(v[wt > 0] / wt[wt > 0]) if (wt > 0).any() else True)
        else:
            w.eq('the root', F, s0 * t + b, tol=1e-8, scale=sc)
    if slope is not None:
        w.ge('nonnegative', t, 0, tol=1e-9, scale=sc)
    w.eq('extracted text agrees', extracted(PW, fname)(*full), t, tol=1e-10, scale=abs(t))


for fname, slope, weighted in [('find_solution_piecewise_linear_c', 0, False), ('find_solution_piecewise_linear_c', 1, False), ('find_solution_piecewise_linear_uncon', None, False),
                               ('find_solution_piecewise_linear', 0, True), ('find_solution_piecewise_linear', 1, True)]:
    def make(fname=fname, slope=slope, weighted=weighted):
        @contract('P20', 'root %s%s' % (fname, '' if slope is None else ' slope %d' % slope), [PW + fname], cases=1500)
        def f(w):
            if w.symbolic:
                return kern.root(w, fname, slope, weighted, slope is not None)
            root_concrete(w, fname, slope, weighted)
    make()


def sort_of(x, c):
    return np.sign(x) * np.maximum(np.abs(x) - c, 0)


@contract('P20', 'soft_threshold', [PR + 'soft_threshold'])
def _(w):
    """a C-level function: the concrete side runs the extracted text"""
    if w.symbolic:
        return kern.soft_threshold(w)
    x = entries(w, 'x', w.dim('n', 1, 8))
    c = w._rec('lagrange', float(w.rng.choice([0., abs(x[0]), abs(w.rng.standard_normal())])))
    s = w.snap(x)
    y = extracted(PR, 'soft_threshold')(x, c)
    w.unchanged('x unchanged', s)
    w.distinct('a new array', y, x)
    w.eq('soft threshold', y, sort_of(x, c))


@contract('P20', 'projl1', [PR + 'projl1'], cases=2000)
def _(w):
    if w.symbolic:
        return kern.projl1(w)
    x = entries(w, 'x', w.dim('n', 1, 9))
    b = level(w, 'bound', np.abs(x), 0.)
    s = w.snap(x)
    y = mod(PR).projl1(x, b)
    w.unchanged('x unchanged', s)
    sc = np.abs(x).sum() + b
    w.le('feasible', np.abs(y).sum(), b, tol=1e-8, scale=sc)
    # projection: <x-y, y> = b |x-y|_inf
    w.eq('projection', ((x - y) * y).sum(), b * np.abs(x - y).max(), tol=1e-8, scale=sc ** 2)
    w.eq('extracted text agrees', extracted(PR, 'projl1')(x, b), y, tol=1e-10, scale=sc)


@contract('P20', 'projl1_epigraph', [PR + 'projl1_epigraph'], cases=2000)
def _(w):
    if w.symbolic:
        return kern.projl1_epigraph(w)
    x = entries(w, 'x', w.dim('n', 1, 9))
    t = level(w, 't', np.abs(x), None)
    if w.rng.random() < .2:
        t = w._rec('t', -float(np.abs(x).max()) * w.rng.choice([.5, 1., 1., 2.]))
    c = np.hstack([x, t])
    s = w.snap(c)
    y = mod(PR).projl1_epigraph(c)
    w.unchanged('center unchanged', s)
    u, r = y[:-1], y[-1]
    sc = np.abs(x).sum() + abs(t)
    w.le('in the epigraph', np.abs(u).sum(), r, tol=1e-8, scale=sc)
    # residual in the polar cone {(z, -s): |z|_inf <= s} and orthogonal to the point
    w.le('residual in the polar cone', np.abs(x - u).max(), -(t - r), tol=1e-8, scale=sc)
    w.eq('residual orthogonal', ((c - y) * y).sum(), 0., tol=1e-8, scale=sc ** 2)
    w.eq('extracted text agrees', extracted(PR, 'projl1_epigraph')(c), y, tol=1e-10, scale=sc)


def structure(w, wlow=None):
    p = w.dim('p', 1, 9)
    roles = w.rng.choice([-1, -2, -2, -3, -4, 0, 1, 2, 2], size=p)
    if w.rng.random() < .3:
        roles[:] = w.rng.choice([-2, -3, 0])
    w._rec('roles', roles)
    labels = sorted(set(roles[roles >= 0].tolist()))
    groups = -np.ones(p, np.intp)
    for k, l in enumerate(labels):
        groups[roles == l] = k
    q = len(labels)
    weights = w._rec('weights', w.rng.choice([0., .5, 1., 1., 2.3], size=q).astype(float))
    idx = [np.nonzero(roles == r)[0].astype(np.intp) for r in (-2, -1, -3, -4)]
    x = entries(w, 'x', p)
    return p, x, idx, groups, weights, np.zeros(q), np.zeros(q), np.zeros(p)


def polar(x, idx, groups, weights, b):
    """projection on the polar at level b"""
    l1, un, pp, nn = idx
    out = np.zeros_like(x)
    out[l1] = np.clip(x[l1], -b, b)
    out[pp] = np.minimum(x[pp], b)
    out[nn] = np.minimum(x[nn], 0)
    for g in range(len(weights)):
        j = groups == g
        n = np.sqrt((x[j] ** 2).sum())
        out[j] = x[j] * (min(1., b * weights[g] / n) if n > 0 else 1.)
    return out


def penalty(u, idx, groups, weights):
    l1, un, pp, nn = idx
    return np.abs(u[l1]).sum() + np.maximum(u[pp], 0).sum() + sum(weights[g] * np.sqrt((u[groups == g] ** 2).sum()) for g in range(len(weights)))


for fname in ('mixed_lasso_lagrange_prox', 'mixed_lasso_dual_bound_prox'):
    def make(fname=fname):
        @contract('P20', fname, [MX + fname], cases=800)
        def f(w):
            if w.symbolic:
                return kern.mixed_prox(w, fname)
            p, x, idx, groups, weights, norms, factors, proj = structure(w)
            lag = w._rec('lagrange', float(w.rng.choice([0., abs(x[0]), .5, 1., 3.])))
            lip = w._rec('lipschitz', float(w.rng.choice([1., .5, 2.7])))
            dual = fname == 'mixed_lasso_dual_bound_prox'
            pre = [x, lag] + ([] if dual else [lip]) + idx + [groups, weights]
            keep = [w.snap(a) for a in pre if isinstance(a, np.ndarray)]
            y = np.array(getattr(mod(MX), fname)(*(pre + [norms, factors, proj])))
            for k, s in enumerate(keep):
                w.unchanged('input %d unchanged' % k, s)
            want = polar(x, idx, groups, weights, lag if dual else lag / lip)
            w.eq('entries', y, want if dual else x - want, tol=1e-9, scale=np.abs(x).max())
            z = extracted(MX, fname)(*(pre + [0 * norms, 0 * factors, 0 * proj]))
            w.eq('extracted text agrees', z, y, tol=1e-10, scale=np.abs(x).max())
    make()

for fname in ('mixed_lasso_bound_prox', 'mixed_lasso_epigraph'):
    def make(fname=fname):
        @contract('P20', fname, [MX + fname], cases=800)
        def f(w):
            if w.symbolic:
                return kern.mixed_bound(w, fname)
            p, x, idx, groups, weights, norms, factors, proj = structure(w)
            epi = fname == 'mixed_lasso_epigraph'
            l1, un, pp, nn = idx
            tot = penalty(x, idx, groups, weights)
            b = w._rec('bound', float(w.rng.choice([0., tot / 3, tot / 2, tot, 2 * tot + .1])))
            if epi and w.rng.random() < .4:
                b = w._rec('t', -b)
            v = np.hstack([x, b]) if epi else x
            pre = ([v] if epi else [x, b]) + idx + [groups, weights]
            keep = [w.snap(a) for a in pre if isinstance(a, np.ndarray)]
            y = np.array(getattr(mod(MX), fname)(*(pre + [norms, factors, proj])))
            for k, s in enumerate(keep):
                w.unchanged('input %d unchanged' % k, s)
            u = y[:-1] if epi else y
            sc = np.abs(x).sum() + abs(b) + 1e-12
            pen = penalty(u, idx, groups, weights)
            w.ge('in the domain', u[np.hstack([pp, nn])], 0, tol=1e-9, scale=sc)
            w.le('feasible', pen, y[-1] if epi else b, tol=1e-8, scale=sc)
            res = x - u
            r = np.abs(res[l1]).max(initial=0)
            r = max(r, np.maximum(res[pp], 0).max(initial=0))
            bad = 0.
            for g in range(len(weights)):
                m = np.sqrt((res[groups == g] ** 2).sum())
                if weights[g] > 0:
                    r = max(r, m / weights[g])
                else:
                    bad = max(bad, m)
            w.le('residual in the polar domain', max(bad, np.abs(res[un]).max(initial=0), res[nn].max(initial=0)), 0., tol=1e-8, scale=sc)
            if epi:
                w.le('residual in the polar cone', r, y[-1] - b, tol=1e-7, scale=sc)
                w.eq('residual orthogonal', (res * u).sum() + (b - y[-1]) * y[-1], 0., tol=1e-8, scale=sc ** 2)
            else:
                w.eq('projection', (res * u).sum(), b * r, tol=1e-8, scale=sc ** 2)
            z = extracted(MX, fname)(*(pre + [0 * norms, 0 * factors, 0 * proj]))
            w.eq('extracted text agrees', z, y, tol=1e-9, scale=sc)
    make()


for fname in ('seminorm_mixed_lasso', 'seminorm_mixed_lasso_dual'):
    def make(fname=fname):
        @contract('P20', fname, [MX + fname], cases=800)
        def f(w):
            dual = fname == 'seminorm_mixed_lasso_dual'
            if w.symbolic:
                return kern.seminorm(w, dual)
            p, x, idx, groups, weights, norms, factors, proj = structure(w)
            if dual:
                weights = weights + .5
            l1, un, pp, nn = idx
            check = w.integer('check', 0, 1)
            inside = w.integer('inside', 0, 1)
            if inside:
                x = x.copy()
                if dual:
                    x[un] = 0
                    x[nn] = -np.abs(x[nn])
                else:
                    x[nn], x[pp] = np.abs(x[nn]), np.abs(x[pp])
                w._rec('x', x)
            pre = [x] + idx + [groups, weights]
            keep = [w.snap(a) for a in pre]
            extra = [1e-5, check] if dual else [check, 1e-5]
            v = getattr(mod(MX), fname)(*(pre + [norms] + extra))
            for k, s in enumerate(keep):
                w.unchanged('input %d unchanged' % k, s)
            if dual:
                want = max(np.abs(x[l1]).max(initial=0), np.maximum(x[pp], 0).max(initial=0), max([np.sqrt((x[groups == g] ** 2).sum()) / weights[g] for g in range(len(weights))] + [0.]))
                bad = check and (np.abs(x[un]).max(initial=0) > 1e-5 or x[nn].max(initial=0) > 1e-5)
            else:
                want = penalty(x, idx, groups, weights)
                bad = check and (x[pp].min(initial=0) < -1e-5 or x[nn].min(initial=0) < -1e-5)
            if bad:
                w.true('infinite off the domain', v == np.inf)
            else:
                w.eq('value', v, want, tol=1e-10, scale=abs(want))
            z = extracted(MX, fname)(*(pre + [0 * norms] + extra))
            w.true('extracted text agrees', z == v or abs(z - v) <= 1e-10 * (1 + abs(v)))
    make()
