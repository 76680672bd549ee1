"""P02: penalties and constraints evaluate to their documented formulas"""
import numpy as np
from pyvc.runner import contract
from pyvc import kernels
from contracts import zoo
from regreg.identity_quadratic import identity_quadratic
from regreg.atoms import cones as CN, simplex as SX, svd_norms as SV, group_lasso as GL


def clearly(w, val, b):
    """val clearly exceeds b (beyond every tolerance the atoms use)"""
    return val > b * 1.001 + .001


def extras(w, shape):
    """offset and quadratic of the atom"""
    off = w.arr('offset', shape) if w.choice('offset?', [True, False]) else None
    if w.choice('quadratic?', [True, False]):
        lin = w.arr('linear', shape) if w.choice('linear?', [True, False]) else None
        cen = w.arr('center', shape) if w.choice('center?', [True, False]) else None
        q = (w.pos('qcoef') if w.choice('coef?', [True, False]) else 0, cen, lin, w.real('qconst'))
    else:
        q = None
    return off, q


def qval(w, q, x):
    if q is None:
        return 0
    c, cen, lin, con = q
    d = x if cen is None else x - cen
    v = c * (d * d).sum() / 2 + con
    if lin is not None:
        v = v + (lin * x).sum()
    return v


def indomain(w, P, x):
    """force x into the domain, with zeros where the domain asks for zeros"""
    if P.dom is not zoo.none:
        x = abs(x)
    if w.symbolic:
        for d in P.zer(x):
            x = x - d
    else:
        x = np.array(x)
        for d in P.zer(np.arange(x.size, dtype=float).reshape(x.shape)):
            x.reshape(-1)[d.astype(int)] = 0
    return x


def make(name, mk):
    f = mk.file
    kw = dict(stubs=kernels.atom_stubs, sym=mk.sym, note='penalty outside the symbolic subset')

    @contract('P02', name + ' value', [f + '.seminorm', f + '.nonsmooth_objective'], **kw)
    def value(w):
        P = mk(w)
        lam = w.nonneg('lam')
        x = indomain(w, P, w.arr('x', P.shape))
        snap = w.snap(x)
        a = P.make(lagrange=lam)
        sc = lam * P.val(abs(x))
        w.eq('lagrange * formula', a.seminorm(x), lam * P.val(x), tol=P.vtol, scale=sc)
        w.eq('explicit lagrange', a.seminorm(x, lagrange=2 * lam), 2 * lam * P.val(x), tol=P.vtol, scale=sc)
        w.eq('with feasibility checked, on the domain', a.seminorm(x, check_feasibility=True), lam * P.val(x), tol=P.vtol, scale=sc)
        w.unchanged('argument unchanged', snap)

    @contract('P02', name + ' objective', [f + '.nonsmooth_objective', 'regreg/problems/composite.py:composite.apply_offset'], paths=2000, **kw)
    def objective(w):
        P = mk(w)
        lam = w.nonneg('lam')
        off, q = extras(w, P.shape)
        y = indomain(w, P, w.arr('x', P.shape))
        x = y if off is None else y + off
        if off is not None and not w.symbolic:
            y = x - off
        snap = w.snap(x, off)
        a = P.make(lagrange=lam, offset=off, quadratic=None if q is None else identity_quadratic(*q))
        val = lam * P.val(y) + qval(w, q, x)
        for chk in ([False] if not w.symbolic else [False, True]):
            w.eq('lagrange * formula(x - offset) + quadratic', a.nonsmooth_objective(x, check_feasibility=chk), val, tol=P.vtol,
                 scale=None if w.symbolic else 1 + abs(val) + abs(qval(w, q, x)))
        w.unchanged('arguments unchanged', snap)

    @contract('P02', name + ' constraint', [f + '.constraint', f + '.nonsmooth_objective'], paths=2000, **kw)
    def cons(w):
        P = mk(w)
        b = w.nonneg('b')
        off, q = extras(w, P.shape)
        z = w.arr('x', P.shape)
        y = indomain(w, P, z)
        side = w.choice('side', ['in', 'out'])
        if not w.symbolic and side == 'in':
            k = P.val(y)
            if k > b:
                y = y * (b / k) * (1 - 1e-9)
                if not P.val(y) <= b:
                    y = y * 0
        x = y if off is None else y + off
        if w.symbolic and name.startswith('weighted') and P.zer is not zoo.none:
            w.lemma_sum_eq('infinite weights weigh nothing', abs(y) * P.aux[0], P.aux[2](z))
        if side == 'in':
            w.assume(P.val(y) <= b)
        else:
            w.assume(clearly(w, P.val(y), b))
        a = P.make(bound=b)
        v = a.constraint(y)
        if side == 'in':
            w.eq('zero inside', v, 0)
        else:
            w.true('infinite outside', w.isinf(v))
        a = P.make(bound=b, offset=off, quadratic=None if q is None else identity_quadratic(*q))
        v = a.nonsmooth_objective(x, check_feasibility=True)
        if side == 'in' and (off is None or w.symbolic):
            w.eq('objective inside', v, qval(w, q, x), scale=None if w.symbolic else abs(qval(w, q, x)))
        elif side == 'out':
            w.true('objective infinite outside', w.isinf(v))
        w.eq('feasibility not asked for', a.nonsmooth_objective(x), qval(w, q, x), scale=None if w.symbolic else abs(qval(w, q, x)))

    @contract('P02', name + ' domain', [f + '.seminorm', f + '.constraint'], **kw)
    def dom(w):
        P = mk(w)
        if P.dom is zoo.none:
            if P.zer is zoo.none or not w.symbolic and not P.zer(np.zeros(P.shape)):
                # nothing to leave: the formula is finite everywhere
                lam = w.nonneg('lam')
                x = w.arr('x', P.shape)
                a = P.make(lagrange=lam)
                v = a.seminorm(x, check_feasibility=True)
                w.eq('finite everywhere', v, lam * P.val(x), tol=P.vtol, scale=lam * P.val(abs(x)))
                return
        x = w.arr('x', P.shape)
        a = P.make(lagrange=1)
        bad = False
        if w.symbolic:
            i = w.index('i', P.shape[0])
            off = x if P.dom is not zoo.none else -abs(P.zer(x)[0])
            w.assume(off[i] < -0.001)
            if P.dom is zoo.none:
                w.lemma_sum_at('the entry alone', off * off, i)
                w.lemma('the entry squared', off[i] * off[i] >= .001 ** 2)
            bad = True
        else:
            for d in P.dom(x):
                bad = bad or (d < -1e-3).any()
            for d in P.zer(x):
                bad = bad or (np.fabs(d) > 1e-3).any()
        w.assume(bad)
        w.true('infinite off the domain', w.isinf(a.seminorm(x, check_feasibility=True)))
        a = P.make(bound=w.nonneg('b'))
        w.true('constraint infinite off the domain', w.isinf(a.constraint(x)))


for nm, mk in zoo.ALL.items():
    make(nm, mk)


def function(name, mk):
    """constraints, cones and the penalties that are not norms: value on the
    domain, infinity off it, offset and quadratic added"""
    f = mk.file
    fn = [f + '.constraint', f + '.nonsmooth_objective', 'regreg/atoms/cones.py:cone.nonsmooth_objective', 'regreg/problems/composite.py:composite.apply_offset']
    kw = dict(stubs=kernels.atom_stubs, sym=mk.sym, note='outside the symbolic subset', paths=2000)

    @contract('P02', name + ' inside', fn, **kw)
    def ins(w):
        F = mk(w)
        off, q = extras(w, F.shape)
        y = zoo.inside(w, F, 'x')
        x = y if off is None else y + off
        a = F.make(offset=off, quadratic=None if q is None else identity_quadratic(*q))
        snap = w.snap(x, off)
        val = F.val(y) + qval(w, q, x)
        sc = None if w.symbolic else [1 + abs(val) + abs(qval(w, q, x)), np.max(np.fabs(x))]
        w.eq('value', a.nonsmooth_objective(x), val, tol=F.vtol, scale=sc)
        w.eq('value, feasibility checked', a.nonsmooth_objective(x, check_feasibility=True), val, tol=F.vtol, scale=sc)
        w.eq('as an objective', a.objective(x, check_feasibility=True), val, tol=F.vtol, scale=sc)
        w.unchanged('arguments unchanged', snap)

    @contract('P02', name + ' outside', fn, stubs=kernels.atom_stubs, sym=False, note='distance from the set is judged concretely')
    def out(w):
        F = mk(w)
        off, q = extras(w, F.shape)
        y = w.arr('x', F.shape)
        w.assume(zoo.outside(F, y))
        x = y if off is None else y + off
        a = F.make(offset=off, quadratic=None if q is None else identity_quadratic(*q))
        if abs(qval(w, q, x)) < 1e6:
            w.true('infinite outside', w.isinf(a.nonsmooth_objective(x, check_feasibility=True)))
            if off is None:
                try:
                    v = a.constraint(y)
                except ValueError:
                    v = np.inf        # a penalty in Lagrange form has no bound to check against
                w.true('constraint infinite outside', w.isinf(v))
        ext = qval(w, q, x)
        if F.form == 'c':
            w.eq('feasibility not asked for', a.nonsmooth_objective(x), ext, scale=[1 + abs(ext)])


for nm, mk in zoo.FNS.items():
    function(nm, mk)


@contract('P02', 'group weights after a change', ['regreg/atoms/group_lasso.py:group_lasso.set_weight'], sym=False, cases=200, note='group penalties')
def reweighted(w):
    """a penalty whose weights are set one by one is the penalty built with them"""
    from regreg.atoms import group_lasso as GL, sparse_group_lasso as SG
    n = w.dim('n', 1, 7)
    g = w.rng.integers(0, 3, n)
    old, new = [dict((int(k), float(v)) for k, v in zip(np.unique(g), w.rng.uniform(.1, 3, 3))) for _ in range(2)]
    kind = w.choice('penalty', ['group_lasso', 'group_lasso_dual', 'sparse_group_lasso', 'sparse_group_lasso_dual'])
    how = w.choice('form', ['lagrange', 'bound'])
    c = w.pos('parameter')
    lw = w.rng.uniform(.1, 2, n)

    def make(wt):
        if kind.startswith('sparse'):
            return getattr(SG, kind)(g, lw.copy(), weights=dict(wt), **{how: c})
        return getattr(GL, kind)(g, weights=dict(wt), **{how: c})
    a, b = make(old), make(new)
    x, v = w.rng.standard_normal(n), w.rng.standard_normal(n) * 3
    if w.choice('used before', [True, False]):
        a.seminorm(x, lagrange=1.), a.objective(x)
    for k in np.unique(g):
        if w.choice('changed?', [True, True, False]):
            a.set_weight(k, new[k])
        else:
            b.set_weight(k, old[k])
    w._rec('weights', [float(a.weights[k]) for k in np.unique(g)])
    for k in np.unique(g):
        w.eq('weights', a.weights[k], b.weights[k])
    w.eq('value', a.seminorm(x, lagrange=1.), b.seminorm(x, lagrange=1.), tol=1e-9)
    wt = np.array([a.weights[k] for k in np.unique(g)])
    nrm = np.array([np.linalg.norm(x[g == k]) for k in np.unique(g)])
    if kind == 'group_lasso':
        w.eq('formula', a.seminorm(x, lagrange=1.), (wt * nrm).sum(), tol=1e-9)
    elif kind == 'group_lasso_dual':
        w.eq('formula', a.seminorm(x, lagrange=1.), (nrm / wt).max(), tol=1e-9)
    elif kind == 'sparse_group_lasso':
        w.eq('formula', a.seminorm(x, lagrange=1.), (wt * nrm).sum() + (lw * np.fabs(x)).sum(), tol=1e-9)
    from regreg.identity_quadratic import identity_quadratic as iq
    if kind.startswith('sparse') and (how == 'bound') == (kind == 'sparse_group_lasso'):
        return    # no proximal map
    p = [o.proximal(iq(1.3, v, 0, 0)) for o in (a, b)]
    w.eq('proximal map', p[0], p[1], tol=1e-5)
