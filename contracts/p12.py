"""P12: evaluation never changes its arguments, weights, data or earlier results.

Each contract lists calls; every call is made twice, interleaved with all the
others.  Ensured: the second round returns the numbers of the first, no array
returned in the first round has changed since, and neither arguments nor
arrays held by the object have."""
import numpy as np
from copy import copy
from scipy import sparse
from pyvc.runner import contract
from pyvc.world import Skip
from pyvc import kernels
from contracts import zoo, affzoo, losszoo
from contracts.affzoo import AFF
from contracts.losszoo import ALL, BASE, Opts, fn, GLM, MGL
from contracts.p07 import quad
from regreg.identity_quadratic import identity_quadratic as iq
from regreg.atoms import affine_atom
from regreg.smooth import affine_smooth, glm as GM, mglm as MG, quadratic as Q
import regreg.smooth as SM
import regreg.affine as AF


def parts(r):
    """arrays and numbers of a result"""
    if r is None or isinstance(r, (bool, str)):
        return []
    if isinstance(r, (tuple, list)):
        return [y for x in r for y in parts(x)]
    if isinstance(r, iq):
        return parts([r.coef, r.center, r.linear_term, r.constant_term])
    if sparse.issparse(r):
        return [r.toarray()]
    return [r]


def pure(w, calls, held, tol=1e-12):
    snap = w.snap(*[h for h in held if h is not None])
    first = []
    for name, f in calls:
        r = parts(f())
        first.append((name, f, r, [w.copy(x) for x in r]))
    for name, f, r, s in first:
        again = parts(f())
        w.true(name + ': same kind of result', len(again) == len(s))
        for x, y in zip(again, s):
            w.eq(name + ': repeating the call', x, y, tol=tol)
    for name, f, r, s in first:
        for x, y in zip(r, s):
            w.eq(name + ': earlier result unchanged', x, y, tol=0 if not w.symbolic else None)
    w.unchanged('arguments and held arrays unchanged', snap)


# -- transforms --------------------------------------------------------------

def transform(nm, mk):
    f = mk.file

    @contract('P12', 'transform ' + nm, [f + '.' + m for m in ('linear_map', 'affine_map', 'adjoint_map')] if f[-1] != ':' else [f], sym=mk.sym, paths=mk.paths, cases=150, note='transform outside the symbolic subset')
    def run(w):
        S = mk(w)
        T = S.T
        calls, args = [], []
        for k in ('', '2'):
            x, u = w.arr('x' + k, S.ins), w.arr('u' + k, S.outs)
            args += [x, u]
            calls += [('linear_map', lambda x=x: T.linear_map(x)), ('affine_map', lambda x=x: T.affine_map(x)), ('adjoint_map', lambda u=u: T.adjoint_map(u))]
        pure(w, calls, args + S.held)


for nm, mk in AFF.items():
    transform(nm, mk)


# -- penalties ---------------------------------------------------------------

def ctor_arrays(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in ctor_arrays(y)]
    if isinstance(x, dict):
        return [z for y in x.values() for z in ctor_arrays(y)]
    return [x] if hasattr(x, 'buf') else []


def extra(w, shape):
    off = w.arr('offset', shape) if w.choice('offset?', [True, False]) else None
    q = quad(w, 'stored', shape, 0 if w.choice('flat?', [True, False], sym=[False]) else w.pos('c1'), sym=['array']) if w.choice('quadratic?', [True, False]) else None
    return off, q


def kw_of(off, q):
    k = {}
    if off is not None:
        k['offset'] = off
    if q is not None:
        k['quadratic'] = q[0]
    return k


def qarr(*qs):
    return [a for q in qs if q is not None for a in q[3] if a is not None and not isinstance(a, int)]


def qsame(w, q):
    """the parts of a quadratic object, a missing part standing for zero"""
    if q is None:
        return None
    z = lambda a: 0. if a is None else w.copy(a)
    q = q[0]
    return q, [z(a) for a in (q.coef, q.constant_term, q.center, q.linear_term)]


def kept(w, name, s):
    if s is not None:
        q, old = s
        for a, b in zip((q.coef, q.constant_term, q.center, q.linear_term), old):
            w.eq(name, 0. if a is None else a, b, tol=0 if not w.symbolic else None)


def penalty(nm, mk, form):
    f = mk.file
    prox = form + '_prox'

    @contract('P12', 'penalty %s in %s form' % (nm, form), [f + '.' + m for m in ('seminorm', 'constraint', 'nonsmooth_objective', 'proximal', prox)],
              sym=mk.sym, stubs=kernels.atom_stubs, paths=2000, cases=150, note='penalty outside the symbolic subset')
    def run(w):
        w.few = True
        P = mk(w)
        if form[0] not in P.caps:
            raise Skip()
        lam = w.pos('lam')
        off, q1 = extra(w, P.shape)
        q2 = quad(w, 'passed', P.shape, w.pos('c2'), sym=['array'])
        a = P.make(**dict({form: lam}, **kw_of(off, q1)))
        L = w.pos('L')
        calls, args = [], []
        for k in ('', '2') if not w.symbolic else ('',):
            x, v = w.arr('x' + k, P.shape), w.arr('v' + k, P.shape)
            args += [x, v]
            calls += [('seminorm', lambda x=x: a.seminorm(x, lagrange=L)), ('feasible seminorm', lambda x=x: a.seminorm(x, lagrange=L, check_feasibility=True)),
                      ('objective', lambda x=x: a.nonsmooth_objective(x, check_feasibility=False)),
                      ('feasible objective', lambda x=x: a.nonsmooth_objective(x, check_feasibility=True))]
            if form == 'bound':
                calls += [('constraint', lambda x=x: a.constraint(x)), ('bound_prox', lambda v=v: a.bound_prox(v, bound=lam))]
            else:
                calls += [('lagrange_prox', lambda v=v: a.lagrange_prox(v, lipschitz=L, lagrange=lam))]
        calls += [('proximal', lambda: a.proximal(q2[0]))]
        if not w.symbolic:
            calls += [('latexify', lambda: a.latexify()), ('conjugate', lambda: a.conjugate.nonsmooth_objective(x) if hasattr(a.conjugate, 'seminorm') else None)]
        qs = [qsame(w, q) for q in (q1, q2)]
        held = args + qarr(q1, q2) + [off] + (ctor_arrays(P.args) + ctor_arrays(P.kw) if not w.symbolic else [W for W in ctor_arrays(P.args)])
        pure(w, calls, held, tol=P.tol * 1e-3)
        for s in qs:
            kept(w, 'quadratics keep their parts', s)
        w.true('the stored quadratic is kept', q1 is None or a.quadratic is q1[0])

    @contract('P12', 'copy of penalty %s in %s form' % (nm, form), [f + '.proximal', f + '.' + prox, 'regreg/atoms/seminorms.py:seminorm.__copy__'],
              sym=mk.sym, stubs=kernels.atom_stubs, paths=2000, cases=100, note='penalty outside the symbolic subset')
    def copies(w):
        w.few = True
        P = mk(w)
        if form[0] not in P.caps:
            raise Skip()
        lam = w.pos('lam')
        off, q1 = extra(w, P.shape)
        q2 = quad(w, 'passed', P.shape, w.pos('c2'), sym=['array'])
        a = P.make(**dict({form: lam}, **kw_of(off, q1)))
        x = w.arr('x', P.shape)
        b = copy(a)
        v = a.nonsmooth_objective(x)
        sc = None if w.symbolic else 1 + abs(v)
        w.eq('a copy evaluates the same', b.nonsmooth_objective(x), v, tol=1e-9, scale=sc if sc is None or np.isfinite(sc) else None)
        r = a.proximal(q2[0])
        w.eq('a copy has the same proximal map', b.proximal(q2[0]), r, tol=P.tol * 1e-3)
        s = qsame(w, (a.quadratic,)) if q1 is not None else None
        setattr(b, form, 2 * lam + 1)
        if off is None or not w.symbolic:
            b.offset = w.arr('another offset', P.shape)
        if b.quadratic is not None:
            b.quadratic.coef = b.quadratic.coef + 1
            b.quadratic.constant_term = 5.
        kept(w, "a changed copy leaves the original's quadratic alone", s)
        w.eq('a changed copy leaves the original alone', a.proximal(q2[0]), r, tol=P.tol * 1e-3)


for nm, mk in zoo.ALL.items():
    for form in ('lagrange', 'bound'):
        if (form == 'lagrange' and nm in ('block_max', 'slope_conjugate', 'sparse_group_lasso_dual', 'sparse_group_block_dual')) or \
           (form == 'bound' and nm in ('block_sum', 'slope', 'sparse_group_lasso', 'sparse_group_block')):
            continue
        penalty(nm, mk, form)


def setfn(nm, mk):
    f = mk.file

    @contract('P12', nm, [f + '.constraint', f + '.cone_prox', f + '.proximal', 'regreg/atoms/cones.py:cone.nonsmooth_objective', 'regreg/atoms/cones.py:cone.proximal'],
              sym=mk.sym, stubs=kernels.atom_stubs, paths=2000, cases=150, note='cone outside the symbolic subset')
    def run(w):
        F = mk(w)
        off, q1 = extra(w, F.shape)
        q2 = quad(w, 'passed', F.shape, w.pos('c2'), sym=['array'])
        a = F.make(**kw_of(off, q1))
        calls, args = [], []
        for k in ('', '2') if not w.symbolic else ('',):
            x, v = w.arr('x' + k, F.shape), w.arr('v' + k, F.shape)
            args += [x, v]
            calls += [('objective', lambda x=x: a.nonsmooth_objective(x, check_feasibility=False)),
                      ('feasible objective', lambda x=x: a.nonsmooth_objective(x, check_feasibility=True))]
            if hasattr(a, 'cone_prox'):
                calls += [('constraint', lambda x=x: a.constraint(x)), ('cone_prox', lambda v=v: a.cone_prox(v))]
        calls += [('proximal', lambda: a.proximal(q2[0]))]
        qs = [qsame(w, q) for q in (q1, q2)]
        pure(w, calls, args + qarr(q1, q2) + [off], tol=F.tol * 1e-3)
        for s in qs:
            kept(w, 'quadratics keep their parts', s)
        w.true('the stored quadratic is kept', q1 is None or a.quadratic is q1[0])

    @contract('P12', 'copy of ' + nm, [f + '.proximal', f + '.__copy__'], sym=mk.sym, stubs=kernels.atom_stubs, paths=2000, cases=100, note='cone outside the symbolic subset')
    def copies(w):
        F = mk(w)
        off, q1 = extra(w, F.shape)
        q2 = quad(w, 'passed', F.shape, w.pos('c2'), sym=['array'])
        a = F.make(**kw_of(off, q1))
        b = copy(a)
        r = a.proximal(q2[0])
        w.eq('a copy has the same proximal map', b.proximal(q2[0]), r, tol=F.tol * 1e-3)
        s = qsame(w, (a.quadratic,)) if q1 is not None else None
        if off is None or not w.symbolic:
            b.offset = w.arr('another offset', F.shape)
        if b.quadratic is not None:
            b.quadratic.coef = b.quadratic.coef + 1
            b.quadratic.constant_term = 5.
        kept(w, "a changed copy leaves the original's quadratic alone", s)
        w.eq('a changed copy leaves the original alone', a.proximal(q2[0]), r, tol=F.tol * 1e-3)


for nm, mk in zoo.FNS.items():
    setfn(nm, mk)


# -- quadratics --------------------------------------------------------------

IQ = 'regreg/identity_quadratic.py:identity_quadratic.'


@contract('P12', 'identity quadratics', [IQ + m for m in ('objective', 'collapsed', 'recenter', '__add__', '__copy__', 'conjugate')], paths=3000)
def quads(w):
    shape = (w.dim('n'),)
    q1 = quad(w, 'first', shape, w.pos('c1') if w.choice('curved?', [True, False]) else 0)
    q2 = quad(w, 'second', shape, w.pos('c2'))
    x, off = w.arr('x', shape), w.arr('offset', shape)
    q = q1[0]
    calls = [('objective', lambda: q.objective(x, 'both')), ('value', lambda: q.objective(x, 'func')), ('gradient', lambda: q.objective(x, 'grad')),
             ('collapsed', lambda: q.collapsed()), ('recenter', lambda: q.recenter(off)), ('sum', lambda: q + q2[0]), ('copy', lambda: copy(q)), ('true_center', lambda: q2[0].true_center),
             ('conjugate', lambda: q2[0].conjugate)]
    s = qsame(w, q1), qsame(w, q2)
    pure(w, calls, [x, off] + qarr(q1, q2))
    for t in s:
        kept(w, 'the quadratics keep their parts', t)
    b = copy(q)
    b.constant_term = b.constant_term + 1
    b.center = off
    kept(w, 'a changed copy leaves the original alone', s[0])


# -- losses ------------------------------------------------------------------

def loss(kind, mk):
    @contract('P12', 'loss ' + kind, fn(kind, 'smooth_objective', '__copy__', *(['hessian'] if kind not in ('huber', 'huber_svm', 'cox', 'stacked', 'stacked common', 'multinomial', 'multinomial baseline') else [])),
              sym=kind != 'cox', paths=1500, note='compiled kernels')
    def run(w):
        L = mk(w)
        o = Opts(w, L)
        obj = L.make(**o.kw())
        calls, args = [], []
        for k in ('', '2'):
            e = L.eta('eta' + k)
            args.append(e)
            for mode in ('func', 'grad', 'both'):
                calls.append((mode, lambda e=e, mode=mode: obj.smooth_objective(e, mode, case_weights=o.cw)))
            if L.hess is not None:
                calls.append(('hessian', lambda e=e: obj.hessian(e, case_weights=o.cw)))
            if kind == 'cox':
                r = w.arr('right' + k, L.shape)
                args.append(r)
                calls.append(('hessian_mult', lambda e=e, r=r: obj.hessian_mult(e, r, case_weights=o.cw)))
            if L.mean is not None and hasattr(obj, 'mean_function'):
                calls.append(('mean', lambda e=e: obj.mean_function(e)))
        if not w.symbolic:
            calls.append(('subsample', lambda: obj.subsample([0]).smooth_objective(e, 'grad', case_weights=o.cw)))
            calls.append(('quadratic', lambda: obj.quadratic.objective(e, 'func') if e.ndim == 1 else None))
        pure(w, calls, args + list(L.held) + [o.own, o.offset, o.cw], tol=1e-12)

    @contract('P12', 'copy of loss ' + kind, fn(kind, 'smooth_objective', '__copy__'), sym=kind != 'cox', paths=1500, cases=150, note='compiled kernels')
    def copies(w):
        L = mk(w)
        o = Opts(w, L)
        obj = L.make(**o.kw())
        e = L.eta('eta')
        f, g = w.copy(obj.smooth_objective(e, 'func')), w.copy(obj.smooth_objective(e, 'grad'))
        b = copy(obj)
        w.eq('a copy has the same value', b.smooth_objective(e, 'func'), f, tol=1e-9)
        w.eq('a copy has the same gradient', b.smooth_objective(e, 'grad'), g, tol=1e-9)
        w.eq('a copy has the same constant', b.quadratic.constant_term, obj.quadratic.constant_term, tol=1e-9)
        b.coef = 2 * o.coef + 1
        b.offset = w.arr('another offset', L.shape)
        w.eq('a changed copy leaves the value alone', obj.smooth_objective(e, 'func'), f, tol=1e-12)
        w.eq('a changed copy leaves the gradient alone', obj.smooth_objective(e, 'grad'), g, tol=1e-12)


for kind, mk in ALL.items():
    loss(kind, mk)


@contract('P12', 'loss quadratic', ['regreg/smooth/quadratic.py:quadratic_loss.smooth_objective'], paths=1500)
def qloss(w):
    L = losszoo.quadratic(w)
    calls, args = [], []
    for k in ('', '2'):
        x = w.vec('x' + k, L.n)
        args.append(x)
        for mode in ('func', 'grad', 'both'):
            calls.append((mode, lambda x=x, mode=mode: L.obj.smooth_objective(x, mode)))
    pure(w, calls, args + [L.offset, L.Q])


@contract('P12', 'glm', [GLM + 'glm.' + m for m in ('smooth_objective', 'hessian', 'linear_predictor', '__copy__', 'subsample')] + [MGL + 'mglm.smooth_objective'], sym=False, cases=1500)
def glms(w):
    """real losses composed with a design: arguments, design, data and weights unchanged"""
    from contracts.p13 import make_glm
    L, m, X, D, arrays = make_glm(w)
    p = X.shape[1]
    calls, args = [], []
    for k in ('', '2'):
        b = w._rec('beta' + k, w.rng.standard_normal((p,) + L.shape[1:]))
        args.append(b)
        for mode in ('func', 'grad', 'both'):
            calls.append((mode, lambda b=b, mode=mode: m.smooth_objective(b, mode)))
        calls += [('objective', lambda b=b: m.objective(b)), ('gradient', lambda b=b: m.gradient(b)), ('linear predictor', lambda b=b: m.linear_predictor(b))]
        if L.hess is not None or L.kind == 'cox':
            calls.append(('hessian', lambda b=b: m.hessian(b)))
        calls.append(('subsample', lambda b=b: m.subsample([0]).smooth_objective(b, 'grad')))
    pure(w, calls, args + arrays + list(L.held), tol=1e-11)
    f, g = m.smooth_objective(b, 'both')
    g = g.copy()
    c = copy(m)
    f1, g1 = c.smooth_objective(b, 'both')
    w.eq('a copy has the same value', f1, f, tol=1e-9)
    w.eq('a copy has the same gradient', g1, g, tol=1e-9, scale=max(1., np.fabs(g).max()))
    c.coef = 7.
    c.saturated_loss.coef = 3.
    c.case_weights *= 0
    c.subsample([0])
    f1, g1 = m.smooth_objective(b, 'both')
    w.eq('a changed copy leaves the value alone', f1, f, tol=1e-12)
    w.eq('a changed copy leaves the gradient alone', g1, g, tol=1e-12)


@contract('P12', 'smooth sum and affine composition', ['regreg/smooth/__init__.py:sum.smooth_objective', 'regreg/smooth/__init__.py:affine_smooth.smooth_objective'], paths=400)
def comp(w):
    from contracts.p13 import AnyLoss
    n, p = w.dim('n'), w.dim('p')
    A, off = w.mat('A', n, p), w.vec('offset', n)
    L1, L2 = AnyLoss(w, 'one', (n,)), AnyLoss(w, 'two', (n,))
    S = SM.sum([L1, L2], weights=[w.nonneg('w1'), w.nonneg('w2')])
    C = affine_smooth(L1, AF.affine_transform(A, off))
    x, b = w.vec('x', n), w.vec('b', p)
    calls = []
    for mode in ('func', 'grad', 'both'):
        calls += [('sum ' + mode, lambda mode=mode: S.smooth_objective(x, mode)), ('composition ' + mode, lambda mode=mode: C.smooth_objective(b, mode))]
    pure(w, calls, [A, off, x, b, L1.g, L2.g])
