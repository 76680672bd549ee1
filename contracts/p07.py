"""P07: proximal calls honour offsets, linear terms and quadratics exactly"""
import numpy as np
from pyvc.runner import contract
from pyvc import kernels
from contracts import zoo
from regreg.identity_quadratic import identity_quadratic as iq

IQ = 'regreg/identity_quadratic.py:identity_quadratic.'


def quad(w, name, shape, coef, sym=None):
    """an identity quadratic with any of its parts missing; returns (object, gradient, value)"""
    cen = w.choice(name + ' center', ['array', 'none', 'zero'], sym=sym)
    lin = w.choice(name + ' linear', ['array', 'none', 'zero'], sym=sym)
    c = {'array': lambda: w.arr(name + '_center', shape), 'none': lambda: None, 'zero': lambda: 0}[cen]()
    l = {'array': lambda: w.arr(name + '_linear', shape), 'none': lambda: None, 'zero': lambda: 0}[lin]()
    k = w.real(name + '_const')
    z = lambda a: 0 if a is None else a
    return iq(coef, c, l, k), lambda x: coef * (x - z(c)) + z(l) + 0 * x, lambda x: coef * ((x - z(c)) ** 2).sum() / 2 + (z(l) * x).sum() + k, (c, l)


def setting(w, F):
    """offset, stored quadratic, passed quadratic; the sum has positive coefficient"""
    off = w.arr('offset', F.shape) if w.choice('offset?', [True, False]) else None
    which = w.choice('positive coefficient', ['passed', 'stored', 'both'])
    stored = True if which != 'passed' else w.choice('stored?', [True, False])
    q1 = quad(w, 'stored', F.shape, w.pos('c1') if which != 'passed' else 0) if stored else None
    q2 = quad(w, 'passed', F.shape, w.pos('c2') if which != 'stored' else 0)
    return off, q1, q2


def build(w, F, off, q1):
    k = {}
    if off is not None:
        k['offset'] = off
    if q1 is not None:
        k['quadratic'] = q1[0]
    return F.make(**k)


def total(q1, q2):
    return lambda x: q2[1](x) + (q1[1](x) if q1 is not None else 0)


def state(w, off, q1, q2):
    s = [off] if off is not None else []
    for q in (q1, q2):
        if q is not None:
            s += [a for a in q[3] if a is not None and not isinstance(a, int)] + [q[0].coef, q[0].constant_term]
    return w.snap(*s)


def sizes(w, p, off, q1, q2):
    if w.symbolic:
        return None
    m = [np.fabs(p)]
    if off is not None:
        m.append(np.fabs(off))
    for q in (q1, q2):
        if q is not None:
            m.append(np.fabs(q[1](p)) + np.fabs(q[0].coef * p))
            if q[3][0] is not None:
                m.append(np.fabs(q[0].coef * np.asarray(q[3][0]) + 0 * p))
            if q[3][1] is not None:
                m.append(np.fabs(np.asarray(q[3][1]) + 0 * p))
    return sum(m)


def certify(w, F, p, off, q1, q2, what=''):
    y = p - off if off is not None else p
    g = -1 * total(q1, q2)(p)
    zoo.certificate(w, F, y, g, sizes(w, p, off, q1, q2), what)


def make(name, mkF, file, modular):
    note = 'end to end: bounded; the modular contract is the deductive one'

    @contract('P07', name + ' proximal', [file + '.proximal'], sym=False, note=note)
    def prox(w):
        F = mkF(w)
        off, q1, q2 = setting(w, F)
        a = build(w, F, off, q1)
        st = state(w, off, q1, q2)
        p = a.proximal(q2[0])
        w.true('shape of the atom', tuple(p.shape) == tuple(F.shape))
        w.finite('finite entries', p)
        certify(w, F, p, off, q1, q2)
        w.unchanged('offset, quadratics unchanged', st)
        w.true('stored objects kept', (a.offset is None or off is not None) and (q1 is None or a.quadratic is q1[0]))
        again = a.proximal(q2[0])
        w.eq('repeating the call', again, p, tol=1e-12)

    @contract('P07', name + ' solve', [file + '.solve', 'regreg/problems/composite.py:nonsmooth.solve', 'regreg/problems/composite.py:composite.proximal_optimum'], sym=False, note=note, cases=150)
    def solve(w):
        F = mkF(w)
        off, q1, q2 = setting(w, F)
        a = build(w, F, off, q1)
        st = state(w, off, q1, q2)
        how = w.choice('how', ['solve', 'solve value', 'proximal_optimum'])
        if how == 'solve':
            p, v = a.solve(quadratic=q2[0]), None
        elif how == 'solve value':
            v, p = a.solve(quadratic=q2[0], return_optimum=True)
        else:
            p, v = a.proximal_optimum(q2[0])
        certify(w, F, p, off, q1, q2)
        if v is not None:
            y = p - off if off is not None else p
            val = F.val(y) + q2[2](p) + (q1[2](p) if q1 is not None else 0)
            s = sizes(w, p, off, q1, q2)
            w.eq('reported optimum', v, val, scale=[1 + np.sum(s * s) + abs(val) + (abs(q1[0].constant_term) if q1 else 0)] if not w.symbolic else None, tol=F.vtol)
        w.unchanged('offset, quadratics unchanged', st)


def proto(nm):
    cls = {'weighted l1norm': zoo.WA.l1norm, 'weighted supnorm': zoo.WA.supnorm, 'slope': zoo.SL.slope, 'slope_conjugate': zoo.SL.slope_conjugate,
           'group_lasso': zoo.GL.group_lasso, 'group_lasso_dual': zoo.GL.group_lasso_dual,
           'sparse_group_lasso': zoo.SG.sparse_group_lasso, 'sparse_group_lasso_dual': zoo.SG.sparse_group_lasso_dual}[nm]
    args = (np.array([0, 0, 1]), np.ones(3)) if nm.startswith('sparse') else (np.array([0, 0, 1]),) if nm.startswith('group') else (np.array([3., 2., 1.]),)
    made = {}
    for form in ('lagrange', 'bound'):
        try:
            made[form] = cls(*args, **{form: 1.})
        except Exception:
            pass

    def fresh(form):
        a = cls.__new__(cls)
        a.__dict__.update(made[form].__dict__)
        return a
    return fresh


PROTO = dict((k, proto(k)) for k in ('weighted l1norm', 'weighted supnorm', 'slope', 'slope_conjugate', 'group_lasso', 'group_lasso_dual', 'sparse_group_lasso', 'sparse_group_lasso_dual'))


def modular(name, mkF, file, meth, nm=None):
    """proximal calls the prox of its class through that function's contract"""
    @contract('P07', name + ' proximal, modular', [file + '.proximal', IQ + 'recenter', IQ + 'collapsed', IQ + '__add__'], cases=60, paths=3000, stubs=kernels.atom_stubs)
    def mod(w):
        if w.symbolic and nm in PROTO:
            # proximal is specified over the object's state, however it was constructed
            n = w.dim('n')
            par = w.nonneg('par')
            F = zoo.Fn(name, None, (n,), None, None, par=par)
            off, q1, q2 = setting(w, F)
            a = PROTO[nm]('lagrange' if meth == 'lagrange_prox' else 'bound')
            a.shape = (n,)
            a.coefs = w.arr('coefs', F.shape)
            if meth == 'lagrange_prox':
                a.lagrange = par
            else:
                a.bound = par
            if off is not None:
                a.offset = off
            if q1 is not None:
                a.quadratic = q1[0]
        else:
            F = mkF(w)
            off, q1, q2 = setting(w, F)
            a = build(w, F, off, q1)
        st = state(w, off, q1, q2)
        calls = []

        def inner(arg, *args, **kw):
            r = w.arr('inner', F.shape)
            calls.append((arg, args, kw, r))
            return r
        setattr(a, meth, inner)
        p = a.proximal(q2[0])
        w.true('the class prox is called once', len(calls) == 1)
        arg, args, kw, r = calls[0]
        c = (q1[0].coef if q1 is not None else 0) + q2[0].coef
        w.true('shape of its argument', tuple(np.shape(arg)) == tuple(F.shape)) if not w.symbolic else None
        w.eq('result = prox + offset', p, r + off if off is not None else r)
        w.eq('its argument is the minimiser of the recentred quadratics', c * (arg - r), -1 * total(q1, q2)(p), scale=sizes(w, p, off, q1, q2))
        if meth == 'lagrange_prox':
            w.eq('curvature passed on', kw.get('lipschitz', args[0] if args else None), c)
            w.eq('lagrange passed on', kw.get('lagrange'), F.par)
        elif meth == 'bound_prox':
            w.eq('bound passed on', kw.get('bound', args[0] if args else None), F.par)
        elif meth == '_basic_prox':
            w.eq('curvature passed on', kw.get('lipschitz', args[0] if args else None), c)
        w.unchanged('offset, quadratics unchanged', st)


def lagr(mk):
    return lambda w: zoo.lagrange_fn(w, mk(w))


def bnd(mk):
    def f(w):
        P = mk(w)
        if 'b' not in P.caps:
            from pyvc.world import Skip
            raise Skip()
        return zoo.bound_fn(w, P)
    return f


def lagr_(mk):
    def f(w):
        P = mk(w)
        if 'l' not in P.caps:
            from pyvc.world import Skip
            raise Skip()
        return zoo.lagrange_fn(w, P)
    return f


MOD = tuple(nm for nm in zoo.ALL)
NOL = ('block_max', 'slope_conjugate', 'sparse_group_lasso_dual', 'sparse_group_block_dual')
NOB = ('block_sum', 'slope', 'sparse_group_lasso', 'sparse_group_block')
for nm, mk in zoo.ALL.items():
    if nm not in NOL:
        make(nm + ' lagrange', lagr(mk), mk.file, None)
        if mk.sym or nm in MOD:
            modular(nm + ' lagrange', lagr(mk), mk.file, 'lagrange_prox', nm)
    if nm not in NOB:
        make(nm + ' bound', bnd(mk), mk.file, None)
        if mk.sym or nm in MOD:
            modular(nm + ' bound', bnd(mk), mk.file, 'bound_prox', nm)
for nm, mk in zoo.CONES.items():
    make(nm, mk, mk.file, None)
    if mk.sym:
        modular(nm, mk, mk.file, 'cone_prox')
for nm in ('simplex_constraint', 'maximum', 'projection', 'projection_complement', 'mixed_lasso', 'mixed_lasso_dual'):
    make(nm, zoo.FNS[nm], zoo.FNS[nm].file, None)
for nm in ('simplex_constraint', 'maximum'):
    modular(nm, zoo.FNS[nm], zoo.FNS[nm].file, '_basic_prox')
