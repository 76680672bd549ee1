"""P05: conjugates pair each penalty with its dual norm, bound with Lagrange"""
import numpy as np
from pyvc.runner import contract
from pyvc.world import Skip
from pyvc import kernels
from contracts import zoo
from contracts.p02 import indomain, qval
from regreg.identity_quadratic import identity_quadratic as iq


def functions(w, P, both=True):
    """the function of the penalty: Lagrange or bound form"""
    forms = [c for c in 'lb' if c in P.caps]
    f = w.choice('form', forms)
    return zoo.lagrange_fn(w, P) if f == 'l' else zoo.bound_fn(w, P)


def feasible(w, F, side, name):
    """a point where the function (side 0) or its conjugate (side 1) is finite"""
    P = F.pen
    x = w.arr(name, P.shape)
    dom, zer, val = (P.dom, P.zer, P.val) if side == 0 else (P.ddom, P.dzer, P.dval)
    if dom is not zoo.none:
        x = abs(x)
    if not w.symbolic:
        x = np.array(x)
        for d in zer(np.arange(x.size, dtype=float).reshape(x.shape)):
            x.reshape(-1)[d.astype(int)] = 0
    else:
        for d in zer(x):
            x = x - d
    if (F.form == 'b') == (side == 0):
        if w.symbolic:
            w.assume(val(x) <= F.par)
        else:
            k = val(x)
            if k > F.par:
                x = x * (F.par / k) * (1 - 1e-12)
    return x


def lifted(off, q, shape, w):
    """f(x) = F(x-off) + <lin,x> + const"""
    lin = q[2] if q is not None else None
    con = q[3] if q is not None else 0
    return lin, con


def plus(a, b):
    return a if b is None else a + b


def make(name, mk):
    f = mk.file
    S = 'regreg/atoms/seminorms.py:seminorm'
    kw = dict(stubs=kernels.atom_stubs, sym=mk.sym, note='penalty outside the symbolic subset', paths=2000)
    fn = [f + '.get_conjugate', S + '.get_conjugate', 'regreg/atoms/__init__.py:_work_out_conjugate']

    @contract('P05', name + ' conjugate values', fn, **kw)
    def values(w):
        """the conjugate evaluates to F*(u - lin) + <u-lin,off> - const"""
        P = mk(w)
        F = functions(w, P)
        off, q = zoo.extras(w, P.shape)
        lin, con = lifted(off, q, P.shape, w)
        y = feasible(w, F, 1, 'u')
        u = plus(y, lin)
        snap = w.snap(off, lin)
        a = F.make(offset=off, quadratic=None if q is None else iq(*q))
        c = a.conjugate
        exp = F.cval(y) - con
        if off is not None:
            exp = exp + (y * off).sum()
        sc = None
        if not w.symbolic:
            yy = u if lin is None else u - lin
            sc = 1 + abs(F.cval(y)) + abs(con) + (0 if off is None else np.fabs(y * off).sum()) + np.fabs(u).max() * (1 if off is None else np.fabs(off).sum())
            if off is not None and lin is not None:
                sc = sc + np.fabs(lin * off).sum()
        w.eq('conjugate value', c.nonsmooth_objective(u), exp, scale=sc, tol=F.vtol)
        w.unchanged('offset and linear term unchanged', snap)
        # the class and the form
        w.true('form is exchanged', (c.lagrange is None) == (a.bound is None) and (c.bound is None) == (a.lagrange is None))
        w.eq('parameter is exchanged', c.bound if a.bound is None else c.lagrange, F.par)

    @contract('P05', name + ' conjugate of the conjugate', fn, **kw)
    def twice(w):
        P = mk(w)
        F = functions(w, P)
        off, q = zoo.extras(w, P.shape)
        lin, con = lifted(off, q, P.shape, w)
        y = feasible(w, F, 0, 'x')
        x = plus(y, off)
        a = F.make(offset=off, quadratic=None if q is None else iq(*q))
        b = a.conjugate.conjugate
        v = a.nonsmooth_objective(x)
        sc = None
        if not w.symbolic:
            sc = 1 + abs(v) + np.fabs(x).max() * (1 if lin is None else np.fabs(lin).sum()) + (0 if off is None or lin is None else np.fabs(off * lin).sum())
        w.true('same class', type(a) is type(b))
        w.eq('same function', b.nonsmooth_objective(x), v, scale=sc, tol=F.vtol)
        exp = F.val(y) + con
        if lin is not None:
            exp = exp + (lin * x).sum()
        w.eq('the function is the one stated', v, exp, scale=sc, tol=F.vtol)

    @contract('P05', name + ' Moreau', fn + [f + '.lagrange_prox', f + '.bound_prox', S + '.proximal'], **kw)
    def moreau(w):
        P = mk(w)
        F = functions(w, P)
        off, q = zoo.extras(w, P.shape)
        lin, con = lifted(off, q, P.shape, w)
        v = w.arr('v', P.shape)
        a = F.make(offset=off, quadratic=None if q is None else iq(*q))
        c = a.conjugate
        p1 = a.proximal(iq(1, v, 0, 0))
        p2 = c.proximal(iq(1, v, 0, 0))
        sc = None if w.symbolic else [np.fabs(v).max()] + ([] if off is None else [np.fabs(off).max()]) + ([] if q is None or q[2] is None else [np.fabs(q[2]).max()])
        if name in ('l1_l2', 'linf_l2'):
            t = v - (0 if off is None else off) - (0 if lin is None else lin)
            w.lemma_row_entry('entry at most the norm of its row', t * t)
            w.lemma_all('rows of norm zero', (zoo.rown(w, t)[:, None] > 0) | (t * t <= 0))
            w.lemma_all('entries of rows of norm zero', (zoo.rown(w, t)[:, None] > 0) | (t == 0))
        w.eq('v = prox(v) + prox of the conjugate', p1 + p2, v, scale=sc, tol=F.tol * (1 if F.tol < 1e-5 else 10))
        if not w.symbolic:
            # Fenchel is tight there
            s = scal2(sc)
            tot = a.nonsmooth_objective(p1) + c.nonsmooth_objective(v - p1)
            w.eq('Fenchel tight at the proximal point', tot, (p1 * (v - p1)).sum(), scale=[s, abs(a.nonsmooth_objective(p1)), abs(F.par) * np.max(sc) * P.val(np.ones(P.shape))], tol=F.vtol)

    @contract('P05', name + ' Fenchel', fn, **kw)
    def fenchel(w):
        P = mk(w)
        F = functions(w, P)
        off, q = zoo.extras(w, P.shape)
        lin, con = lifted(off, q, P.shape, w)
        y, z = feasible(w, F, 0, 'x'), feasible(w, F, 1, 'u')
        x, u = plus(y, off), plus(z, lin)
        a = F.make(offset=off, quadratic=None if q is None else iq(*q))
        c = a.conjugate
        fx, fu = a.nonsmooth_objective(x), c.nonsmooth_objective(u)
        sc = None
        if not w.symbolic:
            sc = [1, abs(fx), abs(fu), np.fabs(x * u).sum(), abs(con)] + [np.fabs(m * n).sum() for m in (x, u) for n in (off, lin) if n is not None] \
                + ([np.fabs(off * lin).sum()] if off is not None and lin is not None else [])
        if w.symbolic:
            holder(w, name, y, z, F)
        w.ge('f(x) + f*(u) >= <x,u>', fx + fu, (x * u).sum(), scale=sc, tol=F.vtol)

    @contract('P05', name + ' smooth conjugate', fn + ['regreg/problems/composite.py:smooth_conjugate.smooth_objective', 'regreg/problems/composite.py:nonsmooth.solve'],
              stubs=kernels.atom_stubs, sym=False, cases=150, note='value and gradient of the smoothed conjugate, by the certificate of its maximiser')
    def smoothc(w):
        """coef > 0: the conjugate is smooth; at u its gradient x attains the sup"""
        P = mk(w)
        F = functions(w, P)
        off, q = zoo.extras(w, P.shape, coef=True)
        if q is None:
            raise Skip()
        a = F.make(offset=off, quadratic=iq(*q))
        c = a.conjugate
        u = w.arr('u', P.shape)
        v, x = c.smooth_objective(u, 'both')
        y = x if off is None else x - off
        d = x if q[1] is None else x - q[1]
        g = u - q[0] * d - (0 if q[2] is None else q[2])
        sc = [np.fabs(t).max() for t in (u, x, q[0] * x, off, q[1], q[2], None if q[1] is None else q[0] * q[1]) if t is not None]
        zoo.certificate(w, F, y, g, max(sc), 'gradient attains the supremum: ')
        fx = F.val(y) + q[0] / 2. * (d * d).sum() + (0 if q[2] is None else (q[2] * x).sum()) + q[3]
        w.eq('value at the maximiser', v, (u * x).sum() - fx, scale=[scal2(sc), abs(fx)], tol=F.vtol)
        w.eq('func mode', c.smooth_objective(u, 'func'), v, scale=[scal2(sc)], tol=F.vtol)
        w.eq('grad mode', c.smooth_objective(u, 'grad'), x, scale=sc)
        w.true('bi-conjugate is the atom', c.conjugate is a)


def scal2(sc):
    m = max([1.] + [float(s) for s in sc])
    return m * m


def holder(w, name, y, z, F):
    """Hoelder's inequality, entry by entry: the l1-type side against the sup-type side"""
    P = F.pen
    l1 = {'l1norm': abs, 'positive_part': lambda t: zoo.pos(w, t), 'constrained_positive_part': lambda t: zoo.pos(w, t),
          'l1_l1': abs, 'l1_l2': lambda t: zoo.rown(w, t)}
    if name.startswith('weighted'):
        return weighted_holder(w, name, y, z, F)
    if name.startswith('group_lasso'):
        return group_holder(w, name, y, z, F)
    dual = zoo.SEMI[name][2] if name in zoo.SEMI else zoo.BLOCK[name][2] if name in zoo.BLOCK else None
    if dual is None or name == 'l2norm':
        return
    primal = name in l1
    a, b = (y, z) if primal else (z, y)      # a: l1 side, b: sup side
    r = l1[name] if primal else l1[dual]
    # level: a bound of the sup side, where it is constrained, else its norm
    on_b = (F.form == 'l') == primal
    M = F.par if on_b else (P.dval(b) if primal else P.val(b))
    if 'l1_l2' in (name, dual):
        w.lemma_sum('pairing bounded row by row', r(a) * r(b) - (a * b).sum(1))
        w.lemma_all('level bounds the rows', M >= r(b))
        w.lemma_sum('rows at most the largest', M * r(a) - r(a) * r(b))
    else:
        if name in zoo.BLOCK:
            w.lemma_all('level bounds the entries', M >= r(b))
            w.lemma_sum('entries at most the largest', M * r(a) - r(a) * r(b))
            w.lemma_sum('pairing bounded entry by entry', r(a) * r(b) - a * b)
        else:
            w.lemma_sum('pairing bounded entry by entry', M * r(a) - a * b)
    if not on_b:
        w.lemma_product('product of the two bounds', M, F.par - r(a).sum())


def weighted_holder(w, name, y, z, F):
    P = F.pen
    primal = name == 'weighted l1norm'
    a, b = (y, z) if primal else (z, y)
    wv, sv = P.aux if primal else P.aux[::-1]
    on_b = (F.form == 'l') == primal
    M = F.par if on_b else (P.dval(b) if primal else P.val(b))
    w.lemma_all('level bounds the entries', M >= abs(b) * sv)
    w.lemma_sum('entries at most the level', M * wv * abs(a) - abs(a) * abs(b))
    w.lemma_sum('pairing bounded entry by entry', abs(a) * abs(b) - a * b)
    if not on_b:
        w.lemma_product('product of the two bounds', M, F.par - (wv * abs(a)).sum())


def group_holder(w, name, y, z, F):
    P, N = F.pen, w.np
    primal = name == 'group_lasso'
    a, b = (y, z) if primal else (z, y)
    groups, full, zero = P.aux
    on_b = (F.form == 'l') == primal
    M = F.par if on_b else (P.dval(b) if primal else P.val(b))
    pairs, mass = 0, 0
    for k in sorted(full):
        m = groups == k
        t = N.where(m, a * b, 0)
        pairs = pairs + t
        X, U = N.linalg.norm(a[m]), N.linalg.norm(b[m])
        if k in zero:
            w.lemma_sum_eq('nothing dual to a free group', t, 0 * a)
            continue
        w.lemma('Cauchy-Schwarz', t.sum() <= X * U)
        w.lemma('level bounds the group', U <= M * full[k])
        w.lemma_product('group at most the level', X, M * full[k] - U)
        mass = mass + full[k] * X
    w.lemma_sum_eq('pairing group by group', a * b, pairs)
    if not on_b:
        w.lemma_product('product of the two bounds', M, F.par - mass)


def changed(name, mk):
    @contract('P05', name + ' after a parameter change', [mk.file + '.get_conjugate', mk.file + '.set_lagrange', mk.file + '.set_bound'], stubs=kernels.atom_stubs, sym=mk.sym, note='penalty outside the symbolic subset')
    def c(w):
        P = mk(w)
        F = functions(w, P)
        a = F.make()
        new = w.nonneg('new')
        if F.form == 'l':
            a.lagrange = new
        else:
            a.bound = new
        G = zoo.lagrange_fn(w, P, new) if F.form == 'l' else zoo.bound_fn(w, P, new)
        v = w.arr('v', P.shape)
        c = a.conjugate
        w.eq('conjugate has the new parameter', c.bound if F.form == 'l' else c.lagrange, new)
        sc = None if w.symbolic else [np.fabs(v).max()]
        w.eq('Moreau after the change', a.proximal(iq(1, v, 0, 0)) + c.proximal(iq(1, v, 0, 0)), v, scale=sc, tol=F.tol * (1 if F.tol < 1e-5 else 10))


for nm, mk in zoo.ALL.items():
    make(nm, mk)
    changed(nm, mk)
