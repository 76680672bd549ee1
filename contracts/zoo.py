"""Every penalty of regreg with its documented formula, its domain and its dual
(written from the documentation; the contracts of P02-P05, P07 use it).

val(x): finite part of the penalty; dom(x): list of (name, array) with entries
>= 0 on the domain; zer(x): list of arrays that vanish on the domain.
dval/ddom/dzer: the same for the dual norm."""
import numpy as np
from regreg.atoms import seminorms as SN, weighted_atoms as WA, group_lasso as GL, block_norms as BN
from regreg.atoms import slope as SL, sparse_group_lasso as SG, sparse_group_block as SB, mixed_lasso as ML, svd_norms as SV
from regreg.atoms import simplex as SX

A = 'regreg/atoms/'


def none(x):
    return []


class Pen(object):
    """one instance of a penalty: class, constructor arguments, formulas"""

    def __init__(self, name, cls, args, shape, val, dval, dom=none, ddom=none, zer=none, dzer=none, dual=None, caps="lb", tol=1e-6, con=None, kw=None, vtol=None, hint_l=None, hint_b=None, aux=None):
        self.name, self.cls, self.args, self.shape = name, cls, args, shape
        self.val, self.dval, self.dom, self.ddom, self.zer, self.dzer = val, dval, dom, ddom, zer, dzer
        self.dual, self.caps, self.tol = dual, caps, tol
        self.vtol = vtol or tol
        self.con = con or (args,)
        self.kw = kw or {}
        self.hint_l, self.hint_b, self.aux = hint_l, hint_b, aux

    def make(self, **k):
        k = dict(self.kw, **k)
        return self.cls(*self.args, **k)


# -- seminorms -----------------------------------------------------------

def pos(w, x):
    return w.np.maximum(x, 0)


def f_l1(w, x):
    return w.np.fabs(x).sum()


def f_sup(w, x):
    return w.np.max(w.np.fabs(x))


def f_l2(w, x):
    return w.np.sqrt((x * x).sum())


def f_pp(w, x):
    return pos(w, x).sum()


def f_mxpos(w, x):
    return w.np.max(pos(w, x))


SEMI = {
    'l1norm': (f_l1, None, 'supnorm'),
    'supnorm': (f_sup, None, 'l1norm'),
    'l2norm': (f_l2, None, 'l2norm'),
    'positive_part': (f_pp, None, 'constrained_max'),
    'constrained_max': (f_mxpos, 1, 'positive_part'),
    'constrained_positive_part': (f_pp, 1, 'max_positive_part'),
    'max_positive_part': (f_mxpos, None, 'constrained_positive_part'),
}


def semi(name):
    def make(w):
        n = w.dim('n')
        f, d, dual = SEMI[name]
        g, dd, _ = SEMI[dual]
        one = lambda x: [x]
        return Pen(name, getattr(SN, name), ((n,),), (n,), lambda x: f(w, x), lambda x: g(w, x),
                   dom=one if d else none, ddom=one if dd else none, dual=getattr(SN, dual))
    make.file = A + 'seminorms.py:' + name
    make.sym = True
    return make


# -- weighted ------------------------------------------------------------

def weighted_hints(wv):
    """lemmas for the projection p on a weighted l1 ball (and its residual q): what
    is left of each entry, times its weight"""
    def hint(w, v, p, q):
        if 'cut' not in w.ghost:
            return
        cut = w.ghost['cut'][-1]
        r = wv * pos(w, abs(v) - wv * cut)
        w.lemma('mass', r.sum() == w.ghost['mass'][-1])
        w.lemma_sum_eq('mass of the projection', wv * abs(p), r)
        w.lemma_sum_eq('alignment', p * q, cut * r)
        return cut, r

    def hb(w, u, v, b):
        c = hint(w, v, u, v - u)
        if c and b != 0 and not (isinstance(c[0], int) and c[0] == 0):
            i = w.witness_pos('one exceeds the cut', c[1])
            w.lemma('at the witness', abs(v - u)[i] == c[0] * wv[i])

    def hl(w, u, v, L, lam):
        c = hint(w, v, v - u, u)
        if not c:
            return
        w.lemma_sum_eq('mass of the residual, scaled', abs(L * (v - u)) * wv, L * c[1])
        if lam != 0 and not (isinstance(c[0], int) and c[0] == 0):
            i = w.witness_pos('one exceeds the cut', c[1])
            w.lemma('at the witness', abs(u)[i] == c[0] * wv[i])

    def again(w, x, y):
        cut = w.ghost['cut'][-1] if 'cut' in w.ghost else 0
        if isinstance(cut, int):
            return
        s = wv * w.np.minimum(abs(x), wv * cut)
        w.lemma('mass splits', s.sum() == (wv * abs(x)).sum() - w.ghost['mass'][-1])
        w.lemma('no mass removed', s.sum() == 0)
    hb.again = again
    return hl, hb


def wgt(name):
    def make(w):
        n = w.dim('n')
        W = w.vec('W', n, sign='pos')
        if not w.symbolic:
            W = np.array(W)
            k = w.choice('weights', ['pos', 'zero', 'inf', 'both'])
            m = w.rng.random(n) if n else np.zeros(0)
            if k in ('zero', 'both'):
                W[m < .3] = 0
            if k in ('inf', 'both'):
                W[m > .7] = np.inf
            w.record['W used'] = W.tolist()
            fin = np.isfinite(W)
            nz = W > 0
            iW = np.where(nz, 1. / np.where(nz, W, 1), 0)
            W0 = np.where(fin, W, 0)
            l1 = lambda x: (np.fabs(x) * W0).sum()
            sup = lambda x: max([0] + list((np.fabs(x) * W0)))
            dsup = lambda x: max([0] + list((np.fabs(x) * iW)))
            dl1 = lambda x: (np.fabs(x) * iW).sum()
            WV, mass = W0, lambda x: np.fabs(x) * W0
        else:
            fin = nz = None
            k = w.choice('weights', ['pos', 'zero', 'inf', 'both'])
            if k in ('zero', 'both'):
                W = w.vec('W0', n, sign='nonneg')
                nz = W > 0
            iW = 1 / W if nz is None else w.np.where(nz, 1 / w.np.where(nz, W, 1), 0)
            WV = W
            if k in ('inf', 'both'):
                big = w.mask('infinite', n)
                fin = ~big
                nz = big | (W > 0)
                iW = w.np.where(fin, iW, 0)
                W1 = W
                WV, W = w.np.where(fin, W, 0), w.np.where(fin, W, np.inf)
            mass = lambda x: abs(x) * WV if fin is None else w.np.where(fin, abs(x) * W1, 0)
            l1 = lambda x: (abs(x) * WV).sum()
            sup = lambda x: w.np.max(abs(x) * WV)
            dsup = lambda x: w.np.max(abs(x) * iW)
            dl1 = lambda x: (abs(x) * iW).sum()
        z1 = none if fin is None else (lambda x: [w.np.where(fin, 0, x)]) if w.symbolic else (lambda x: [x[~fin]])
        z2 = none if nz is None else (lambda x: [w.np.where(nz, 0, x)]) if w.symbolic else (lambda x: [x[~nz]])
        if name == 'l1norm':
            return Pen('weighted ' + name, WA.l1norm, (W,), (n,), l1, dsup, zer=z1, dzer=z2, dual=WA.supnorm, hint_b=weighted_hints(WV)[1], aux=(WV, iW, mass))
        return Pen('weighted ' + name, WA.supnorm, (W,), (n,), sup, dl1, zer=z1, dzer=z2, dual=WA.l1norm, hint_l=weighted_hints(iW)[0], aux=(WV, iW, mass))
    make.file = A + 'weighted_atoms.py:' + name
    make.sym = True
    return make


# -- groups --------------------------------------------------------------

def draw_groups(w, zero=True):
    if w.symbolic:
        from pyvc.sym import ENG
        n = w.dim('n')
        kinds = w.choice('weights', [('pos', 'zero')] if getattr(w, 'few', False) else [('default',), ('pos',), ('zero',), ('pos', 'pos'), ('default', 'zero'), ('zero', 'pos')][:None if zero else 4])
        K = len(kinds)
        if not zero:
            kinds = ['pos' if c == 'zero' else c for c in kinds]
        g = w.labels('groups', n, K)
        weights, full = {}, {}
        for k, c in enumerate(kinds):
            w.assume((g == k).sum() >= 1)
            if c != 'default':
                weights[k] = w.pos('w%d' % k) if c == 'pos' else 0.
            full[k] = weights[k] if c != 'default' else w.np.sqrt((g == k).sum())
        ENG.ghost.setdefault('group labels', []).append((g, list(range(K))))
        return n, K, list(range(K)), g, weights, full
    n = w.dim('n')
    K = w.integer('K', 1, 4)
    if n < K:
        K = n
    g = w.labels('groups', n, K)
    lab = w.choice('labels', ['int', 'neg', 'str'])
    tab = {'int': [0, 1, 2, 3], 'neg': [5, -7, 2, 11], 'str': ['b', 'a', 'd', 'c']}[lab]
    groups = np.array([tab[i] for i in g])
    weights = {}
    for k in range(K):
        c = w.choice('wt%d' % k, ['default', 'pos', 'zero'] if zero else ['default', 'pos'])
        if c == 'pos':
            weights[tab[k]] = w.pos('w%d' % k)
        elif c == 'zero':
            weights[tab[k]] = 0.
    full = {tab[k]: weights.get(tab[k], np.sqrt((groups == tab[k]).sum())) for k in range(K)}
    return n, K, tab, groups, weights, full


def group_values(w, K, tab, groups, full):
    nrm = lambda x, k: w.np.linalg.norm(x[groups == tab[k]])
    s = lambda x: sum(full[tab[k]] * nrm(x, k) for k in range(K))
    if not w.symbolic:
        m = lambda x: max([0] + [nrm(x, k) / full[tab[k]] for k in range(K) if full[tab[k]] > 0])
        mz = lambda x: [x[groups == tab[k]] for k in range(K) if full[tab[k]] == 0]
        return s, m, mz
    zero = [k for k in range(K) if isinstance(full[k], float)]

    def m(x):
        r = 0
        for k in range(K):
            if k not in zero:
                r = w.np.maximum(r, nrm(x, k) / full[k])
        return r
    mz = lambda x: [w.np.where(groups == k, x, 0) for k in zero]
    return s, m, (mz if zero else none)


def group_hints(groups, K, invert):
    """lemmas for a point F_k * v on group k: its norms, those of the residual, and
    their product"""
    def rel(w, y, v, F, k):
        m = groups == k
        w.lemma_sum_eq('squares of a group', w.np.where(m, y * y, 0), F * F * w.np.where(m, v * v, 0))
        w.lemma('norm of a group', w.np.linalg.norm(y[m]) == F * w.np.linalg.norm(v[m]))

    def hint(w, u, v, L, inv):
        if 'factors' not in w.ghost:
            return
        fs = [1 - f if inv else f for f in w.ghost['factors'][-1]]
        q, t = L * (v - u), 0
        for k, F in enumerate(fs):
            m = groups == k
            rel(w, u, v, F, k)
            rel(w, q, v, L * (1 - F), k)
            t = t + F * L * (1 - F) * w.np.where(m, v * v, 0)
        w.lemma_sum_eq('alignment of the groups', q * u, t)
    return (lambda w, u, v, L, lam: hint(w, u, v, L, invert)), (lambda w, u, v, b: hint(w, u, v, 1, False))


def gl(name):
    def make(w):
        n, K, tab, groups, weights, full = draw_groups(w)
        kw = dict(weights=weights)
        s, m, mz = group_values(w, K, tab, groups, full)
        h = group_hints(groups, K, name == 'group_lasso_dual')
        if name == 'group_lasso':
            return Pen(name, GL.group_lasso, (groups,), (n,), s, m, dzer=mz, dual=GL.group_lasso_dual, kw=kw, hint_l=h[0], hint_b=h[1], aux=(groups, full, [k for k in full if isinstance(full[k], float)]))
        return Pen(name, GL.group_lasso_dual, (groups,), (n,), m, s, zer=mz, dual=GL.group_lasso, kw=kw, hint_l=h[0], hint_b=h[1], aux=(groups, full, [k for k in full if isinstance(full[k], float)]))
    make.file = A + 'group_lasso.py:' + name
    make.sym = True
    return make


# -- blocks --------------------------------------------------------------

def rows(x):
    return np.sqrt((x * x).sum(1))


def rown(w, x):
    return w.np.sqrt((x * x).sum(1))


BLOCK = {
    'l1_l2': (lambda w, x: rown(w, x).sum(), lambda w, x: w.np.max(rown(w, x)), 'linf_l2'),
    'linf_l2': (lambda w, x: w.np.max(rown(w, x)), lambda w, x: rown(w, x).sum(), 'l1_l2'),
    'l1_l1': (lambda w, x: w.np.fabs(x).sum(), lambda w, x: w.np.max(w.np.fabs(x)), 'linf_linf'),
    'linf_linf': (lambda w, x: w.np.max(w.np.fabs(x)), lambda w, x: w.np.fabs(x).sum(), 'l1_l1'),
}


def cutting(mass, residual):
    """lemmas for a projection on the l1 ball (of the entries or of the row norms)
    and for the residual of one: mass(v) - cut is what is left of each, or removed
    from each"""
    def hint(w, v, p, q):
        # p: projection on the ball, q = v - p
        if 'cut' not in w.ghost:
            return
        cut = w.ghost['cut'][-1]
        r = pos(w, mass(w, v) - cut)
        w.lemma('mass', r.sum() == w.ghost['mass'][-1])
        w.lemma_sum_eq('mass of the projection', mass(w, p), r)
        w.lemma_sum_eq('alignment', residual(w, p * q), cut * r)
        if isinstance(cut, int) and cut == 0:
            return
        return cut, r
    return hint


def ball_hints(mass, residual):
    h = cutting(mass, residual)

    def hb(w, u, v, b):
        c = h(w, v, u, v - u)
        if c and b != 0:
            i = w.witness_pos('one exceeds the cut', c[1])
            w.lemma('at the witness', mass(w, v - u)[i] == c[0])

    def hl(w, u, v, L, lam):
        c = h(w, v, v - u, u)
        if 'cut' in w.ghost:
            w.lemma_sum_eq('mass of the residual, scaled', mass(w, L * (v - u)), L * pos(w, mass(w, v) - w.ghost['cut'][-1]))
        if c and lam != 0:
            i = w.witness_pos('one exceeds the cut', c[1])
            w.lemma('at the witness', mass(w, u)[i] == c[0])
    def again(w, x, y):
        # y = projection of a point x of the ball
        cut = w.ghost['cut'][-1] if 'cut' in w.ghost else 0
        if isinstance(cut, int):
            return
        m = mass(w, x)
        s = w.np.minimum(m, cut)
        w.lemma('mass splits', s.sum() == m.sum() - w.ghost['mass'][-1])
        w.lemma('no mass removed', s.sum() == 0)
    hb.again = again
    return hl, hb


def entries(w, x):
    return w.np.fabs(x)


def l12_hint(w, u, v, L, lam):
    w.lemma_sum_eq('alignment', (L * (v - u) * u).sum(1), lam * rown(w, u))


def linf2_hint(w, u, v, b):
    w.lemma_sum_eq('alignment', ((v - u) * u).sum(1), b * rown(w, v - u))


BHINT = {'linf_linf': (ball_hints(entries, lambda w, x: x)[0], None), 'l1_l1': (None, ball_hints(entries, lambda w, x: x)[1]),
         'linf_l2': (ball_hints(rown, lambda w, x: x.sum(1))[0], linf2_hint), 'l1_l2': (l12_hint, ball_hints(rown, lambda w, x: x.sum(1))[1])}


def block(name):
    def make(w):
        n, p = w.dim('n', hi=4), w.dim('p', hi=4)
        f, g, dual = BLOCK[name]
        hl, hb = BHINT[name]
        return Pen(name, getattr(BN, name), ((n, p),), (n, p), lambda x: f(w, x), lambda x: g(w, x), dual=getattr(BN, dual), hint_l=hl, hint_b=hb)
    make.file = A + 'block_norms.py:' + name
    make.sym = True
    return make


def blockgen(name):
    """block_sum / block_max of a row seminorm"""
    def make(w):
        n, p = w.dim('n', hi=4), w.dim('p', hi=4)
        row = w.choice('row', ['l1norm', 'l2norm', 'supnorm', 'positive_part', 'max_positive_part', 'constrained_max'], sym=['l1norm'])
        f, d, dual = SEMI[row]
        g, dd, _ = SEMI[dual]
        cls, dcls = getattr(SN, row), getattr(SN, dual)
        one = lambda x: [x]
        if name == 'block_sum':
            return Pen(name, BN.block_sum, (cls, (n, p)), (n, p), lambda x: sum(f(w, r) for r in x), lambda x: max(g(w, r) for r in x),
                       dom=one if d else none, ddom=one if dd else none, dual=BN.block_max, caps='l')
        return Pen(name, BN.block_max, (cls, (n, p)), (n, p), lambda x: max(f(w, r) for r in x), lambda x: sum(g(w, r) for r in x),
                   dom=one if d else none, ddom=one if dd else none, dual=BN.block_sum, caps='b')
    make.file = A + 'block_norms.py:' + name
    make.sym = False
    return make


# -- slope ---------------------------------------------------------------

def slope(name):
    def make(w):
        n = w.dim('n')
        W = np.sort(w.vec('W', n, sign='pos'))[::-1]
        prim = lambda x: (np.sort(np.fabs(x))[::-1] * W).sum()
        dual = lambda x: max(np.cumsum(np.sort(np.fabs(x))[::-1]) / np.cumsum(W))
        if name == 'slope':
            return Pen(name, SL.slope, (W,), (n,), prim, dual, dual=SL.slope_conjugate, caps='l')
        return Pen(name, SL.slope_conjugate, (W,), (n,), dual, prim, dual=SL.slope, caps='b')
    make.file = A + 'slope.py:' + name
    make.sym = False
    return make


# -- sparse group --------------------------------------------------------

def gauge(excess, hi=None):
    """inf{t>0: excess(t) <= 0} for a decreasing excess, to full precision"""
    if excess(0.) <= 0:
        return 0.
    lo, up = 0., 1.
    for _ in range(200):
        if excess(up) <= 0:
            break
        up *= 2
    else:
        return np.inf
    for _ in range(200):
        mid = .5 * (lo + up)
        if excess(mid) <= 0:
            up = mid
        else:
            lo = mid
    return up


def sgl(name):
    def make(w):
        n, K, tab, groups, weights, full = draw_groups(w)
        lw = np.array(w.vec('lw', n, sign='nonneg'))
        kind = w.choice('lw kind', ['all positive', 'some zero'])
        if kind == 'all positive':
            lw = np.where(lw == 0, .5, lw)
        sel = [groups == tab[k] for k in range(K)]
        fw = [full[tab[k]] for k in range(K)]
        prim = lambda x: (np.fabs(x) * lw).sum() + sum(fw[k] * np.linalg.norm(x[sel[k]]) for k in range(K))

        def dual(x):
            r = 0.
            for k in range(K):
                xg, lg = np.fabs(x[sel[k]]), lw[sel[k]]
                if fw[k] == 0:       # weighted sup norm, zero weights handled by dzer
                    r = max([r] + [a / b for a, b in zip(xg, lg) if b > 0])
                else:
                    r = max(r, gauge(lambda t: np.linalg.norm(np.maximum(xg - t * lg, 0)) - t * fw[k]))
            return r
        dz = lambda x: [x[sel[k] & (lw == 0)] for k in range(K) if fw[k] == 0]
        kw = dict(weights=weights)
        if name == 'sparse_group_lasso':
            return Pen(name, SG.sparse_group_lasso, (groups, lw), (n,), prim, dual, dzer=dz, dual=SG.sparse_group_lasso_dual, caps='l', kw=kw)
        return Pen(name, SG.sparse_group_lasso_dual, (groups, lw), (n,), dual, prim, zer=dz, dual=SG.sparse_group_lasso, caps="b", kw=kw, tol=1e-5, vtol=1e-3)
    make.file = A + 'sparse_group_lasso.py:' + name
    make.sym = False
    return make


def sgb(name):
    def make(w):
        n, p = w.dim('n', hi=4), w.dim('p', hi=4)
        l1, l2 = w.pos('l1w'), w.pos('l2w')
        prim = lambda x: l1 * np.fabs(x).sum() + l2 * rows(x).sum()

        def dual(x):
            return max(gauge(lambda t: np.linalg.norm(np.maximum(np.fabs(r) - t * l1, 0)) - t * l2) for r in x)
        if name == 'sparse_group_block':
            return Pen(name, SB.sparse_group_block, ((n, p), l1, l2), (n, p), prim, dual, dual=SB.sparse_group_block_dual, caps='l')
        return Pen(name, SB.sparse_group_block_dual, ((n, p), l1, l2), (n, p), dual, prim, dual=SB.sparse_group_block, caps='b', tol=1e-5)
    make.file = A + 'sparse_group_block.py:' + name
    make.sym = False
    return make


# -- matrices ------------------------------------------------------------

def svd(name):
    def make(w):
        n, p = w.dim('n', hi=4), w.dim('p', hi=4)
        nuc = lambda x: np.linalg.svd(x, compute_uv=False).sum()
        op = lambda x: np.linalg.svd(x, compute_uv=False).max()
        if name == 'nuclear_norm':
            return Pen(name, SV.nuclear_norm, ((n, p),), (n, p), nuc, op, dual=SV.operator_norm)
        return Pen(name, SV.operator_norm, ((n, p),), (n, p), op, nuc, dual=SV.nuclear_norm)
    make.file = A + 'svd_norms.py:' + name
    make.sym = False
    return make


ALL = {}
for nm in SEMI:
    ALL[nm] = semi(nm)
for nm in ('l1norm', 'supnorm'):
    ALL['weighted ' + nm] = wgt(nm)
for nm in ('group_lasso', 'group_lasso_dual'):
    ALL[nm] = gl(nm)
for nm in BLOCK:
    ALL[nm] = block(nm)
for nm in ('block_sum', 'block_max'):
    ALL[nm] = blockgen(nm)
for nm in ('slope', 'slope_conjugate'):
    ALL[nm] = slope(nm)
for nm in ('sparse_group_lasso', 'sparse_group_lasso_dual'):
    ALL[nm] = sgl(nm)
for nm in ('sparse_group_block', 'sparse_group_block_dual'):
    ALL[nm] = sgb(nm)
for nm in ('nuclear_norm', 'operator_norm'):
    ALL[nm] = svd(nm)


# -- certificates --------------------------------------------------------

def kkt_lagrange(w, P, u, v, L, lam):
    """u minimises L/2||x-v||^2 + lam*pen(x): g = L(v-u) is dual feasible at
    level lam and <g,u> = lam*pen(u)"""
    g = L * (v - u)
    sc = L * abs(v)
    if w.symbolic and P.hint_l:
        P.hint_l(w, u, v, L, lam)
    for d in P.dom(u):
        w.ge('minimiser in the domain', d, 0, scale=abs(v))
    for d in P.zer(u):
        w.eq('minimiser in the domain (zeros)', d, 0 * d, scale=abs(v))
    for d in P.ddom(g):
        w.ge('subgradient in the dual domain', d, 0, scale=sc)
    for d in P.dzer(g):
        w.eq('subgradient in the dual domain (zeros)', d, 0 * d, scale=sc)
    w.le('dual norm of L(v-u) at most lagrange', P.dval(g), lam, scale=dscale(w, P, sc), tol=P.tol)
    w.eq('<L(v-u),u> = lagrange*penalty(u)', (g * u).sum(), lam * P.val(u), scale=L * (v * v).sum(), tol=P.tol)


def dscale(w, P, sc):
    return sc if w.symbolic else np.max([np.max(sc) if np.size(sc) else 1., min(P.dval(sc), 1e6)])


def kkt_bound(w, P, u, v, b):
    """u is the projection of v on {pen <= b}"""
    g = v - u
    sc = abs(v)
    if w.symbolic and P.hint_b:
        P.hint_b(w, u, v, b)
    for d in P.dom(u):
        w.ge('projection in the domain', d, 0, scale=sc)
    for d in P.zer(u):
        w.eq('projection in the domain (zeros)', d, 0 * d, scale=sc)
    for d in P.ddom(g):
        w.ge('residual in the dual domain', d, 0, scale=sc)
    for d in P.dzer(g):
        w.eq('residual in the dual domain (zeros)', d, 0 * d, scale=sc)
    w.le('feasible', P.val(u), b, scale=sc if w.symbolic else max([1] + [np.max(sc)] + [min(P.val(sc), 1e6)]), tol=P.tol)
    w.eq('<v-u,u> = bound*dual(v-u)', (g * u).sum(), b * P.dval(g), scale=(v * v).sum(), tol=P.tol)


# -- closed convex functions with their conjugates -------------------------

class Fn(object):
    """val on the set {ineq >= 0, eq == 0}; cval, cineq, ceq: its conjugate.
    make(**kw) builds the atom; p = prox(v) iff p feasible, g = L(v-p) conjugate
    feasible and val(p) + cval(g) = <g,p>."""

    def __init__(self, name, make, shape, val, cval, ineq=none, eq=none, cineq=none, ceq=none, tol=1e-6, vtol=None, pen=None, par=None, form=None, clean=None):
        self.name, self.make, self.shape = name, make, shape
        self.val, self.cval, self.ineq, self.eq, self.cineq, self.ceq = val, cval, ineq, eq, cineq, ceq
        self.tol, self.vtol = tol, vtol or tol
        self.pen, self.par, self.form = pen, par, form

    def conj(self):
        return Fn(self.name + '*', None, self.shape, self.cval, self.val, self.cineq, self.ceq, self.ineq, self.eq, self.tol, self.vtol)


def listed(x):
    return x if isinstance(x, list) else [x]


def lagrange_fn(w, P, lam=None):
    lam = w.nonneg('lam') if lam is None else lam
    one = lambda s: np.array([s]) if not w.symbolic else s
    return Fn(P.name + ' lagrange', lambda **k: P.make(lagrange=lam, **k), P.shape, lambda x: lam * P.val(x), lambda u: 0,
              ineq=P.dom, eq=P.zer, cineq=lambda u: [lam - P.dval(u)] + P.ddom(u), ceq=P.dzer, tol=P.tol, vtol=P.vtol, pen=P, par=lam, form='l')


def bound_fn(w, P, b=None):
    b = w.nonneg('b') if b is None else b
    return Fn(P.name + ' bound', lambda **k: P.make(bound=b, **k), P.shape, lambda x: 0, lambda u: b * P.dval(u),
              ineq=lambda x: [b - P.val(x)] + P.dom(x), eq=P.zer, cineq=P.ddom, ceq=P.dzer, tol=P.tol, vtol=P.vtol, pen=P, par=b, form='b')


def check_in(w, what, ineq, eq, scale, tol):
    for j, d in enumerate(ineq):
        w.ge('%s (inequality %d)' % (what, j), d, 0, scale=scale, tol=tol)
    for j, d in enumerate(eq):
        w.eq('%s (equality %d)' % (what, j), d, 0 * d, scale=scale, tol=tol)


def certificate(w, F, p, g, scale, what=''):
    """p minimises F - <g,.>"""
    sc = None if w.symbolic else scale_of(F, p, g, scale)
    check_in(w, what + 'minimiser feasible', F.ineq(p), F.eq(p), sc, F.tol)
    check_in(w, what + 'subgradient feasible for the conjugate', F.cineq(g), F.ceq(g), sc, F.tol)
    w.eq(what + 'Fenchel equality', F.val(p) + F.cval(g), (g * p).sum(), scale=None if w.symbolic else [1 + np.max(sc)] * 1 + [np.sum(np.fabs(g * p)), scale_sq(p, g, scale)], tol=F.tol)


def scale_sq(p, g, scale):
    m = np.max([1.] + [np.max(s) for s in (np.fabs(p), np.fabs(g), np.asarray(scale)) if np.size(s)])
    return m * m


def scale_of(F, p, g, scale):
    """magnitude of the quantities compared"""
    out = [1.]
    for s in (np.fabs(p), np.fabs(g), np.fabs(scale)):
        if np.size(s):
            out.append(np.max(s))
    P = F.pen
    if P is not None:
        m = max(out) * np.ones(P.shape)
        for f in (P.val, P.dval):
            try:
                k = f(m)
                if np.isfinite(k):
                    out.append(min(float(k), 1e6))
            except Exception:
                pass
    return out


def feasible_point(w, F, x, ineq=None):
    """scale/truncate x to a feasible point (concrete) or assume it (symbolic)"""
    P = F.pen
    if w.symbolic:
        return x
    return x


def extras(w, shape, coef=False):
    """offset and quadratic (coef 0 unless asked) of an atom; returns
    (offset, (coef, center, linear, const) or None)"""
    off = w.arr('offset', shape) if w.choice('offset?', [True, False]) else None
    if w.choice('quadratic?', [True, False]):
        lin = w.arr('linear', shape) if w.choice('linear?', [True, False]) else None
        cen = w.arr('center', shape) if coef and w.choice('center?', [True, False]) else None
        q = (w.pos('qcoef') if coef else 0, cen, lin, w.real('qconst'))
    else:
        q = None
    return off, q


# -- cones -----------------------------------------------------------------

from regreg.atoms import cones as CN

CONES = {}


def cone(name, ineq, polar_ineq, eq=none, polar_eq=none, shape=None, cls=None, file=None, sym=True, tol=1e-6, args=None):
    def make(w):
        if args is None:
            n = w.dim('n')
            shp = (n,) if shape is None else (n + 1,)
            arg = (shp,)
            extra = ()
        else:
            arg, kw, shp, extra = args(w)
            return Fn(name, lambda **k: cls(*arg, **dict(kw, **k)), shp, lambda x: 0, lambda u: 0,
                      ineq=lambda x: ineq(w, x, *extra), eq=lambda x: eq(w, x, *extra) if eq is not none else [],
                      cineq=lambda g: polar_ineq(w, g, *extra), ceq=lambda g: polar_eq(w, g, *extra) if polar_eq is not none else [], tol=tol, form='c')
        return Fn(name, lambda **k: cls(*arg, **k), shp, lambda x: 0, lambda u: 0,
                  ineq=lambda x: ineq(w, x), eq=lambda x: eq(w, x) if eq is not none else [],
                  cineq=lambda g: polar_ineq(w, g), ceq=lambda g: polar_eq(w, g) if polar_eq is not none else [], tol=tol, form='c')
    cls = cls or getattr(CN, name)
    make.file = file or A + 'cones.py:' + name
    make.sym = sym
    make.name = name
    CONES[name] = make
    return make


no = lambda w, x: []
ident = lambda w, x: [x]
minus = lambda w, x: [-x]
cone('nonnegative', ident, minus)
cone('nonpositive', minus, ident)
cone('zero', no, no, polar_eq=ident)
cone('zero_constraint', no, no, eq=ident)


def epi(norm):
    return lambda w, x: [x[-1] - norm(w, x[:-1])]


def epipolar(norm):
    return lambda w, x: [-x[-1] - norm(w, x[:-1])]


cone('l2_epigraph', epi(f_l2), epipolar(f_l2), shape='epi')
cone('l2_epigraph_polar', epipolar(f_l2), epi(f_l2), shape='epi')
cone('l1_epigraph', epi(f_l1), epipolar(f_sup), shape='epi')
cone('l1_epigraph_polar', epipolar(f_sup), epi(f_l1), shape='epi')
cone('linf_epigraph', epi(f_sup), epipolar(f_l1), shape='epi')
cone('linf_epigraph_polar', epipolar(f_l1), epi(f_sup), shape='epi')


def mat_args(w):
    n, p = w.dim('n', hi=3), w.dim('p', hi=3)
    return ((n, p),), {}, (n * p + 1,), ((n, p),)


def nuc(x, s):
    return np.linalg.svd(x.reshape(s), compute_uv=False).sum()


def op(x, s):
    return np.linalg.svd(x.reshape(s), compute_uv=False).max()


def mepi(norm, sign):
    return lambda w, x, s: [sign * x[-1] - norm(x[:-1], s)]


for _n, _f, _g in [('nuclear_norm', nuc, op), ('operator_norm', op, nuc)]:
    cone(_n + '_epigraph', mepi(_f, 1), mepi(_g, -1), cls=getattr(SV, _n + '_epigraph'), file=A + 'svd_norms.py:' + _n + '_epigraph', sym=False, args=mat_args)
    cone(_n + '_epigraph_polar', mepi(_g, -1), mepi(_f, 1), cls=getattr(SV, _n + '_epigraph_polar'), file=A + 'svd_norms.py:' + _n + '_epigraph_polar', sym=False, args=mat_args)


def grp_args(w):
    n, K, tab, groups, weights, full = draw_groups(w)
    return (groups,), dict(weights=weights), (n + 1,), (groups, full, [tab[k] for k in range(K)])


def g_sum(x, groups, full, labs):
    return sum(full[l] * np.linalg.norm(x[groups == l]) for l in labs)


def g_max(x, groups, full, labs):
    return max([0] + [np.linalg.norm(x[groups == l]) / full[l] for l in labs if full[l] > 0])


def g_zer(w, x, groups, full, labs):
    return [x[:-1][groups == l] for l in labs if full[l] == 0]


def gepi(norm, sign):
    return lambda w, x, *e: [sign * x[-1] - norm(x[:-1], *e)]


for _n, _f, _g, _fz, _gz in [('group_lasso', g_sum, g_max, none, g_zer), ('group_lasso_dual', g_max, g_sum, g_zer, none)]:
    cone(_n + '_epigraph', gepi(_f, 1), gepi(_g, -1), eq=_fz, polar_eq=_gz, cls=getattr(GL, _n + '_epigraph'), file=A + 'group_lasso.py:' + _n + '_epigraph', sym=False, args=grp_args)
    cone(_n + '_epigraph_polar', gepi(_g, -1), gepi(_f, 1), eq=_gz, polar_eq=_fz, cls=getattr(GL, _n + '_epigraph_polar'), file=A + 'group_lasso.py:' + _n + '_epigraph_polar', sym=False, args=grp_args)


# -- points of the sets ------------------------------------------------------

def into(w, x, ineq, eq, slack='slack'):
    """move a concrete point into {ineq >= 0, eq == 0}: either coordinates of
    one sign, or one inequality moved by the last coordinate"""
    x = np.array(x, float)
    for d in eq(np.arange(1., x.size + 1).reshape(x.shape)):
        x.reshape(-1)[np.asarray(d).astype(int).ravel() - 1] = 0
    ine = ineq(x)
    if not ine:
        return x
    i0 = ine[0]
    if np.ndim(i0) == 0:
        e = np.zeros(x.shape)
        e.reshape(-1)[-1] = 1
        s = np.sign(ineq(x + e)[0] - i0)
        extra = 0 if w.choice('boundary', [True, False]) else w.nonneg(slack)
        x.reshape(-1)[-1] += s * (-i0 + extra)
        return x
    s = np.sign(np.asarray(ineq(np.ones(x.shape))[0]).ravel()[0])
    return s * np.fabs(x)


def inside(w, F, name, conj=False):
    """a point where F (or its conjugate) is finite"""
    f = F.cfeas if conj else F.feas
    if f is not None:
        return f(w, name)
    ine, eq = (F.cineq, F.ceq) if conj else (F.ineq, F.eq)
    x = w.arr(name, F.shape)
    if w.symbolic:
        for d in ine(x):
            w.assume(d >= 0 if not hasattr(d, '_shape') or d.ndim == 0 else w.np.all(d >= 0))
        for d in eq(x):
            w.assume(w.np.all(d == 0))
        return x
    return into(w, x, ine, eq)


def outside(F, x, conj=False, rel=.01):
    """x violates a defining condition by a clear margin"""
    ine, eq = (F.cineq, F.ceq) if conj else (F.ineq, F.eq)
    m = rel * max(1., np.max(np.fabs(x)) if np.size(x) else 1.)
    return any((np.asarray(d) < -m).any() for d in ine(x)) or any((np.fabs(d) > m).any() for d in eq(x))


Fn.feas = Fn.cfeas = None
FNS = {}


def other(name, file, sym=False):
    def deco(f):
        f.file, f.sym, f.name = A + file, sym, name
        FNS[name] = f
        return f
    return deco


def _simplex_pt(w, n, name):
    if w.symbolic:
        x = w.arr(name, (n,), 'nonneg')
        w.assume(x.sum() == 1)
        return x
    x = np.fabs(w.arr(name, (n,)))
    x = x if x.sum() > 0 else np.eye(n)[0]
    return x / x.sum()


def _simplex(w, name, cls, conj):
    n = w.dim('n')
    mx = lambda x: w.np.max(x)
    F = Fn(name, lambda **k: cls((n,), **k), (n,), lambda x: 0, mx, ineq=lambda x: [x], eq=lambda x: [x.sum() - 1], form='f')
    F.feas = lambda w, nm: _simplex_pt(w, n, nm)
    F.cfeas = lambda w, nm: w.arr(nm, (n,))
    if conj:
        mk, F2 = F.make, F.conj()
        F2.name, F2.make, F2.form, F2.feas, F2.cfeas = name, mk, 'f', F.cfeas, F.feas
        return F2
    return F


other('simplex_constraint', 'simplex.py:simplex_constraint', True)(lambda w: _simplex(w, 'simplex_constraint', SX.simplex_constraint, False))
other('maximum', 'simplex.py:maximum', True)(lambda w: _simplex(w, 'maximum', SX.maximum, True))

from regreg.atoms import linear_constraints as LC


def basis(w):
    n = w.dim('n', lo=1)
    k = w.integer('k', 0, n + 1)
    kind = w.choice('basis', ['generic', 'coordinate', 'signed'])
    if kind == 'generic' or k == 0:
        q = np.linalg.qr(w.rng.standard_normal((n, n)))[0]
    else:
        q = np.eye(n)[w.rng.permutation(n)]
        if kind == 'signed':
            q = q * w.rng.choice([-1., 1.], n)[:, None]
    w.record['basis used'] = q[:k].tolist()
    return n, k, q[:k], q[k:]


def _lin(name, cls, comp):
    def make(w):
        n, k, B, C = basis(w)
        on, off = (C, B) if not comp else (B, C)     # coefficients that vanish on the set / its polar
        F = Fn(name, lambda **kw: cls((n,), B, **kw), (n,), lambda x: 0, lambda x: 0, eq=lambda x: [on.dot(x)], ceq=lambda x: [off.dot(x)], form='c')
        F.feas = lambda w, nm: off.T.dot(w.arr(nm, (n,))[:off.shape[0]])
        F.cfeas = lambda w, nm: on.T.dot(w.arr(nm, (n,))[:on.shape[0]])
        F.basis = B
        return F
    return make


other('projection', 'linear_constraints.py:projection')(_lin('projection', LC.projection, False))
other('projection_complement', 'linear_constraints.py:projection_complement')(_lin('projection_complement', LC.projection_complement, True))


def _mixed(name, cls, dual):
    def make(w):
        n = w.dim('n', hi=8)
        K = w.integer('K', 0, 3)
        tab = [2, 0][:K]
        kinds = [ML.UNPENALIZED, ML.L1_PENALTY, ML.POSITIVE_PART, ML.NONNEGATIVE] + tab
        ps = np.array([w.choice('ps', kinds) for _ in range(n)])
        weights = {}
        for g in tab:
            c = w.choice('wt', ['default', 'pos', 'zero'])
            if c != 'default':
                weights[g] = w.pos('w') if c == 'pos' else 0.
        sel = [ps == g for g in tab if (ps == g).any()]
        full = [weights.get(g, np.sqrt((ps == g).sum())) for g in tab if (ps == g).any()]
        l1, pp, nn, un = [ps == c for c in (ML.L1_PENALTY, ML.POSITIVE_PART, ML.NONNEGATIVE, ML.UNPENALIZED)]
        lam = w.nonneg('lam')
        nrm = np.linalg.norm
        val = lambda x: np.fabs(x[l1]).sum() + np.maximum(x[pp], 0).sum() + sum(f * nrm(x[s]) for f, s in zip(full, sel))
        dval = lambda x: max([0.] + list(np.fabs(x[l1])) + list(np.maximum(x[pp], 0)) + [nrm(x[s]) / f for f, s in zip(full, sel) if f > 0])
        F = Fn(name, lambda **k: cls(ps, lam, weights=weights, **k), (n,), lambda x: lam * val(x), lambda u: 0,
               ineq=lambda x: [x[pp], x[nn]], cineq=lambda u: [lam - dval(u), -u[nn]],
               ceq=lambda u: [u[un]] + [u[s] for f, s in zip(full, sel) if f == 0], form='f')
        F.par, F.snorm, F.dnorm = lam, val, dval

        def feas(w, nm):
            x = np.array(w.arr(nm, (n,)))
            x[pp | nn] = np.fabs(x[pp | nn])
            return x

        def cfeas(w, nm):
            u = np.array(w.arr(nm, (n,)))
            u[nn] = -np.fabs(u[nn])
            for f, s in zip(full, sel):
                if f == 0:
                    u[s] = 0
            u[un] = 0
            k = dval(u)
            if k > lam:
                u[~nn] *= lam / k * (1 - 1e-12)
            return u
        F.feas, F.cfeas = feas, cfeas
        if dual:
            mk, F2 = F.make, F.conj()
            F2.name, F2.make, F2.form, F2.feas, F2.cfeas, F2.par, F2.snorm, F2.dnorm = name, mk, 'f', cfeas, feas, lam, dval, val
            return F2
        return F
    return make


other('mixed_lasso', 'mixed_lasso.py:mixed_lasso')(_mixed('mixed_lasso', ML.mixed_lasso, False))
other('mixed_lasso_dual', 'mixed_lasso.py:mixed_lasso_dual')(_mixed('mixed_lasso_dual', ML.mixed_lasso_dual, True))
for _k, _v in CONES.items():
    FNS[_k] = _v
