"""Mathematical specifications (written from the documentation, not from the code)."""


def pos(w, x):
    return w.np.maximum(x, 0)


# penalty -> (finite-part formula, domain array that must be >= 0 or None, dual name)
def _l1(w, x):
    return w.np.fabs(x).sum()


def _sup(w, x):
    return w.np.max(w.np.fabs(x))


def _l2(w, x):
    return w.np.sqrt((x * x).sum())


def _pp(w, x):
    return pos(w, x).sum()


def _mx(w, x):
    return w.np.max(x)


def _mxpos(w, x):
    return w.np.max(pos(w, x))


def _all(x):
    return x


PEN = {
    'l1norm': (_l1, None, 'supnorm'),
    'supnorm': (_sup, None, 'l1norm'),
    'l2norm': (_l2, None, 'l2norm'),
    'positive_part': (_pp, None, 'constrained_max'),
    'constrained_max': (_mxpos, _all, 'positive_part'),
    'constrained_positive_part': (_pp, _all, 'max_positive_part'),
    'max_positive_part': (_mxpos, None, 'constrained_positive_part'),
}


def kkt_lagrange(w, name, u, v, L, lam, pen=PEN, hint=None):
    """u minimises L/2||x-v||^2 + lam*pen(x): g = L(v-u) is lam times a dual
    feasible point and <g,u> = lam*pen(u) (Fenchel: pen(z) >= <g,z>/lam)"""
    val, dom, dual = pen[name]
    dval, ddom, _ = pen[dual]
    g = L * (v - u)
    if dom is not None:
        w.ge('minimiser in the domain', dom(u), 0)
    if ddom is not None:
        w.ge('subgradient in the dual domain', ddom(g), 0, scale=L * abs(v))
    if hint:
        hint(w, u, v)
    w.le('dual norm of L(v-u) at most lagrange', dval(w, g), lam, scale=L * abs(v))
    w.eq('<L(v-u),u> = lagrange*penalty(u)', (g * u).sum(), lam * val(w, u), scale=L * (v * v).sum())


def kkt_bound(w, name, u, v, b, pen=PEN, hint=None):
    """u is the projection of v on {pen <= b}"""
    val, dom, dual = pen[name]
    dval, ddom, _ = pen[dual]
    g = v - u
    if dom is not None:
        w.ge('projection in the domain', dom(u), 0)
    if ddom is not None:
        w.ge('residual in the dual domain', ddom(g), 0, scale=abs(v))
    if hint:
        hint(w, u, v)
    w.le('feasible', val(w, u), b, scale=abs(v))
    w.eq('<v-u,u> = bound*dual(v-u)', (g * u).sum(), b * dval(w, g), scale=(v * v).sum())
