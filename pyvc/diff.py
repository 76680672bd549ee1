"""derivative of a canonical expression with respect to an array element.

A derivative is kept as {condition: coefficient}: the sum over its entries of
(1 if the element is the one named, else 0) * coefficient."""
from . import expr as E
from .expr import Poly, P, Unsupported
from fractions import Fraction


def diff(p, name, idx):
    r = E.ZERO
    for c, q in dpoly(p, name, tuple(idx)).items():
        r = r + (q if c == E.TRUE else E.ite(c, E.ONE, E.ZERO) * q)
    return r


def _add(acc, d, by=None):
    for c, q in d.items():
        if by is not None:
            q = q * by
        q = acc.get(c, E.ZERO) + q
        if q.is_zero():
            acc.pop(c, None)
        else:
            acc[c] = q
    return acc


def dpoly(p, name, idx):
    r = {}
    if ('arr', name) not in p.free():
        return r
    for m, c in p.terms.items():
        for k, (f, e) in enumerate(m):
            df = dfac(f, name, idx)
            if df:
                rest = Poly({m[:k] + (((f, e - 1),) if e > 1 else ()) + m[k + 1:]: c * e})
                _add(r, df, rest)
    return r


def dfac(f, name, idx):
    if ('arr', name) not in E.factor_free(f):
        return {}
    k = f[0]
    if k == 'e' and f[1] == name:
        return {E.and_(*[E.cmp_('eq', P(a) - P(b)) for a, b in zip(f[2:], idx)]): E.ONE}
    if k == 'abs':
        d = dpoly(f[1], name, idx)
        return _add({}, d, E.ite(E.cmp_('ge', f[1]), E.ONE, -E.ONE))
    if k == 'inv':
        return _add({}, dpoly(f[1], name, idx), -E.inv(f[1]) * E.inv(f[1]))
    if k == 'sqrt':
        return _add({}, dpoly(f[1], name, idx), E.inv(Poly.factor(f)).scale(Fraction(1, 2)))
    if k == 'ite':
        a, b = dpoly(f[2], name, idx), dpoly(f[3], name, idx)
        return {c: E.ite(f[1], a.get(c, E.ZERO), b.get(c, E.ZERO)) for c in list(a) + [c for c in b if c not in a]}
    if k == 'fn':
        d = dpoly(f[2], name, idx)
        if f[1] == 'exp':
            return _add({}, d, Poly.factor(f))
        if f[1] == 'log':
            return _add({}, d, E.inv(f[2]))
        if f[1] == 'norm_cdf':
            return _add({}, d, E.fn('norm_pdf', f[2]))
        if f[1] == 'norm_pdf':
            return _add({}, d, -f[2] * Poly.factor(f))
        raise Unsupported('derivative of %s' % f[1])
    if k == 'sum':
        vs = [E.fresh_int('s') for _ in f[1]]
        doms, body = E.open_binder(f, vs)
        return {E.TRUE: E.msum(list(zip(vs, doms))[::-1], diff(body, name, idx))}
    raise Unsupported('derivative of %s' % k)
