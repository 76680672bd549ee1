"""Canonical symbolic expressions.

Everything the verifier manipulates is a ``Poly``: a polynomial with rational
coefficients over hash-consed *factors*.  Factors are

  ('v', name, sort)          scalar variable, sort 'R' or 'I'
  ('e', name, idx...)        element of an uninterpreted array at integer Polys
  ('abs', P) ('inv', P) ('sqrt', P) ('fn', name, P...)
  ('ite', cond, P, Q)        conditional
  ('sum', doms, mono, base)  multi-index sum; bound index k is ('b', base+k), where base is above every
                             index bound inside the body (so nested binders never share an index)
  ('vmax', dom, P, base)     max over 0 <= ('b', base) < dom of P

Conditions are tuples ('ge',P) P>=0, ('gt',P) P>0, ('eq',P) P==0,
('and',..), ('or',..), ('not',c), ('true',), ('false',), ('bv', name, idx...)
"""
from fractions import Fraction
import itertools

_intern = {}
_order = {}


def intern(t):
    r = _intern.get(t)
    if r is None:
        _intern[t] = t
        _order[t] = len(_order)
        return t
    return r


def fkey(f):
    """stable total order on factors (by structural repr)"""
    k = _keycache.get(f)
    if k is None:
        k = _keycache[f] = _mkkey(f)
    return k


_keycache = {}


def _mkkey(x):
    if isinstance(x, Poly):
        return '(' + '+'.join(sorted('%s*%s' % (c, _mono_key(m)) for m, c in x.terms.items())) + ')'
    if isinstance(x, tuple):
        return '[' + ','.join(_mkkey(y) for y in x) + ']'
    return repr(x)


def _mono_key(m):
    return '.'.join('%s^%d' % (fkey(f), e) for f, e in m)


def mono_mul(a, b):
    d = dict(a)
    for f, e in b:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(((f, e) for f, e in d.items() if e != 0), key=lambda t: fkey(t[0])))


POS = set()      # factors declared strictly positive (by precondition)
NONNEG = set()   # factors declared nonnegative


class Poly(object):
    __slots__ = ('terms', '_h', '_free')

    def __init__(self, terms):
        self.terms = terms
        self._h = None
        self._free = None

    # --- construction
    @staticmethod
    def const(c):
        c = to_frac(c)
        return Poly({(): c}) if c != 0 else ZERO

    @staticmethod
    def factor(f):
        return Poly({((intern(f), 1),): Fraction(1)})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.terms.items()))
        return self._h

    def __eq__(self, other):
        return isinstance(other, Poly) and self.terms == other.terms

    def __ne__(self, other):
        return not self == other

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and () in self.terms)

    def cval(self):
        return self.terms.get((), Fraction(0))

    def is_zero(self):
        return not self.terms

    def __add__(self, o):
        o = P(o)
        t = dict(self.terms)
        for m, c in o.terms.items():
            n = t.get(m, 0) + c
            if n == 0:
                t.pop(m, None)
            else:
                t[m] = n
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.terms or not o.terms:
            return ZERO
        t = {}
        extra = None
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                m = mono_mul(m1, m2)
                p = reduce_mono(m)
                if p is None:
                    n = t.get(m, 0) + c1 * c2
                    if n == 0:
                        t.pop(m, None)
                    else:
                        t[m] = n
                else:
                    q = p.scale(c1 * c2)
                    extra = q if extra is None else extra + q
        r = Poly(t)
        return r if extra is None else r + extra
    __rmul__ = __mul__

    def scale(self, c):
        if c == 0:
            return ZERO
        return Poly({m: c * v for m, v in self.terms.items()})

    def __pow__(self, k):
        r = ONE
        for _ in range(int(k)):
            r = r * self
        return r

    def __repr__(self):
        return show(self)

    def free(self):
        if self._free is None:
            s = set()
            for m in self.terms:
                for f, e in m:
                    s |= factor_free(f)
            self._free = frozenset(s)
        return self._free


def to_frac(c):
    if isinstance(c, Fraction):
        return c
    if isinstance(c, bool):
        return Fraction(int(c))
    if isinstance(c, int):
        return Fraction(c)
    import numpy as np
    if isinstance(c, np.integer):
        return Fraction(int(c))
    c = float(c)
    if c != c or c in (float('inf'), float('-inf')):
        raise Unsupported('non-finite constant in real arithmetic')
    # decimal literals in the source denote the decimal value
    return Fraction(repr(c)) if 'e' not in repr(c) else Fraction(repr(c))


class Unsupported(Exception):
    """the code left the verifier's subset"""


def P(x):
    if isinstance(x, Poly):
        return x
    if hasattr(x, 'p') and isinstance(getattr(x, 'p'), Poly):
        return x.p
    return Poly.const(x)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def factor_free(f):
    """free scalar/int variables + array names occurring in a factor"""
    r = _ffcache.get(f)
    if r is not None:
        return r
    s = set()
    k = f[0]
    if k == 'v':
        s.add(f)
    elif k == 'b':
        s.add(f)
    elif k == 'e':
        s.add(('arr', f[1]))
        for i in f[2:]:
            s |= i.free()
    elif k == 'sum':
        for d in f[1]:
            s |= d.free()
        for g, e in f[2]:
            s |= factor_free(g)
        s -= {('b', f[3] + i) for i in range(len(f[1]))}
    elif k == 'vmax':
        s |= f[1].free()
        s |= f[2].free() - {('b', f[3])}
    elif k == 'ite':
        s |= cond_free(f[1]) | f[2].free() | f[3].free()
    else:
        for a in f[1:]:
            if isinstance(a, Poly):
                s |= a.free()
    r = frozenset(s)
    _ffcache[f] = r
    return r


_ffcache = {}


def height(x):
    """one more than the largest index bound inside x (a Poly, factor or condition)"""
    if isinstance(x, Poly):
        h = 0
        for m in x.terms:
            for f, e in m:
                if f[0] not in ('v', 'b'):
                    h = max(h, height(f))
        return h
    if not isinstance(x, tuple) or not x:
        return 0
    r = _hcache.get(x)
    if r is None:
        if x[0] == 'sum':
            r = x[3] + len(x[1])
        elif x[0] == 'vmax':
            r = x[3] + 1
        else:
            r = max([0] + [height(y) for y in x[1:]])
        _hcache[x] = r
    return r


_hcache = {}


def open_binder(f, vs):
    """domains and body of a sum (or vmax) with its bound indices replaced by vs"""
    env = {('b', f[3] + k): P(v) for k, v in enumerate(vs)}
    if f[0] == 'vmax':
        return [f[1]], subst(f[2], env)
    return [subst(d, env) for d in f[1]], open_mono(f[2], env)


def open_mono(mono, env):
    body = ONE
    for g, e in mono:
        body = body * subst(Poly.factor(g), env) ** e
    return body


def cond_free(c):
    s = set()
    if c[0] in ('ge', 'gt', 'eq'):
        return set(c[1].free())
    if c[0] in ('and', 'or'):
        for d in c[1:]:
            s |= cond_free(d)
    elif c[0] == 'not':
        s |= cond_free(c[1])
    elif c[0] == 'bv':
        for i in c[2:]:
            s |= i.free()
    return s


def known_nonneg_factor(f):
    if f in POS or f in NONNEG:
        return True
    if f[0] in ('abs', 'sqrt'):
        return True
    if f[0] == 'e' and ('arr+', f[1]) in NONNEG:
        return True
    if f[0] == 'inv':
        return known_pos(f[1])
    if f[0] == 'fn' and f[1] in ('exp', 'norm_cdf', 'norm_pdf'):
        return True
    if f[0] == 'sum':
        return all(e % 2 == 0 or known_nonneg_factor(g) for g, e in f[2])
    if f[0] == 'ite':
        return _nn_under(f[1], f[2]) and _nn_under(neg(f[1]), f[3])
    return False


def _nn_under(c, p):
    """p >= 0 whenever c"""
    if known_nonneg(p):
        return True
    if c[0] in ('ge', 'gt'):
        k = _ratio(p, c[1])
        if k is not None and known_nonneg(k):
            return True
    return False


def _ratio(d, q):
    """k with d = k*q, a single monomial times a constant, else None"""
    if not d.terms or not q.terms or len(d.terms) % len(q.terms):
        return None
    if len(q.terms) == 1:
        (m, c), = q.terms.items()
        if not m:
            return None
        out = {}
        for dm, dc in d.terms.items():
            r = _mdiv(dm, m)
            if r is None:
                return None
            out[r] = dc / c
        return Poly(out)
    if len(d.terms) != len(q.terms):
        return None
    for dm, dc in d.terms.items():
        for qm, qc in q.terms.items():
            r = _mdiv(dm, qm)
            if r is not None:
                k = Poly({r: dc / qc})
                if k * q == d:
                    return k
        return None
    return None


def _mdiv(a, b):
    da = dict(a)
    for f, e in b:
        if da.get(f, 0) < e:
            return None
        da[f] -= e
    return tuple((f, da[f]) for f, e in a if da[f])


NNPOLY = set()   # polynomials that are sums of squares by construction


def mark_nonneg(p):
    if not p.is_const():
        NNPOLY.add(p)


def known_nonneg(p):
    return p in NNPOLY or all(c > 0 and all(e % 2 == 0 or known_nonneg_factor(f) for f, e in m)
               for m, c in p.terms.items())


def known_pos_factor(f):
    if f in POS:
        return True
    if f[0] == 'e' and ('arr+', f[1]) in POS:
        return True
    if f[0] == 'inv':
        return known_pos(f[1])
    if f[0] == 'sqrt':
        return known_pos(f[1])
    if f[0] == 'fn' and f[1] in ('exp', 'norm_cdf', 'norm_pdf'):
        return True
    if f[0] == 'sum':
        return all(known_pos(d) for d in f[1]) and all(known_pos_factor(g) for g, e in f[2])
    if f[0] == 'ite':
        return known_pos(f[2]) and known_pos(f[3])
    return False


def known_pos(p):
    if len(p.terms) == 2 and p.terms.get(()) == 1:
        m, = [m for m in p.terms if m]
        if p.terms[m] == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0][:2] == ('fn', 'norm_cdf'):
            return True
    if not known_nonneg(p) or not p.terms:
        return False
    return any(all(known_pos_factor(f) for f, e in m) for m, c in p.terms.items())


def reduce_mono(m):
    """rewrite a monomial whose factors interact; None if already normal"""
    for k, (f, e) in enumerate(m):
        if f[0] == 'sqrt' and e >= 2 and known_nonneg(f[1]):
            rest = m[:k] + (((f, e - 2),) if e > 2 else ()) + m[k + 1:]
            return Poly({rest: Fraction(1)}) * f[1]
        if f[0] == 'abs' and e >= 2:
            rest = m[:k] + (((f, e - 2),) if e > 2 else ()) + m[k + 1:]
            return Poly({rest: Fraction(1)}) * f[1] * f[1]
        if f[0] == 'ite' and e >= 2:
            # ite(c,a,b)^e
            rest = m[:k] + m[k + 1:]
            return Poly({rest: Fraction(1)}) * ite(f[1], f[2] ** e, f[3] ** e)
        if f[0] == 'inv':
            # x * 1/x = 1 when x is known positive
            q = f[1]
            if len(q.terms) == 1:
                (qm, qc), = q.terms.items()
                if len(qm) == 1 and qm[0][1] == 1 and known_pos(q):
                    g = qm[0][0]
                    for k2, (h, e2) in enumerate(m):
                        if h == g:
                            d = dict(m)
                            j = min(e, e2)
                            d[f] -= j
                            d[h] -= j
                            mm = tuple(sorted(((a, b) for a, b in d.items() if b), key=lambda t: fkey(t[0])))
                            return Poly({mm: Fraction(1)}).scale(Fraction(1) / (qc ** j)) * ONE
            elif known_pos(q):
                pass
    # merge two conditionals on the same condition: ite(c,a,b)*ite(c,d,e)
    ites = [(k, f) for k, (f, e) in enumerate(m) if f[0] == 'ite']
    for a in range(len(ites)):
        for b in range(a + 1, len(ites)):
            (k1, f1), (k2, f2) = ites[a], ites[b]
            if f1[1] == f2[1]:
                rest = tuple(x for k, x in enumerate(m) if k not in (k1, k2))
                return Poly({rest: Fraction(1)}) * ite(f1[1], f1[2] * f2[2], f1[3] * f2[3])
            if f1[1] == neg(f2[1]):
                rest = tuple(x for k, x in enumerate(m) if k not in (k1, k2))
                return Poly({rest: Fraction(1)}) * ite(f1[1], f1[2] * f2[3], f1[3] * f2[2])
    return None


# ---------------------------------------------------------------- builders
def var(name, sort='R'):
    return Poly.factor(('v', name, sort))


def elem(name, *idx):
    return Poly.factor(('e', name) + tuple(P(i) for i in idx))


def inv(p):
    p = P(p)
    if p.is_const():
        if p.cval() == 0:
            raise Unsupported('division by the constant zero')
        return Poly.const(1 / p.cval())
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        r = Poly.const(1 / c)
        for f, e in m:
            if f[0] == 'inv' and known_pos(f[1]):
                r = r * f[1] ** e
            else:
                r = r * Poly.factor(('inv', Poly.factor(f))) ** e
        return r
    low, q = _content(p, lambda f: f[0] == 'fn' or f[0] == 'ite')
    if low:
        r = inv(q)
        for f, e in low.items():
            b = Poly.factor(f)
            r = r * (inv(b) ** e if e > 0 else b ** -e)
        return r
    # scale so that the leading coefficient is one
    m0 = min(p.terms, key=_mono_key)
    c0 = p.terms[m0]
    q = p.scale(1 / c0)
    return Poly.factor(('inv', q)).scale(1 / c0)


def find_struct(p):
    """a conditional factor of p decided by index variables alone"""
    for m in p.terms:
        for f, e in m:
            if f[0] == 'ite' and f[1][0] in ('ge', 'eq') and is_int_lin(f[1][1]):
                return f
    return None


def absv(p):
    p = P(p)
    f = find_struct(p)
    if f is not None:
        return ite(f[1], absv(_replace_ite(p, f, True)), absv(_replace_ite(p, f, False)))
    if p.is_const():
        return Poly.const(abs(p.cval()))
    if known_nonneg(p):
        return p
    if known_nonneg(-p):
        return -p
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        r = Poly.const(abs(c))
        for f, e in m:
            if e % 2 == 0 or known_nonneg_factor(f):
                r = r * Poly({((f, e),): Fraction(1)})
            else:
                r = r * Poly({((intern(('abs', Poly.factor(f))), 1),): Fraction(1)}) * Poly({((f, e - 1),) if e > 1 else (): Fraction(1)})
        return r
    m0 = min(p.terms, key=_mono_key)
    if p.terms[m0] < 0:
        p = -p
    return Poly.factor(('abs', p))


def sqrt(p):
    p = P(p)
    if p.is_const():
        c = p.cval()
        if c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Poly.const(Fraction(n, d))
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        # pull out even powers of known sign
        if m and all(e % 2 == 0 for f, e in m) and c > 0:
            r = sqrt(Poly.const(c))
            for f, e in m:
                r = r * absv(Poly({((f, 1),): Fraction(1)})) ** (e // 2)
            return r
        out = ONE
        rest = []
        for f, e in m:
            if e % 2 == 0 and known_nonneg_factor(f):
                out = out * Poly({((f, e // 2),): Fraction(1)})
            else:
                rest.append((f, e))
        if rest and len(rest) < len(m):
            return out * sqrt(Poly({tuple(rest): c}))
    return Poly.factor(('sqrt', p))


def fn(name, *args):
    args = tuple(P(a) for a in args)
    if name == 'exp':
        return exp(args[0])
    if name == 'log':
        return log(args[0])
    if name == 'norm_cdf':
        return norm_cdf(args[0])
    if name == 'norm_pdf':
        p = args[0]
        if p.terms and p.terms[min(p.terms, key=_mono_key)] < 0:
            p = -p
        return Poly.factor(('fn', 'norm_pdf', p))
    return Poly.factor(('fn', name) + args)


def norm_cdf(p):
    """cdf of a symmetric distribution: F(-x) = 1 - F(x)"""
    if p.is_zero():
        return Poly.const(Fraction(1, 2))
    if p.terms[min(p.terms, key=_mono_key)] < 0:
        return ONE - Poly.factor(('fn', 'norm_cdf', -p))
    return Poly.factor(('fn', 'norm_cdf', p))


def exp(p):
    """exp of a sum is the product of exp of its monomials"""
    r = ONE
    for m, c in p.terms.items():
        if not m:
            b = Poly.factor(('fn', 'exp', Poly.const(Fraction(1, c.denominator))))
            r = r * (b ** c.numerator if c > 0 else inv(b) ** -c.numerator)
            continue
        if len(m) == 1 and m[0][1] == 1:
            f = m[0][0]
            if f[0] == 'ite':
                r = r * ite(f[1], exp(f[2].scale(c)), exp(f[3].scale(c)))
                continue
            if f[0] == 'fn' and f[1] == 'log' and c.denominator == 1 and known_pos(f[2]):
                r = r * (f[2] ** c.numerator if c > 0 else inv(f[2]) ** -c.numerator)
                continue
        b = Poly.factor(('fn', 'exp', Poly({m: Fraction(1, c.denominator)})))
        r = r * (b ** c.numerator if c > 0 else inv(b) ** -c.numerator)
    return r


def _content(p, only=None):
    """(monomial g with known positive factors, q) with p = g*q, q free of
    inverses of such factors and without common such factors"""
    low = None
    for m, c in p.terms.items():
        d = {}
        for f, e in m:
            if f[0] == 'inv' and len(f[1].terms) == 1:
                (qm, qc), = f[1].terms.items()
                if len(qm) == 1 and qm[0][1] == 1 and qc == 1:
                    f, e = qm[0][0], -e
            if known_pos_factor(f) and (only is None or only(f)):
                d[f] = d.get(f, 0) + e
        if low is None:
            low = d
        else:
            low = {f: min(low.get(f, 0), d.get(f, 0)) for f in set(low) | set(d)}
    low = {f: e for f, e in (low or {}).items() if e}
    if not low:
        return {}, p
    q = p
    for f, e in low.items():
        b = Poly.factor(f)
        q = q * (inv(b) ** e if e > 0 else b ** -e)
    return low, q


def _log_ite(f):
    a, b = log(f[2]), log(f[3])
    for p in (a, b):
        if p.terms:
            if p.terms[min(p.terms, key=_mono_key)] < 0:
                return -ite(f[1], -a, -b)
            break
    return ite(f[1], a, b)


def log(p):
    """log of a product of positive factors is the sum of their logs"""
    if p == ONE:
        return ZERO
    if p.is_const():
        return Poly.factor(('fn', 'log', p))
    low, q = _content(p)
    r = ZERO
    for f, e in low.items():
        if f[0] == 'fn' and f[1] == 'exp':
            l = f[2]
        elif f[0] == 'ite':
            l = _log_ite(f)
        else:
            l = Poly.factor(('fn', 'log', Poly.factor(f)))
        r = r + l.scale(e)
    if low:
        if q == ONE:
            return r
        return r + log(q)
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'ite' and c == 1:
            return _log_ite(m[0][0])
    return Poly.factor(('fn', 'log', p))


def ite(c, a, b):
    a, b = P(a), P(b)
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    # canonical polarity
    if c[0] == 'not':
        return ite(c[1], b, a)
    if c[0] in ('ge', 'gt', 'eq'):
        f = find_struct(c[1])
        if f is not None:
            return ite(f[1], ite(cmp_(c[0], _replace_ite(c[1], f, True)), a, b), ite(cmp_(c[0], _replace_ite(c[1], f, False)), a, b))
    if c[0] == 'ge' and not is_int(c[1]) and (a.is_zero() or b.is_zero()) and not c[1].is_const():
        # q >= 0 with q = -r*|b| only at b == 0: the conditional is its other branch
        o = b if a.is_zero() else a
        r = _ratio(o, c[1])
        if r is not None and known_nonneg(-c[1]) and a.is_zero():
            return b
        if r is not None and known_nonneg(c[1]):
            return a
    n = neg(c)
    if n[0] != 'not' and fkey(n) < fkey(c):
        c, a, b = n, b, a
        n = neg(c)
    a, b = under(a, _lits(c)), under(b, _lits(n))
    if a == b:
        return a
    if c[0] in ('ge', 'gt') and not is_int(c[1]) and _ratio(a - b, c[1]) is not None:
        # the branches agree on the boundary: >= and > are interchangeable
        q = c[1]
        forms = [(cmp_('ge', q), a, b), (cmp_('ge', -q), b, a), (cmp_('gt', q), a, b), (cmp_('gt', -q), b, a)]
        if all(f[0][0] in ('ge', 'gt') for f in forms):
            c, a, b = min(forms, key=lambda f: fkey(f[0]))
    return Poly.factor(('ite', c, a, b))


def _lits(c):
    out = set()
    for d in (c[1:] if c[0] == 'and' else (c,)):
        out.add(d)
        if d[0] == 'gt':
            out.add(cmp_('ge', d[1]))
        if d[0] == 'not' and d[1][0] == 'or':
            for e in d[1][1:]:
                out |= _lits(neg(e))
    return out


def _has_cond(f):
    return f[0] in ('ite', 'abs') or (f[0] == 'sqrt' or f[0] == 'inv' or f[0] == 'fn')


def _other_value(d, lits):
    """x == c is false where x == another constant"""
    for l in lits:
        if l[0] == 'eq' and l != d:
            r = l[1] - d[1]
            if r.is_const() and r.cval() != 0:
                return True
    return False


def under(p, lits):
    """simplify the conditionals of p decided by the literals"""
    if not any(_has_cond(f) for m in p.terms for f, e in m):
        return p
    r = ZERO
    changed = False
    for m, co in p.terms.items():
        t = Poly.const(co)
        for f, e in m:
            q = None
            if f[0] == 'ite':
                d = f[1]
                if d in lits:
                    q = under(f[2], lits)
                elif neg(d) in lits or d[0] == 'eq' and _other_value(d, lits):
                    q = under(f[3], lits)
                else:
                    x, y = under(f[2], lits), under(f[3], lits)
                    if x is not f[2] or y is not f[3]:
                        q = ite(d, x, y)
            elif f[0] == 'abs':
                d = cmp_('ge', f[1])
                if d in lits:
                    q = f[1]
                elif cmp_('ge', -f[1]) in lits or neg(d) in lits:
                    q = -f[1]
                else:
                    x = under(f[1], lits)
                    if x is not f[1]:
                        q = absv(x)
            if q is not None:
                changed = True
                t = t * q ** e
            else:
                t = t * Poly({((f, e),): Fraction(1)})
        r = r + t
    return r if changed else p


TRUE = ('true',)
FALSE = ('false',)


def cmp_(kind, p):
    """kind in ge, gt, eq applied to p (p KIND 0)"""
    p = P(p)
    if p.is_const():
        c = p.cval()
        ok = {'ge': c >= 0, 'gt': c > 0, 'eq': c == 0}[kind]
        return TRUE if ok else FALSE
    if kind == 'ge' and known_nonneg(p):
        return TRUE
    if kind == 'gt' and known_pos(p):
        return TRUE
    if kind == 'gt' and known_nonneg(-p):
        return FALSE
    if kind == 'ge' and known_pos(-p):
        return FALSE
    if kind == 'eq' and (known_pos(p) or known_pos(-p)):
        return FALSE
    m0 = min((m for m in p.terms if m), key=_mono_key)
    c0 = p.terms[m0]
    if kind == 'eq':
        p = p.scale(1 / c0)
    else:
        p = p.scale(1 / abs(c0))
    # integer tightening: gt on ints -> ge p-1 when all-integer
    if kind == 'gt' and is_int(p):
        return ('ge', p - 1)
    return (kind, p)


def is_int(p):
    for m, c in p.terms.items():
        if c.denominator != 1:
            return False
        for f, e in m:
            if f[0] == 'v' and f[2] == 'I':
                continue
            if f[0] == 'b':
                continue
            if f[0] == 'e' and f[1].startswith('int:'):
                continue
            return False
    return True


def neg(c):
    k = c[0]
    if k == 'ge':
        return cmp_('gt', -c[1])
    if k == 'gt':
        return cmp_('ge', -c[1])
    if k == 'not':
        return c[1]
    if k == 'true':
        return FALSE
    if k == 'false':
        return TRUE
    if k == 'and':
        return or_(*[neg(d) for d in c[1:]])
    if k == 'or':
        return and_(*[neg(d) for d in c[1:]])
    return ('not', c)


def and_(*cs):
    out = []
    for c in cs:
        if c == FALSE:
            return FALSE
        if c == TRUE:
            continue
        if c[0] == 'and':
            out.extend(c[1:])
        else:
            out.append(c)
    seen = []
    for c in out:
        if c not in seen:
            seen.append(c)
    for c in seen:
        if neg(c) in seen:
            return FALSE
    if not seen:
        return TRUE
    if len(seen) == 1:
        return seen[0]
    return ('and',) + tuple(sorted(seen, key=_mkkey))


def or_(*cs):
    out = []
    for c in cs:
        if c == TRUE:
            return TRUE
        if c == FALSE:
            continue
        if c[0] == 'or':
            out.extend(c[1:])
        else:
            out.append(c)
    seen = []
    for c in out:
        if c not in seen:
            seen.append(c)
    for c in seen:
        if neg(c) in seen:
            return TRUE
    if not seen:
        return FALSE
    if len(seen) == 1:
        return seen[0]
    return ('or',) + tuple(sorted(seen, key=_mkkey))


# ---------------------------------------------------------------- substitution
def subst(p, env):
    """env: dict factor-> Poly (for ('v',..) and ('b',k) factors)"""
    if not env:
        return p
    keys = set(env)
    if not (p.free() & keys):
        return p
    r = ZERO
    for m, c in p.terms.items():
        t = Poly.const(c)
        for f, e in m:
            t = t * subst_factor(f, env) ** e
        r = r + t
    return r


def subst_factor(f, env):
    if f in env:
        return env[f]
    k = f[0]
    if k in ('v', 'b'):
        return Poly.factor(f)
    if not (factor_free(f) & set(env)):
        return Poly.factor(f)
    if k == 'e':
        return elem(f[1], *[subst(i, env) for i in f[2:]])
    if k == 'abs':
        return absv(subst(f[1], env))
    if k == 'inv':
        return inv(subst(f[1], env))
    if k == 'sqrt':
        q = subst(f[1], env)
        if f[1] in NNPOLY:
            mark_nonneg(q)
        return sqrt(q)
    if k == 'fn':
        return fn(f[1], *[subst(a, env) for a in f[2:]])
    if k == 'ite':
        return ite(subst_cond(f[1], env), subst(f[2], env), subst(f[3], env))
    if k == 'sum':
        fresh = [fresh_int('s') for _ in f[1]]
        env = dict(env)
        env.update({('b', f[3] + k): v for k, v in enumerate(fresh)})
        return msum(list(zip(fresh, [subst(d, env) for d in f[1]])), open_mono(f[2], env))
    if k == 'vmax':
        v = fresh_int('m')
        n = subst(f[1], env)
        env = dict(env)
        env[('b', f[3])] = v
        return vmax(n, v, subst(f[2], env))
    raise Unsupported('subst into %r' % (k,))


def subst_cond(c, env):
    k = c[0]
    if k in ('ge', 'gt', 'eq'):
        return cmp_(k, subst(c[1], env))
    if k == 'and':
        return and_(*[subst_cond(d, env) for d in c[1:]])
    if k == 'or':
        return or_(*[subst_cond(d, env) for d in c[1:]])
    if k == 'not':
        return neg(subst_cond(c[1], env))
    if k == 'bv':
        return (k, c[1]) + tuple(subst(i, env) for i in c[2:])
    return c


_fresh = [0]


def fresh_name(prefix='t'):
    _fresh[0] += 1
    return '%s#%d' % (prefix, _fresh[0])


def fresh_int(prefix='i'):
    return var(fresh_name(prefix), 'I')


def the_factor(p):
    (m, c), = p.terms.items()
    (f, e), = m
    assert c == 1 and e == 1
    return f


# ---------------------------------------------------------------- sums
EXPAND_ITE_IN_SUM = True


def expand_ite(p, on):
    """write ite(c,a,b) factors whose condition mentions only index variables
    in ``on`` as ind*a + (1-ind)*b so that sums distribute over them"""
    return p


def msum(bounds, body):
    """sum of body over the index variables; bounds = [(varpoly, n)] , 0<=v<n"""
    body = P(body)
    for v, n in bounds:
        body = _sum1(the_factor(v), P(n), body)
    return body


def _index_split(p, bv):
    """distribute conditionals whose condition is a bound on the index only"""
    for m, c in p.terms.items():
        for f, e in m:
            if f[0] == 'ite' and bv in cond_free(f[1]) and _split_cond(f[1], bv) is not None:
                return f
    return None


def _split_cond(c, bv):
    """a condition on the index alone that c is, or is built from"""
    if c[0] in ('and', 'or'):
        for d in c[1:]:
            if bv in cond_free(d):
                r = _split_cond(d, bv)
                if r is not None:
                    return r
        return None
    if c[0] == 'not':
        return _split_cond(c[1], bv) if c[1][0] in ('eq', 'and', 'or') else None
    return c if _index_cond(c, bv) is not None else None


def _decide(c, d, val):
    """condition c given that d is val"""
    if c == d:
        return TRUE if val else FALSE
    if c == neg(d):
        return FALSE if val else TRUE
    if c[0] == 'and':
        return and_(*[_decide(e, d, val) for e in c[1:]])
    if c[0] == 'or':
        return or_(*[_decide(e, d, val) for e in c[1:]])
    if c[0] == 'not':
        return neg(_decide(c[1], d, val))
    return c


def _index_cond(c, bv):
    """if c is a*bv + rest >= 0 (integer, a=+-1): return (a, rest)"""
    if c[0] == 'ge' and is_int_lin(c[1]):
        a = c[1].terms.get(((bv, 1),), 0)
        if a in (1, -1):
            rest = c[1] - Poly({((bv, 1),): Fraction(a)})
            if bv not in rest.free():
                return (int(a), rest)
    if c[0] == 'eq' and is_int_lin(c[1]):
        a = c[1].terms.get(((bv, 1),), 0)
        if a in (1, -1):
            rest = c[1] - Poly({((bv, 1),): Fraction(a)})
            if bv not in rest.free():
                return ('eq', rest * (-a))
    return None


def is_int_lin(p):
    for m, c in p.terms.items():
        if len(m) > 1 or c.denominator != 1:
            return False
        for f, e in m:
            if e != 1:
                return False
            if not ((f[0] == 'v' and f[2] == 'I') or f[0] == 'b'):
                return False
    return True


ORDER_ORACLE = [None]   # function(cond)->True/False/None using the current path condition


def oracle(c):
    if c == TRUE:
        return True
    if c == FALSE:
        return False
    if ORDER_ORACLE[0] is None:
        return None
    return ORDER_ORACLE[0](c)


def _splittable(bv, hi, body):
    """whether the first index-conditional of body is decided by a split of [0, hi)"""
    f = _index_split(body, bv)
    if f is None:
        return False
    kind, rest = _index_cond(_split_cond(f[1], bv), bv)
    if kind == 'eq':
        return oracle(and_(cmp_('ge', rest), cmp_('ge', hi - 1 - rest))) is not None
    cut = -rest if kind == 1 else rest + 1
    if oracle(cmp_('ge', -cut)) is True or oracle(cmp_('ge', cut - hi)) is True:
        return True
    return oracle(cmp_('ge', cut)) is True and oracle(cmp_('ge', hi - cut)) is True


def _sum_range(bv, lo, hi, body):
    """sum_{lo<=b<hi} body ; splits index-conditionals; needs lo<=hi known"""
    if lo == hi:
        return ZERO
    f = _index_split(body, bv)
    if f is not None:
        sc = _split_cond(f[1], bv)
        kind, rest = _index_cond(sc, bv)
        if kind == 'eq':
            pt = rest
            # point condition  b == pt
            inside = and_(cmp_('ge', pt - lo), cmp_('ge', hi - 1 - pt))
            yes = _replace_cond(body, sc, True)
            no = _replace_cond(body, sc, False)
            o = oracle(inside)
            rng = _sum_range(bv, lo, hi, no)
            if o is False:
                return rng
            d = subst(yes - no, {bv: pt})
            if o is True:
                return rng + d
            return rng + ite(inside, d, ZERO)
        if kind == 1:      # b >= -rest
            cut = -rest
            upper, lower = True, False
        else:              # b <= rest  i.e. b < rest+1
            cut = rest + 1
            upper, lower = False, True
        A = _replace_cond(body, sc, lower)   # for b < cut
        B = _replace_cond(body, sc, upper)   # for b >= cut
        if oracle(cmp_('ge', lo - cut)) is True:
            return _sum_range(bv, lo, hi, B)
        if oracle(cmp_('ge', cut - hi)) is True:
            return _sum_range(bv, lo, hi, A)
        if oracle(cmp_('ge', cut - lo)) is True and oracle(cmp_('ge', hi - cut)) is True:
            return _sum_range(bv, lo, cut, A) + _sum_range(bv, cut, hi, B)
        # undecided: keep symbolic via clipped cut
    # singletons
    if hi - lo == ONE:
        return subst(body, {bv: lo})
    v = fresh_int('s')
    b2 = subst(body, {bv: lo + v})
    return _sum1_raw(the_factor(v), hi - lo, b2)


def _replace_cond(p, sc, val):
    """p given that the condition sc is val"""
    r = ZERO
    for m, c in p.terms.items():
        t = Poly.const(c)
        for g, e in m:
            if g[0] == 'ite':
                d = _decide(g[1], sc, val)
                t = t * (Poly.factor(g) if d == g[1] else ite(d, g[2], g[3])) ** e
            else:
                t = t * Poly({((g, e),): Fraction(1)})
        r = r + t
    return r


def _replace_ite(p, f, val):
    r = ZERO
    for m, c in p.terms.items():
        t = Poly.const(c)
        for g, e in m:
            if g[0] == 'ite' and g[1] == f[1]:
                t = t * (g[2] if val else g[3]) ** e
            elif g[0] == 'ite' and g[1] == neg(f[1]):
                t = t * (g[3] if val else g[2]) ** e
            else:
                t = t * Poly({((g, e),): Fraction(1)})
        r = r + t
    return r


def _sum1(bv, n, body):
    if _index_split(body, bv) is not None:
        return _sum_range(bv, ZERO, n, body)
    return _sum1_raw(bv, n, body)


def _sum1_raw(bv, n, body):
    if n.is_zero():
        return ZERO
    if n == ONE:
        return subst(body, {bv: ZERO})
    if n.is_const() and n.cval().denominator == 1 and 0 <= n.cval() <= 16:
        r = ZERO
        for k in range(int(n.cval())):
            r = r + subst(body, {bv: Poly.const(k)})
        return r
    if len(n.terms) > 1 and all(c > 0 and c.denominator == 1 for c in n.terms.values()) and known_nonneg(n):
        # split a range n1+n2+.. into consecutive blocks
        r = ZERO
        lo = ZERO
        for m in sorted(n.terms, key=lambda m: (m == (), _mono_key(m))):
            ln = Poly({m: n.terms[m]})
            v = fresh_int('s')
            r = r + _sum1_raw(the_factor(v), ln, subst(body, {bv: lo + v}))
            lo = lo + ln
        return r
    r = ZERO
    for m, c in body.terms.items():
        out = []
        inn = []
        for f, e in m:
            if bv in factor_free(f):
                inn.append((f, e))
            else:
                out.append((f, e))
        coef = Poly({tuple(out): c}) if out else Poly.const(c)
        if not inn:
            r = r + coef * n
            continue
        # a lone power of the bound variable etc. is kept as a sum
        r = r + coef * _mk_sum(bv, n, inn)
    return r


def _mk_sum(bv, n, inn):
    """sum over bv in [0,n) of the monomial inn (all factors mention bv)"""
    idx = [(bv, n)]
    flat = []
    for f, e in inn:
        if f[0] == 'sum':
            for _ in range(e):
                fresh = [fresh_int('s') for _ in f[1]]
                env = {('b', f[3] + k): v for k, v in enumerate(fresh)}
                for v, d in zip(fresh, f[1]):
                    idx.append((the_factor(v), subst(d, env)))
                for g, ge in f[2]:
                    gp = subst(Poly.factor(g), env)
                    flat.append((gp, ge))
        else:
            flat.append((Poly.factor(f), e))
    body = ONE
    for gp, ge in flat:
        body = body * gp ** ge
    if len(idx) > 1:
        # an index bound now visible inside: split that sum first
        for v, d in idx:
            if _splittable(v, d, body) and not any(v in e.free() for w, e in idx):
                r = _sum_range(v, ZERO, d, body)
                return _resum([(w, e) for w, e in idx if w != v], r)
    if len(idx) > 1 and len(body.terms) != 1:
        r = ZERO
        for m, c in body.terms.items():
            r = r + Poly.const(c) * _canon_sum(idx, m)
        return r
    (m, c), = body.terms.items()
    return Poly.const(c) * _canon_sum(idx, m)


def _canon_sum(idx, mono):
    """idx: list of (var factor, dom); mono over them -> Poly"""
    # factors independent of all idx (may appear after flattening)
    ids = {v for v, n in idx}
    out = [(f, e) for f, e in mono if not (factor_free(f) & ids)]
    inn = [(f, e) for f, e in mono if factor_free(f) & ids]
    pref = Poly({tuple(out): Fraction(1)}) if out else ONE
    used = set()
    for f, e in inn:
        used |= factor_free(f) & ids
    for v, n in idx:
        if v not in used:
            # is it used in another domain?
            if any(v in d.free() for w, d in idx):
                used.add(v)
            else:
                pref = pref * n
    idx = [(v, n) for v, n in idx if v in used]
    if not idx:
        return pref * Poly({tuple(inn): Fraction(1)})
    if ORTHO:
        r = _ortho(idx, inn)
        if r is not None:
            return pref * r
    # split into connected components (product of sums)
    comps = _components(idx, inn)
    if len(comps) > 1:
        r = pref
        for ci, cm in comps:
            r = r * _canon_sum(ci, tuple(cm))
        return r
    best = None
    n = len(idx)
    perms = itertools.permutations(range(n)) if n <= 5 else [tuple(range(n))]
    base = max([height(f) for f, e in inn] + [height(d) for v, d in idx])
    while best is None:
        high = base
        for perm in perms:
            env = {idx[j][0]: Poly.factor(('b', base + k)) for k, j in enumerate(perm)}
            doms = tuple(subst(idx[j][1], env) for j in perm)
            body = ONE
            for f, e in inn:
                body = body * subst_factor(f, env) ** e
            (m, c), = body.terms.items()
            high = max([high] + [height(f) for f, e in m] + [height(d) for d in doms])
            cand = ('sum', doms, m, base)
            key = _mkkey(cand)
            if best is None or key < best[0]:
                best = (key, cand, c)
        if high > base:     # an inner binder moved up: it must stay below
            best, base, perms = None, high, list(perms) if n > 5 else list(itertools.permutations(range(n)))
    return pref * Poly.factor(best[1]).scale(best[2])


ORTHO = {}      # array name -> row length: the rows are orthonormal (precondition)


def _ortho(idx, inn):
    """sum_j B[a,j]*B[b,j] = [a == b]"""
    for v, n in idx:
        if any(v in d.free() for w, d in idx):
            continue
        vp = Poly.factor(v)
        us = [(f, e) for f, e in inn if v in factor_free(f)]
        if not all(f[0] == 'e' and f[1] in ORTHO and len(f) == 4 and f[3] == vp and v not in f[2].free() and ORTHO[f[1]] == n for f, e in us):
            continue
        if len(us) == 1 and us[0][1] == 2:
            a = b = us[0][0][2]
        elif len(us) == 2 and us[0][1] == us[1][1] == 1 and us[0][0][1] == us[1][0][1]:
            a, b = us[0][0][2], us[1][0][2]
        else:
            continue
        rest = tuple((f, e) for f, e in inn if v not in factor_free(f))
        idx2 = [(w, d) for w, d in idx if w != v]
        body = Poly({rest: Fraction(1)}) if rest else ONE
        if a == b:
            return _resum(idx2, body)
        for x, y in ((a, b), (b, a)):
            if x.terms == {((x_ := _only(x), 1),): 1} and any(w == x_ for w, d in idx2) and x_ not in y.free():
                return _resum([(w, d) for w, d in idx2 if w != x_], subst(body, {x_: y}))
        if any(w in a.free() | b.free() for w, d in idx2):
            continue
        return ite(cmp_('eq', a - b), _resum(idx2, body), ZERO)
    return None


def _only(p):
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            return m[0][0]
    return None


def _resum(idx, body):
    for v, n in idx:
        body = _sum1(v, n, body)
    return body


def _components(idx, inn):
    ids = [v for v, n in idx]
    parent = {v: v for v in ids}

    def find(a):
        while parent[a] != a:
            a = parent[a]
        return a
    for f, e in inn:
        vs = [v for v in ids if v in factor_free(f)]
        for a, b in zip(vs, vs[1:]):
            parent[find(a)] = find(b)
    for v, n in idx:
        for w in ids:
            if w in n.free():
                parent[find(v)] = find(w)
    groups = {}
    for v, n in idx:
        groups.setdefault(find(v), ([], []))[0].append((v, n))
    for f, e in inn:
        vs = [v for v in ids if v in factor_free(f)]
        groups[find(vs[0])][1].append((f, e))
    return list(groups.values())


def vmax(n, v, body):
    bv = the_factor(v)
    if bv not in body.free():
        return body
    if n == ONE:
        return subst(body, {bv: ZERO})
    f = _index_split(body, bv)
    if f is not None:
        # decided over the whole range?
        sc = _split_cond(f[1], bv)
        kind, rest = _index_cond(sc, bv)
        if kind == 1:
            if oracle(cmp_('ge', rest)) is True:
                return vmax(n, v, _replace_cond(body, sc, True))
            if oracle(cmp_('gt', -rest - n + 1)) is True:
                return vmax(n, v, _replace_cond(body, sc, False))
        elif kind == -1:
            if oracle(cmp_('ge', rest - n + 1)) is True:
                return vmax(n, v, _replace_cond(body, sc, True))
            if oracle(cmp_('gt', -rest)) is True:
                return vmax(n, v, _replace_cond(body, sc, False))
    base = max(height(body), height(P(n)))
    while True:
        b = subst(body, {bv: Poly.factor(('b', base))})
        if height(b) <= base:
            return Poly.factor(('vmax', P(n), b, base))
        base = height(b)


# ---------------------------------------------------------------- printing
def show(p):
    if isinstance(p, Poly):
        if not p.terms:
            return '0'
        out = []
        for m, c in sorted(p.terms.items(), key=lambda t: _mono_key(t[0])):
            s = '*'.join(showf(f) + ('^%d' % e if e != 1 else '') for f, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append('%s*%s' % (c, s))
        return ' + '.join(out)
    return str(p)


def showf(f):
    k = f[0]
    if k == 'v':
        return f[1]
    if k == 'b':
        return 'b%d' % f[1]
    if k == 'e':
        return '%s[%s]' % (f[1], ','.join(show(i) for i in f[2:]))
    if k == 'sum':
        return 'SUM{%s}(%s)' % (','.join('b%d<%s' % (f[3] + i, show(d)) for i, d in enumerate(f[1])),
                                '*'.join(showf(g) + ('^%d' % e if e != 1 else '') for g, e in f[2]))
    if k == 'ite':
        return 'ite(%s, %s, %s)' % (showc(f[1]), show(f[2]), show(f[3]))
    if k == 'vmax':
        return 'MAX{b%d<%s}(%s)' % (f[3], show(f[1]), show(f[2]))
    return '%s(%s)' % (k if k != 'fn' else f[1], ','.join(show(a) if isinstance(a, Poly) else str(a) for a in f[1:] if a is not f[1] or k != 'fn'))


def showc(c):
    k = c[0]
    if k in ('ge', 'gt', 'eq'):
        return show(c[1]) + {'ge': ' >= 0', 'gt': ' > 0', 'eq': ' == 0'}[k]
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(showc(d) for d in c[1:]) + ')'
    if k == 'not':
        return 'not ' + showc(c[1])
    if k == 'bv':
        return '%s[%s]' % (c[1], ','.join(show(i) for i in c[2:]))
    return k
