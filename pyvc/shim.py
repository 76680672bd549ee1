"""Meaning of the numpy functions used by regreg on symbolic values.

Each entry is the mathematical definition of the numpy function (real
arithmetic).  Anything not listed is delegated to numpy when no symbolic value
is involved and is `Unsupported` otherwise."""
import builtins
import numpy as np
from . import expr as E
from .expr import Poly, P, Unsupported
from . import sym as S
from .sym import SymArr, SymReal, SymBool, Masked, to_arr, scal, is_scalar, elementwise, abin, ENG, is_inf, dpoly


def is_sym(x):
    if isinstance(x, (SymArr, SymReal, SymBool, Masked)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(is_sym(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return builtins.any(is_sym(y) for y in x.flat)
    return False


def kind_from_dtype(dt):
    if dt is None:
        return 'f'
    return {'f': 'f', 'i': 'i', 'b': 'b', 'u': 'i', 'O': 'f'}[np.dtype(dt).kind]


def _shape(s):
    if isinstance(s, (int, np.integer, SymReal)):
        return (dpoly(s),)
    if isinstance(s, np.ndarray) or isinstance(s, SymArr):
        s = tuple(s)
    return tuple(dpoly(d) for d in s)


# ------------------------------------------------------------ construction
def INF():
    r = SymArr.make(lambda idx: E.ZERO, (), 'f')
    r.buf.inf = lambda idx: E.TRUE
    return r


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, (SymArr, Masked)):
        if dtype is not None and kind_from_dtype(dtype) == 'f' and x.kind != 'f':
            r = x._num().copy()
            r.buf.kind = 'f'
            return r
        return x
    if isinstance(x, (SymReal, SymBool)):
        p = scal(x).p
        return SymArr.make(lambda idx: p, (), 'f')
    if isinstance(x, (list, tuple)) and is_sym(x):
        parts = [INF() if is_scalar(y) and is_inf(y) and y > 0 else to_arr(y) if not isinstance(y, (list, tuple)) else asarray(y) for y in x]
        shp = parts[0]._shape
        parts = [y.snapshot() for y in parts]
        big = [y.buf.inf is not None for y in parts]
        if builtins.any(big):
            if shp:
                raise Unsupported('infinite entries')
            parts = [to_arr(0.) if q else y for q, y in zip(big, parts)]
            r = asarray([SymReal(y.get(())) for y in parts])
            r.buf.inf = lambda idx: (E.TRUE if big[int(idx[0].cval())] else E.FALSE) if idx[0].is_const() else E.or_(*[E.cmp_('eq', idx[0] - j) for j in builtins.range(builtins.len(big)) if big[j]])
            return r
        kinds = [y.kind for y in parts]
        kind = 'f' if 'f' in kinds else kinds[0]

        def f(idx):
            k, rest = idx[0], tuple(idx[1:])
            if k.is_const():
                return parts[int(k.cval())].get(rest)
            r = parts[-1].get(rest)
            for j in reversed(builtins.range(len(parts) - 1)):
                c = E.cmp_('eq', k - j)
                if kind == 'b':
                    r = E.or_(E.and_(c, parts[j].get(rest)), E.and_(E.neg(c), r))
                else:
                    r = E.ite(c, parts[j].get(rest), r)
            return r
        return SymArr.make(f, (E.Poly.const(len(parts)),) + tuple(shp), kind)
    if dtype is not None:
        return np.asarray(x, dtype)
    return np.asarray(x)


def array(x, dtype=None, copy=True, *a, **k):
    r = asarray(x, dtype)
    if isinstance(r, (SymArr, Masked)):
        return r.copy() if copy else r
    return np.array(r, copy=copy)


def zeros(shape, dtype=None, *a, **k):
    kind = kind_from_dtype(dtype)
    if kind == 'b':
        return SymArr.make(lambda idx: E.FALSE, _shape(shape), 'b')
    return SymArr.make(lambda idx: E.ZERO, _shape(shape), kind)


def ones(shape, dtype=None, *a, **k):
    kind = kind_from_dtype(dtype)
    if kind == 'b':
        return SymArr.make(lambda idx: E.TRUE, _shape(shape), 'b')
    return SymArr.make(lambda idx: E.ONE, _shape(shape), kind)


def empty(shape, dtype=None, *a, **k):
    kind = kind_from_dtype(dtype)
    nm = E.fresh_name('uninit')
    if kind == 'b':
        return SymArr.make(lambda idx: ('bv', nm) + tuple(idx), _shape(shape), 'b')
    return SymArr.make(lambda idx: E.elem(nm, *idx), _shape(shape), kind)


def full(shape, v, dtype=None, *a, **k):
    r = zeros(shape)
    r.assign(v)
    return r


def zeros_like(x, dtype=None, *a, **k):
    if isinstance(x, SymReal):
        return SymReal(E.ZERO)
    x = to_arr(x)
    return zeros(x.shape, {'f': float, 'i': int, 'b': bool}[x.kind] if dtype is None else dtype)


def ones_like(x, dtype=None, *a, **k):
    x = to_arr(x)
    return ones(x.shape, {'f': float, 'i': int, 'b': bool}[x.kind] if dtype is None else dtype)


def empty_like(x, dtype=None, *a, **k):
    x = to_arr(x)
    return empty(x.shape, {'f': float, 'i': int, 'b': bool}[x.kind] if dtype is None else dtype)


def identity(n, *a, **k):
    n = dpoly(n)
    return SymArr.make(lambda idx: E.ite(E.cmp_('eq', idx[0] - idx[1]), E.ONE, E.ZERO), (n, n))


def eye(n, m=None, *a, **k):
    n = dpoly(n)
    return SymArr.make(lambda idx: E.ite(E.cmp_('eq', idx[0] - idx[1]), E.ONE, E.ZERO), (n, n if m is None else dpoly(m)))


def arange(*a, **k):
    if not is_sym(a):
        return np.arange(*a, **k)
    if len(a) == 1:
        return SymArr.make(lambda idx: idx[0], (dpoly(a[0]),), 'i')
    if len(a) == 2:
        lo = dpoly(a[0])
        return SymArr.make(lambda idx: idx[0] + lo, (dpoly(a[1]) - lo,), 'i')
    raise Unsupported('arange with step')


def linspace(start, stop, num=50, *a, **k):
    if not is_sym((start, stop, num)):
        return np.linspace(start, stop, num, *a, **k)
    if a or k:
        raise Unsupported('linspace arguments')
    lo, hi, n = scal(start).p, scal(stop).p, dpoly(num)
    from . import engine as G
    if not (n.is_const() and n.cval() >= 2) and not G.prove(E.cmp_('ge', n - 2), 3.).ok:
        raise Unsupported('linspace with fewer than two points')
    lead = [mono for mono in n.terms if mono]

    def at(idx):
        # the same for any c; c takes the length out of the position when it is counted from the end
        c = idx[0].terms.get(lead[0], 0) if builtins.len(lead) == 1 else 0
        return lo + (hi - lo) * c + (idx[0] - (n - 1) * c) * (hi - lo) * E.inv(n - 1)
    return SymArr.make(at, (n,), 'f')


def diag(x, *a, **k):
    if a or k:
        raise Unsupported('diag offset')
    x = to_arr(x).snapshot()
    if x.ndim == 1:
        return SymArr.make(lambda idx: E.ite(E.cmp_('eq', idx[0] - idx[1]), x.get((idx[0],)), E.ZERO), (x._shape[0],) * 2)
    return SymArr.make(lambda idx: x.get((idx[0], idx[0])), (x._shape[0],))


# ------------------------------------------------------------ elementwise
def _un(f):
    def g(x, out=None, **k):
        if isinstance(x, SymReal):
            return SymReal(f(x.p))
        x = to_arr(x)
        r = x._num()._map(f)
        if x.shape == () and isinstance(x, SymArr):
            return SymReal(r.at())
        if out is not None:
            out.assign(r)
            return out
        return r
    return g


def _sgn(p):
    if p.is_const():
        c = p.cval()
        return Poly.const((c > 0) - (c < 0))
    if E.known_pos(p):
        return E.ONE
    return E.ite(E.cmp_('gt', p), E.ONE, E.ite(E.cmp_('gt', -p), Poly.const(-1), E.ZERO))


sign = _un(_sgn)
fabs = _un(E.absv)
absolute = fabs
abs = fabs
sqrt = _un(E.sqrt)


def _exp(p):
    return E.fn('exp', p)


def _log(p):
    return E.fn('log', p)


exp = _un(_exp)
log = _un(_log)
log1p = _un(lambda p: _log(p + 1))
expm1 = _un(lambda p: _exp(p) - 1)
square = _un(lambda p: p * p)
negative = _un(lambda p: -p)
floor = _un(lambda p: p if p.is_const() and p.cval().denominator == 1 else (_ for _ in ()).throw(Unsupported('floor')))


def isnan(x):
    if isinstance(x, SymReal):
        return False
    x = to_arr(x)
    return x._map(lambda p: E.FALSE, 'b')


def isinf(x):
    if isinstance(x, SymArr) and x.buf.inf is not None and x.view is None:
        return SymArr.make(x.buf.inf, x._shape, 'b')
    return isnan(x)


def isfinite(x):
    if isinstance(x, SymReal):
        return True
    x = to_arr(x)
    if isinstance(x, SymArr) and x.buf.inf is not None and x.view is None:
        w = x.buf.inf
        return SymArr.make(lambda idx: E.neg(w(idx)), x._shape, 'b')
    return x._map(lambda p: E.TRUE, 'b')


def maximum(a, b, *r, **k):
    if is_inf(a):
        return a if a > 0 else b
    if is_inf(b):
        return b if b > 0 else a
    if S.parts(a) is not None or S.parts(b) is not None:
        return _inf_max(a, b)
    return elementwise(lambda x, y: emax(x, y), 'f', S.num_arg(a), S.num_arg(b))


def _inf_max(a, b):
    pa, pb = S.parts(a), S.parts(b)
    if pa is None:
        pa, pb, a, b = pb, pa, b, a
    if pb is not None:
        raise Unsupported('infinite entries on both sides')
    fin, at, sg = pa
    r = maximum(fin, b)
    if sg > 0:
        return S.with_inf(r, at, 1)
    return where(at, b, r)


def emax(x, y):
    return E.ite(E.cmp_('ge', x - y), x, y)


def emin(x, y):
    return E.ite(E.cmp_('ge', y - x), x, y)


def logaddexp(a, b, *r, **k):
    return elementwise(lambda x, y: _log(_exp(x) + _exp(y)), 'f', S.num_arg(a), S.num_arg(b))


def minimum(a, b, *r, **k):
    if is_inf(a):
        return a if a < 0 else b
    if is_inf(b):
        return b if b < 0 else a
    if S.parts(a) is not None or S.parts(b) is not None:
        return -_inf_max(-to_arr(a), -to_arr(b))
    return elementwise(lambda x, y: emin(x, y), 'f', S.num_arg(a), S.num_arg(b))


def clip(a, lo, hi, out=None):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if r is a and isinstance(a, SymArr):
        r = a.copy()
    if out is not None:
        out.assign(r)
        return out
    return r


def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    if isinstance(c, SymBool):
        c = to_arr(c)
    c = to_arr(c)
    if c.kind != 'b':
        c = c._map(lambda p: E.neg(E.cmp_('eq', p)), 'b')
    if isinstance(a, SymArr) and a.buf.inf is not None and a.view is None and builtins.len(a._shape) == c.ndim:
        # infinite entries that are not chosen
        idx = tuple(E.fresh_int('w') for _ in a._shape)
        if E.and_(c.get(idx), a.buf.inf(idx)) == E.FALSE:
            a = SymArr.make(a.buf.fn, a._shape, a.kind)
    if is_inf(a) or is_inf(b) or S.parts(a) is not None or S.parts(b) is not None:
        sides = []
        for z in (a, b):
            if is_inf(z):
                sides.append((0., True, 1 if z > 0 else -1))
            else:
                sides.append(S.parts(z) or (z, False, None))
        (fa, wa, ga), (fb, wb, gb) = sides
        if ga is not None and gb is not None and ga != gb:
            raise Unsupported('infinite entries of both signs')
        lit = lambda z: SymBool(E.TRUE if z else E.FALSE) if isinstance(z, bool) else z
        at = elementwise(lambda k, x, y: E.or_(E.and_(k, x), E.and_(E.neg(k), y)), 'b', c, lit(wa), lit(wb))
        return S.with_inf(where(c, fa, fb), at, ga or gb)
    return elementwise(lambda k, x, y: E.ite(k, x, y), 'f', c, S.num_arg(a), S.num_arg(b))


def nonzero(c):
    if getattr(c, 'enum', None) is not None:
        return (c.enum,)
    c = to_arr(c)
    if c.kind != 'b':
        c = c._map(lambda p: E.neg(E.cmp_('eq', p)), 'b')
    if c.ndim != 1:
        raise Unsupported('nonzero positions of a symbolic matrix')
    return (S.NonzeroIdx(c.snapshot()),)


def flatnonzero(c):
    return nonzero(to_arr(c))[0]


# ------------------------------------------------------------ reductions
def _axis(axis, nd):
    return axis + nd if axis < 0 else axis


def np_sum(x, axis=None, *a, **k):
    if isinstance(x, (list, tuple)) and axis is None and builtins.all(is_scalar(y) for y in x):
        r = SymReal(E.ZERO)
        for y in x:
            r = r + y
        return r
    if isinstance(x, (SymReal,)):
        return x
    if isinstance(x, Masked):
        return x.sum()
    x = unflat(to_arr(x))._num().snapshot()
    if axis is None:
        idx = tuple(E.fresh_int('s') for _ in x._shape)
        return SymReal(E.msum(list(zip(idx, x._shape))[::-1], x.get(idx)))
    ax = _axis(axis, x.ndim)
    n = x._shape[ax]
    shp = x._shape[:ax] + x._shape[ax + 1:]

    def f(idx):
        v = E.fresh_int('s')
        return E.msum([(v, n)], x.get(tuple(idx[:ax]) + (v,) + tuple(idx[ax:])))
    if not shp:
        return SymReal(f(()))
    return SymArr.make(f, shp, x.kind)


def mean(x, axis=None, *a, **k):
    if isinstance(x, Masked):
        return x.sum() / x.count()
    x = to_arr(x)
    if axis is None:
        return np_sum(x) / x.size
    ax = _axis(axis, x.ndim)
    return np_sum(x, axis) / S.dimval(x._shape[ax])


def average(x, axis=None, weights=None):
    if weights is None:
        return mean(x, axis)
    if axis is not None:
        raise Unsupported('average over an axis with weights')
    x, weights = to_arr(x), to_arr(weights)
    return np_sum(x * weights) / np_sum(weights)


def std(x, axis=None, ddof=0, *a, **k):
    x = to_arr(x)
    if axis is None:
        m = mean(x)
        return SymReal(E.sqrt(_nn(scal(np_sum((x - m) ** 2) / (x.size - ddof if ddof else x.size)).p)))
    if _axis(axis, x.ndim) != 0:
        raise Unsupported('std axis')
    m = mean(x, axis)
    return (np_sum((x - m) ** 2, 0) / S.dimval(x._shape[0]))._map(lambda p: E.sqrt(_nn(p)))


def amax(x, axis=None, *a, **k):
    if 'initial' in k and k['initial'] is not None:
        first = scal(k.pop('initial')).p
        if a or axis is not None:
            raise Unsupported('maximum with an initial value')
        if isinstance(x, Masked):
            m, s = x.mask, x.src._num()
            x = SymArr.make(lambda idx: E.ite(m.get(idx), s.get(idx), first), s._shape)
        x = to_arr(x)
        if builtins.any(d.is_const() and d.cval() == 0 for d in x._shape):
            return SymReal(first)
        v = scal(amax(x)).p
        # an empty array is covered: nothing is assumed of the maximum of one
        return SymReal(emax(v, first))
    if isinstance(x, (list, tuple)) and axis is None and is_sym(x):
        r = x[0]
        for y in x[1:]:
            r = maximum(r, y)
        return scal(r) if is_scalar(r) else r
    if isinstance(x, SymReal):
        return x
    if isinstance(x, Masked):
        return masked_max(x)
    x = unflat(to_arr(x))._num().snapshot()
    if axis is None:
        if x.ndim == 0:
            return SymReal(x.at())
        return SymReal(_vmax_nd(x))
    ax = _axis(axis, x.ndim)
    n = x._shape[ax]
    shp = x._shape[:ax] + x._shape[ax + 1:]

    def f(idx):
        v = E.fresh_int('m')
        return vmaxp(n, v, x.get(tuple(idx[:ax]) + (v,) + tuple(idx[ax:])))
    if not shp:
        return SymReal(f(()))
    return SymArr.make(f, shp)


def vmaxp(n, v, body):
    if n.is_const() and n.cval() <= 16:
        k = int(n.cval())
        if k == 0:
            raise ValueError('zero-size array to reduction operation maximum which has no identity')
        r = E.subst(body, {E.the_factor(v): E.ZERO})
        for j in builtins.range(1, k):
            r = emax(E.subst(body, {E.the_factor(v): Poly.const(j)}), r)
        return r
    return E.vmax(n, v, body)


def _vmax_nd(x):
    idx = tuple(E.fresh_int('m') for _ in x._shape)
    body = x.get(idx)
    for v, n in reversed(list(zip(idx, x._shape))):
        body = vmaxp(n, v, body)
    return body


def amin(x, axis=None, *a, **k):
    if isinstance(x, (list, tuple)) and axis is None and is_sym(x):
        r = x[0]
        for y in x[1:]:
            r = minimum(r, y)
        return r
    return -amax(-to_arr(x), axis)


def masked_max(m):
    raise Unsupported('max of a masked sub-vector')


def _norm_cond(c):
    if isinstance(c, (list, tuple)):
        c = to_arr([SymBool(S.cond_of(y)) for y in c])
    c = to_arr(c)
    if isinstance(c, Masked):
        src, mask = c.src, c.mask
        if src.kind != 'b':
            src = src._map(lambda p: E.neg(E.cmp_('eq', p)), 'b')
        return SymArr.make(lambda idx: E.or_(E.neg(mask.get(idx)), src.get(idx)), src._shape, 'b')
    c = unflat(c)
    if c.kind != 'b':
        c = c._map(lambda p: E.neg(E.cmp_('eq', p)), 'b')
    return c.snapshot()


def np_all(c, axis=None, *a, **k):
    if isinstance(c, (SymBool, bool, np.bool_)):
        return c
    if isinstance(c, SymReal):
        return SymBool(E.neg(E.cmp_('eq', c.p)))
    if axis is not None:
        raise Unsupported('all with axis')
    c = _norm_cond(c)
    if builtins.all(d.is_const() for d in c._shape) and builtins.all(d.cval() <= 16 for d in c._shape):
        cs = [c.get(tuple(Poly.const(i) for i in ix)) for ix in np.ndindex(*[int(d.cval()) for d in c._shape])]
        r = E.and_(*cs)
        return bool(r == E.TRUE) if r in (E.TRUE, E.FALSE) else SymBool(r)
    probe = tuple(E.var('allprobe%d' % j, 'I') for j in builtins.range(c.ndim))
    body = c.get(probe)
    if body == E.TRUE:
        return True
    return SymBool(ENG.forall_cond(c, body, probe))


def np_any(c, axis=None, *a, **k):
    if isinstance(c, (SymBool, bool, np.bool_)):
        return c
    if isinstance(c, SymReal):
        return SymBool(E.neg(E.cmp_('eq', c.p)))
    if isinstance(c, Masked):
        src, mask = c.src, c.mask
        if src.kind != 'b':
            src = src._map(lambda p: E.neg(E.cmp_('eq', p)), 'b')
        cc = SymArr.make(lambda idx: E.and_(mask.get(idx), src.get(idx)), src._shape, 'b')
    else:
        cc = _norm_cond(c)
    r = np_all(~cc)
    if isinstance(r, SymBool):
        return SymBool(E.neg(r.c))
    return not r


def prod(x, axis=None, *a, **k):
    if isinstance(x, (SymArr, Masked)) and x.kind == 'b':
        return np_all(x)
    if isinstance(x, (tuple, list)):
        r = 1
        for y in x:
            r = y * r
        return r
    x = to_arr(x)
    if x.ndim == 1 and x._shape[0].is_const():
        r = SymReal(E.ONE)
        for y in x:
            r = r * y
        return r
    raise Unsupported('product of symbolic length')


def dot(a, b, out=None):
    if is_scalar(a) or is_scalar(b):
        return a * b
    a, b = S.num_arg(to_arr(a)), S.num_arg(to_arr(b))
    if isinstance(a, Masked) or isinstance(b, Masked):
        return (a * b).sum()
    a, b = a.snapshot(), b.snapshot()
    n = a._shape[-1]
    m = b._shape[0] if b.ndim == 1 else b._shape[-2]
    if not S.same_dim(n, m):
        if n.is_const() and m.is_const():
            raise ValueError('shapes not aligned')
        raise Unsupported('dot: dims not provably equal %s %s' % (E.show(n), E.show(m)))
    la, lb = a.ndim - 1, b.ndim - 1

    def f(idx):
        v = E.fresh_int('s')
        x = a.get(tuple(idx[:la]) + (v,))
        jb = tuple(idx[la:])
        y = b.get((v,) if b.ndim == 1 else jb[:-1] + (v,) + jb[-1:])
        return E.msum([(v, n)], x * y)
    shp = a._shape[:-1] + (b._shape[:-2] + b._shape[-1:] if b.ndim > 1 else ())
    if not shp:
        return SymReal(f(()))
    return SymArr.make(f, shp)


def _nn(p):
    E.mark_nonneg(p)
    return p


def norm(x, ord=None, axis=None, *a, **k):
    if isinstance(x, Masked):
        if axis is not None or ord not in (None, 2):
            raise Unsupported('norm')
        return SymReal(E.sqrt(_nn(scal((x * x).sum()).p)))
    x = to_arr(x)
    if ord in (None, 2, 'fro') and (axis is None):
        if ord == 2 and x.ndim == 2:
            raise Unsupported('spectral norm')
        return SymReal(E.sqrt(_nn(scal(np_sum(x * x)).p)))
    if ord in (None, 2):
        r = np_sum(x * x, axis)
        return r._map(lambda p: E.sqrt(_nn(p))) if isinstance(r, SymArr) else SymReal(E.sqrt(_nn(r.p)))
    if ord == 1 and x.ndim == 1:
        return np_sum(fabs(x))
    if ord == np.inf and x.ndim == 1:
        return amax(fabs(x))
    raise Unsupported('norm ord')


def cumsum(x, axis=None, *a, **k):
    x = to_arr(x)._num().snapshot()
    if x.ndim != 1 and axis != 0:
        raise Unsupported('cumsum')

    def f(idx):
        v = E.fresh_int('s')
        return E.msum([(v, idx[0] + 1)], x.get((v,) + tuple(idx[1:])))
    return SymArr.make(f, x._shape)


def diff(x, *a, **k):
    return x[1:] - x[:-1]


def outer(a, b):
    a, b = to_arr(a).snapshot(), to_arr(b).snapshot()
    return SymArr.make(lambda idx: a.get(idx[:a.ndim]) * b.get(idx[a.ndim:]), a._shape + b._shape)


# ------------------------------------------------------------ shapes
def reshape(x, shape, *a, **k):
    if isinstance(shape, (int, np.integer, SymReal)):
        shape = (shape,)
    shape = list(shape)
    x = to_arr(x)
    total = E.ONE
    for d in x._shape:
        total = total * d
    tgt = [None if (isinstance(d, (int, np.integer)) and d == -1) else dpoly(d) for d in shape]
    if None in tgt:
        rest = E.ONE
        for d in tgt:
            if d is not None:
                rest = rest * d
        j = tgt.index(None)
        if rest == E.ONE:
            tgt[j] = total
        elif rest.is_const() and total.is_const():
            tgt[j] = Poly.const(total.cval() / rest.cval())
        else:
            # total must be rest * q
            for d in x._shape:
                if d * rest == total:
                    tgt[j] = d
            if tgt[j] is None:
                q = E.ONE
                rem = list(x._shape)
                for t in tgt:
                    if t is not None:
                        if t in rem:
                            rem.remove(t)
                        elif t != E.ONE:
                            raise Unsupported('reshape')
                for t in rem:
                    q = q * t
                tgt[j] = q
    if tuple(tgt) == tuple(x._shape):
        return SymArr(x.buf, x._shape, x.view)
    # compare up to singleton axes
    a0 = [d for d in x._shape if d != E.ONE]
    b0 = [d for d in tgt if d != E.ONE]
    src = x.snapshot()
    if len(a0) == len(b0) and builtins.all(S.same_dim(p, q) for p, q in zip(a0, b0)):
        pos = [i for i, d in enumerate(tgt) if d != E.ONE]

        def f(idx):
            it = iter([idx[p] for p in pos])
            return src.get(tuple(E.ZERO if d == E.ONE else next(it) for d in src._shape))
        return SymArr.make(f, tgt, src.kind)
    if builtins.all(d.is_const() for d in list(x._shape) + tgt):
        sa = [int(d.cval()) for d in x._shape]
        sb = [int(d.cval()) for d in tgt]
        if np.prod(sa) != np.prod(sb):
            raise ValueError('cannot reshape array')

        def f(idx):
            if builtins.all(i.is_const() for i in idx):
                k = np.ravel_multi_index([int(i.cval()) for i in idx], sb) if sb else 0
                return src.get(tuple(Poly.const(int(j)) for j in np.unravel_index(k, sa)))
            r = None
            for ix in np.ndindex(*sb):
                v = f(tuple(Poly.const(int(j)) for j in ix))
                c = E.and_(*[E.cmp_('eq', i - int(j)) for i, j in zip(idx, ix)])
                r = v if r is None else E.ite(c, v, r)
            return r
        return SymArr.make(f, tgt, src.kind)
    prodt = E.ONE
    for d in tgt:
        prodt = prodt * d
    if prodt.is_const() and total.is_const() and prodt != total:
        raise ValueError('cannot reshape array')
    if len(tgt) == 1 and x.ndim == 2:
        return flat(x)
    if len(tgt) == 2 and x.ndim == 1:
        m = unflat(x)
        if m.ndim == 2 and tuple(m._shape) == tuple(tgt):
            return m
    raise Unsupported('reshape %s -> %s' % (x.shape, shape))


def _flats():
    if getattr(ENG.path, 'flat', None) is None:
        ENG.path.flat = ({}, {})
    return ENG.path.flat


def flat(x):
    """a matrix laid out as a vector of length rows*columns: its entries are
    reached through the positions of row_major only"""
    shapes, where = _flats()
    n, p = x._shape
    total = n * p
    if shapes.setdefault(total, (n, p)) != (n, p):
        raise Unsupported('two layouts of the same length')
    src = x.snapshot()

    def f(idx):
        k = where.get(idx[0])
        if k is None:
            raise Unsupported('position in a flattened matrix')
        return src.get(k)
    return SymArr.make(f, (total,), src.kind)


def unflat(x):
    """the matrix a flattened matrix is made of (x itself when it is not one)"""
    if not isinstance(x, SymArr) or x.ndim != 1 or getattr(ENG.path, 'flat', None) is None:
        return x
    shapes, where = _flats()
    if x._shape[0] not in shapes:
        return x
    n, p = shapes[x._shape[0]]
    src = x.snapshot()

    def f(idx):
        k = idx[0] * p + idx[1]
        where[k] = (idx[0], idx[1])
        return src.get((k,))
    return SymArr.make(f, (n, p), src.kind)


def ravel(x, *a):
    return reshape(to_arr(x).snapshot(), (-1,))


def squeeze(x, *a, **k):
    x = to_arr(x)
    src = x
    shp = [d for d in x._shape if d != E.ONE]
    if len(shp) == x.ndim:
        return x
    return reshape(x, [S.dimval(d) for d in shp])


def hstack(seq):
    return concatenate([atleast_1d(x) for x in seq], 0 if builtins.max(to_arr(x).ndim for x in seq) <= 1 else 1)


def atleast_1d(x):
    if is_scalar(x):
        p = scal(x).p
        return SymArr.make(lambda idx: p, (E.ONE,))
    return x


def atleast_2d(x):
    x = to_arr(x)
    if x.ndim == 1:
        return x[None, :]
    if x.ndim == 0:
        p = x.at()
        return SymArr.make(lambda idx: p, (E.ONE, E.ONE))
    return x


def concatenate(seq, axis=0, *a, **k):
    seq = [to_arr(x).snapshot() for x in seq]
    nd = seq[0].ndim
    axis = _axis(axis, nd)
    tot = E.ZERO
    starts = []
    for x in seq:
        starts.append(tot)
        tot = tot + x._shape[axis]
        if x.ndim != nd:
            raise ValueError('all the input array dimensions must match')
    shp = list(seq[0]._shape)
    shp[axis] = tot
    kinds = [x.kind for x in seq]
    kind = 'f' if 'f' in kinds else kinds[0]
    seq = [x._num() if kind != 'b' else x for x in seq]

    def f(idx):
        i = idx[axis]
        r = None
        for x, st in reversed(list(zip(seq, starts))):
            j = tuple(idx[:axis]) + (i - st,) + tuple(idx[axis + 1:])
            if r is None:
                r = x.get(j)
                cut = st
            else:
                c = E.cmp_('ge', cut - 1 - i)
                o = E.oracle(c) if c not in (E.TRUE, E.FALSE) else (c == E.TRUE)
                if o is True:
                    r = x.get(j)
                elif o is None:
                    v = x.get(j)
                    r = E.ite(c, v, r) if kind != 'b' else E.or_(E.and_(c, v), E.and_(E.neg(c), r))
                cut = st
        return r
    return SymArr.make(f, shp, kind)


def vstack(seq):
    seq = [atleast_2d(x) for x in seq]
    return concatenate(seq, 0)


def column_stack(seq):
    out = []
    for x in seq:
        x = to_arr(x)
        out.append(x[:, None] if x.ndim == 1 else x)
    return concatenate(out, 1)


def transpose(x, *a):
    if a:
        raise Unsupported('transpose axes')
    return x.T


def unique(x, *a, **k):
    lab = getattr(x, 'labels', None)
    if lab is not None and not a and not k:
        return np.array(lab)
    x = to_arr(x)
    if not a and not k and x.kind in 'fi':
        idx = tuple(E.fresh_int('u') for _ in x._shape)
        v = x.get(idx)
        from . import engine as G
        t = [mono for mono, k in v.terms.items() if k == 1] if builtins.len(v.terms) == 1 else []
        lab = G.ARR_LABELS.get(t[0][0][0][1]) if t and builtins.len(t[0]) == 1 and t[0][0][1] == 1 and t[0][0][0][0] == 'e' else None
        if lab is not None:
            at = t[0][0][0][2:]
            if builtins.all(q == p for q, p in zip(at, idx)):
                return np.arange(lab)
            sub = G.ARR_LABELS.get((t[0][0][0][1],) + tuple(E.subst(q, {E.the_factor(p): E.var('uq', 'I')}) for q, p in zip(at, idx)))
            if sub is not None:
                return np.array(sub)
        if G.with_facts(S.in_dom(idx, x._shape), lambda: G.prove(E.or_(E.cmp_('eq', v), E.cmp_('eq', v - 1)), 3.)).ok:
            # every nonempty subset is explored: over-approximates the values present
            memo = ENG.path.__dict__.setdefault('unique_memo', {})
            key = x.get(tuple(E.var('uq%d' % q, 'I') for q in builtins.range(x.ndim))), tuple(x._shape)
            if key not in memo:
                memo[key] = ENG.choose(3, 'unique')
            j = memo[key]
            return np.array([[0., 1.], [0.], [1.]][j])
    raise Unsupported('unique of a symbolic array')


def copy(x, *a, **k):
    return to_arr(x).copy()


def array_equal(a, b):
    return np_all(abin('eq', a, b))


def allclose(a, b, rtol=1e-5, atol=1e-8):
    """|a-b| <= atol + rtol*|b|"""
    d = fabs(a - b) if not is_scalar(a) or not is_scalar(b) else scal(fabs(scal(a) - scal(b)))
    return np_all(abin('le', d, atol + rtol * fabs(b)) if not is_scalar(d) else d <= atol + rtol * fabs(scal(b)))


def argsort(x, *a, **k):
    raise Unsupported('argsort')


def sort(x, *a, **k):
    raise Unsupported('sort')


def _cmpf(op):
    def f(a, b, *r, **k):
        return abin(op, a, b)
    return f


def add(a, b, out=None, **k):
    r = a + b
    if out is not None:
        out.assign(r)
        return out
    return r


class _Outer(object):
    def __init__(self, f, o):
        self.f, self.outer = f, o

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def multiply_(a, b, *r, **k):
    return a * b


def subtract_(a, b, *r, **k):
    return a - b


def _fin(name):
    pass


def seterr(*a, **k):
    return {}


def isscalar(x):
    return is_scalar(x)


def nansum(x, axis=None):
    return np_sum(x, axis)


def round_(x, *a):
    if getattr(x, 'kind', None) == 'i':
        return x
    raise Unsupported('rounding')


def mod(a, b, *r, **k):
    """remainder of an integer by a positive constant, or of a finite value by infinity"""
    if is_inf(b) and b > 0 and isinstance(a, SymReal):
        if S.decide(E.cmp_('ge', a.p)):
            return a
        return b
    if isinstance(a, SymReal) and isinstance(b, (int, np.integer)) and b > 0:
        q, m = E.fresh_int('quot'), E.fresh_int('mod')
        ENG.path.add(E.cmp_('ge', m))
        ENG.path.add(E.cmp_('ge', P(int(b) - 1) - m))
        ENG.path.add(E.cmp_('eq', a.p - q * P(int(b)) - m))
        return SymReal(m)
    raise Unsupported('mod')


class RecordDtype(object):
    """stands for a structured dtype with symbolic field shapes (only its field names are used)"""

    def __init__(self, fields):
        self.names = tuple(f[0] for f in fields)


def dtype(spec, *a, **k):
    if isinstance(spec, builtins.list):
        return RecordDtype(spec)
    raise Unsupported('np.dtype of a symbolic argument')


TABLE = {
    'asarray': asarray, 'array': array, 'zeros': zeros, 'ones': ones, 'empty': empty, 'full': full,
    'zeros_like': zeros_like, 'ones_like': ones_like, 'empty_like': empty_like, 'identity': identity, 'eye': eye,
    'arange': arange, 'linspace': linspace, 'diag': diag, 'sign': sign, 'fabs': fabs, 'abs': fabs, 'absolute': fabs, 'sqrt': sqrt, 'exp': exp,
    'log': log, 'log1p': log1p, 'square': square, 'negative': negative, 'isnan': isnan, 'isinf': isinf, 'isfinite': isfinite,
    'maximum': maximum, 'minimum': minimum, 'clip': clip, 'where': where, 'nonzero': nonzero, 'flatnonzero': flatnonzero, 'expm1': expm1, 'logaddexp': logaddexp, 'sum': np_sum,
    'mean': mean, 'average': average, 'std': std, 'max': amax, 'amax': amax, 'min': amin, 'amin': amin, 'all': np_all, 'alltrue': np_all, 'any': np_any,
    'prod': prod, 'product': prod, 'dot': dot, 'cumsum': cumsum, 'diff': diff, 'outer': outer, 'reshape': reshape,
    'ravel': ravel, 'squeeze': squeeze, 'hstack': hstack, 'vstack': vstack, 'concatenate': concatenate,
    'column_stack': column_stack, 'transpose': transpose, 'unique': unique, 'copy': copy, 'array_equal': array_equal,
    'allclose': allclose, 'argsort': argsort, 'sort': sort, 'less_equal': _cmpf('le'), 'less': _cmpf('lt'),
    'greater': _cmpf('gt'), 'greater_equal': _cmpf('ge'), 'equal': _cmpf('eq'), 'not_equal': _cmpf('ne'), 'add': add,
    'multiply': _Outer(multiply_, outer), 'subtract': subtract_, 'true_divide': lambda a, b, *r, **k: a / b,
    'divide': lambda a, b, *r, **k: a / b, 'power': lambda a, b, *r, **k: a ** b, 'logical_not': lambda a, *r, **k: ~a,
    'invert': lambda a, *r, **k: ~a,
    'logical_and': lambda a, b, *r, **k: a & b, 'logical_or': lambda a, b, *r, **k: a | b, 'atleast_1d': atleast_1d,
    'atleast_2d': atleast_2d, 'seterr': seterr, 'isscalar': isscalar, 'nansum': nansum, 'round': round_, 'around': round_,
    'bitwise_and': lambda a, b, *r, **k: a & b, 'bitwise_or': lambda a, b, *r, **k: a | b, 'matmul': lambda a, b, *r, **k: dot(a, b),
    'identity': identity, 'ndim': lambda x: to_arr(x).ndim, 'shape': lambda x: to_arr(x).shape,
    'mod': mod, 'remainder': mod, 'dtype': dtype, 'ascontiguousarray': asarray, 'asfortranarray': asarray, 'asanyarray': asarray,
}
# construction functions act even on concrete arguments (their results may
# receive symbolic values later)
ALWAYS = {'zeros', 'ones', 'empty', 'full', 'identity', 'eye', 'zeros_like', 'ones_like', 'empty_like', 'array', 'asarray'}
CONCRETE_OK = {'array', 'asarray'}


class _Dispatch(object):
    """f from TABLE when a symbolic value is involved, numpy otherwise"""

    def __init__(self, name, real):
        self.name, self.real = name, real
        self.f = TABLE[name]
        self.always = name in ALWAYS and name not in CONCRETE_OK

    def __call__(self, *a, **k):
        if self.always and not _intlike(k.get('dtype', a[1] if len(a) > 1 else None)):
            return self.f(*a, **k)
        if is_sym(a) or is_sym(tuple(k.values())):
            return self.f(*a, **k)
        return self.real(*a, **k)

    def __getattr__(self, nm):
        if nm == 'outer' and hasattr(self.f, 'outer'):
            return lambda a, b: (self.f.outer(a, b) if is_sym((a, b)) else self.real.outer(a, b))
        return getattr(self.real, nm)


def _intlike(dt):
    try:
        return dt is not None and np.dtype(dt).kind in 'iub' and False
    except TypeError:
        return False


class _LinalgProxy(object):
    def __getattr__(self, nm):
        real = getattr(np.linalg, nm)
        if nm == 'norm':
            return _NormDispatch()
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **k):
            if nm in LINALG_STUBS and is_sym(a):
                return LINALG_STUBS[nm](*a, **k)
            if is_sym(a):
                raise Unsupported('linalg.%s of symbolic values' % nm)
            return real(*a, **k)
        return f


LINALG_STUBS = {}


class _NormDispatch(object):
    def __call__(self, *a, **k):
        if is_sym(a):
            return norm(*a, **k)
        return np.linalg.norm(*a, **k)


class _TestingProxy(object):
    def __getattr__(self, nm):
        return getattr(np.testing, nm)

    def assert_allclose(self, a, b, rtol=1e-7, atol=0, **k):
        if not is_sym(a) and not is_sym(b):
            return np.testing.assert_allclose(a, b, rtol=rtol, atol=atol, **k)
        if S.kind_of2(a) == 'b' and S.kind_of2(b) == 'b':
            ok = np_all(abin('eq', a, b))
        else:
            ok = allclose(a, b, rtol, atol)
        if not ok:
            raise AssertionError('assert_allclose')


class NPProxy(object):
    def __init__(self):
        self._c = {}

    def __getattr__(self, nm):
        if nm == 'linalg':
            return _LinalgProxy()
        if nm == 'testing':
            return _TestingProxy()
        if nm in TABLE:
            r = self._c.get(nm)
            if r is None:
                r = self._c[nm] = _Dispatch(nm, getattr(np, nm))
            return r
        return getattr(np, nm)


NP = NPProxy()
_UF = {'fabs': 'fabs', 'absolute': 'abs', 'true_divide': 'divide'}


def add_at(out, key, value):
    """np.add.at: like out[key] += value with repeated positions added up"""
    if isinstance(out, np.ndarray):
        raise Unsupported('symbolic value written into a concrete array')
    ks = key if isinstance(key, tuple) else (key,)
    if builtins.all(isinstance(k, (builtins.slice, builtins.int, np.integer, SymReal)) or k is None or k is Ellipsis for k in ks):
        out[key] = out[key] + value        # basic indexing: positions are distinct
    elif isinstance(key, np.ndarray) and key.dtype == bool:
        out[key] = out[key] + value
    elif isinstance(key, (np.ndarray, builtins.list)) and np.asarray(key).ndim == 1:
        for j, k in enumerate(np.asarray(key)):
            out[builtins.int(k)] = out[builtins.int(k)] + (value[j] if S.to_arr(value).ndim else value)
    else:
        raise Unsupported('np.add.at with this index')


def array_ufunc(ufunc, method, inputs, kw):
    nm = ufunc.__name__
    if nm == 'divide':
        nm = 'true_divide'
    if method == 'outer' and nm == 'multiply':
        return outer(*inputs)
    if method == 'reduce' and nm == 'add':
        return np_sum(inputs[0], kw.get('axis', 0))
    if method == 'reduce' and nm == 'multiply':
        return prod(inputs[0])
    if method == 'reduce' and nm == 'maximum':
        return amax(inputs[0], kw.get('axis', 0))
    if method == 'reduce' and nm == 'logical_and':
        return np_all(inputs[0])
    if method == 'reduce' and nm == 'logical_or':
        return np_any(inputs[0])
    if method == 'at' and nm == 'add':
        return add_at(*inputs)
    if method != '__call__':
        raise Unsupported('ufunc method %s.%s' % (nm, method))
    ops = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'true_divide': 'div', 'power': 'pow', 'less': 'lt',
           'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge', 'equal': 'eq', 'not_equal': 'ne',
           'bitwise_and': 'and', 'logical_and': 'and', 'bitwise_or': 'or', 'logical_or': 'or'}
    if nm in ops:
        a, b = inputs[:2]
        if is_scalar(a) and is_scalar(b) and not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
            r = S.sbin(ops[nm], a, b)
        else:
            r = abin(ops[nm], a, b)
        out = kw.get('out')
        if out:
            if isinstance(out[0], np.ndarray):
                raise Unsupported('symbolic value written into a concrete array')
            out[0].assign(r)
            return out[0]
        return r
    if nm in TABLE:
        out = kw.pop('out', None)
        r = TABLE[nm](*inputs)
        if out:
            if isinstance(out[0], np.ndarray):
                raise Unsupported('symbolic value written into a concrete array')
            out[0].assign(r)
            return out[0]
        return r
    raise Unsupported('ufunc %s' % nm)


def array_function(func, args, kwargs):
    nm = func.__name__
    if nm == 'norm' and func is np.linalg.norm:
        return norm(*args, **kwargs)
    if nm in TABLE and getattr(np, nm, None) is func:
        return TABLE[nm](*args, **kwargs)
    raise Unsupported('numpy.%s' % nm)


# ------------------------------------------------------------ builtins seen by regreg modules
def b_len(x):
    if isinstance(x, (SymArr, Masked)):
        return x.shape[0]
    return builtins.len(x)


def b_range(*a):
    if builtins.any(isinstance(x, SymReal) for x in a):
        if builtins.all(not isinstance(x, SymReal) or x.p.is_const() for x in a):
            return builtins.range(*[int(x) for x in a])
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2 and a[2] != 1:
            raise Unsupported('range with a step')
        return S.SymRange(lo, hi)
    return builtins.range(*a)


class b_float_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


def b_sum(it, start=0):
    if isinstance(it, (SymArr, Masked)):
        return np_sum(it, 0)
    r = start
    for x in it:
        r = r + x
    return r


def b_max(*a, **k):
    if len(a) == 1:
        if isinstance(a[0], (SymArr, Masked)):
            return amax(a[0])
        a = tuple(a[0])
    if not is_sym(a):
        return builtins.max(*a, **k) if len(a) > 1 else builtins.max(a, **k)
    r = a[0]
    for x in a[1:]:
        r = maximum(r, x)
    return r


def b_min(*a, **k):
    if len(a) == 1:
        if isinstance(a[0], (SymArr, Masked)):
            return amin(a[0])
        a = tuple(a[0])
    if not is_sym(a):
        return builtins.min(*a, **k) if len(a) > 1 else builtins.min(a, **k)
    r = a[0]
    for x in a[1:]:
        r = minimum(r, x)
    return r


BUILTINS = {'len': b_len, 'range': b_range, 'sum': b_sum, 'max': b_max, 'min': b_min}


class symbolic_mode(object):
    """patch the regreg modules for the duration of a symbolic run"""

    def __init__(self, stubs=None):
        self.stubs = stubs or {}

    def __enter__(self):
        import sys
        self.saved = []
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == 'regreg' or name.startswith('regreg.')) or '.tests' in name:
                continue
            d = getattr(mod, '__dict__', None)
            if d is None or not (getattr(mod, '__file__', '') or '').endswith('.py'):
                continue
            new = {}
            for k, v in list(d.items()):
                if v is np:
                    new[k] = NP
                elif v is np.linalg.norm:
                    new[k] = _NormDispatch()
                elif callable(v) and getattr(v, '__module__', None) in ('numpy', None, 'numpy.core') or isinstance(v, np.ufunc):
                    nm = getattr(v, '__name__', None)
                    if nm in TABLE and getattr(np, nm, None) is v:
                        new[k] = _Dispatch(nm, v)
                    elif v is getattr(np, 'all', None):
                        new[k] = _Dispatch('all', v)
                if (name, k) in self.stubs:
                    new[k] = self.stubs[(name, k)]
                elif k in EXTERNALS and EXTERNALS[k][0](v):
                    new[k] = EXTERNALS[k][1]
            for k, v in BUILTINS.items():
                if k not in d:
                    new[k] = v
            for (m, k), v in self.stubs.items():
                if m == name and k not in d:        # a built-in
                    new[k] = v
            for k, v in new.items():
                self.saved.append((d, k, d.get(k, _MISSING)))
                d[k] = v
        return self

    def __exit__(self, *a):
        for d, k, v in reversed(self.saved):
            if v is _MISSING:
                d.pop(k, None)
            else:
                d[k] = v
        return False


_MISSING = object()


class _Dbn(object):
    """scipy.stats.norm as uninterpreted functions with derivative rules"""

    _defs = {'cdf': lambda p: E.fn('norm_cdf', p), 'sf': lambda p: E.fn('norm_cdf', -p), 'pdf': lambda p: E.fn('norm_pdf', p),
             'logcdf': lambda p: E.log(E.fn('norm_cdf', p)), 'logsf': lambda p: E.log(E.fn('norm_cdf', -p)), 'logpdf': lambda p: E.log(E.fn('norm_pdf', p))}

    def __getattr__(self, nm):
        if nm in self._defs:
            from scipy.stats import norm as ndbn
            real = getattr(ndbn, nm)
            g = _un(self._defs[nm])

            def f(x, *a, **k):
                if is_sym(x):
                    return g(x)
                return real(x, *a, **k)
            return f
        raise AttributeError(nm)


def _is_norm(v):
    return type(v).__name__ == 'norm_gen'


EXTERNALS = {'normal_dbn': (_is_norm, _Dbn())}
