"""Symbolic runtime values: scalars, booleans and arrays of unbounded length.

The real functions of /repo are executed by the Python interpreter on these
values; every operation builds canonical expressions, every truth test on a
symbolic condition goes to the path explorer (engine.decide)."""
import numpy as np
from . import expr as E
from .expr import Poly, P, Unsupported

INF = float('inf')


class Engine(object):
    """current path state (one global instance, reset per path)"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.pc = []            # list of conditions
        self.foralls = []       # list of (dom list, fn(idx list)->cond)
        self.skolems = []       # index Polys introduced
        self.decider = None
        self.div_obligs = None  # list or None
        self.ghost = {}
        self.fresh_count = 0
        self.world = None


ENG = Engine()


def decide(cond):
    if cond == E.TRUE:
        return True
    if cond == E.FALSE:
        return False
    if ENG.decider is None:
        raise Unsupported('truth value of a symbolic condition outside a verification run')
    return ENG.decider(cond)


class SymBool(object):
    __slots__ = ('c', 'on_true', 'on_false')
    __array_ufunc__ = None

    def __init__(self, c, on_true=None, on_false=None):
        self.c = c
        self.on_true = on_true
        self.on_false = on_false

    def __bool__(self):
        r = decide(self.c)
        if r and self.on_true:
            self.on_true()
        if not r and self.on_false:
            self.on_false()
        return r

    def __and__(self, o):
        return SymBool(E.and_(self.c, cond_of(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(E.or_(self.c, cond_of(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(E.neg(self.c))

    # numpy bools multiply / add like logical and / or of 0-1 values
    def __mul__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return SymBool(E.and_(self.c, cond_of(o)))
        return SymReal(E.ite(self.c, E.ONE, E.ZERO)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return SymReal(E.ite(self.c, E.ONE, E.ZERO)) + o
    __radd__ = __add__

    def __repr__(self):
        return 'SymBool(%s)' % E.showc(self.c)


def cond_of(x):
    if isinstance(x, SymBool):
        return x.c
    if isinstance(x, (bool, np.bool_)):
        return E.TRUE if x else E.FALSE
    if isinstance(x, SymReal):
        return E.neg(E.cmp_('eq', x.p))
    if isinstance(x, (int, float)):
        return E.TRUE if x else E.FALSE
    if isinstance(x, tuple) and x and isinstance(x[0], str):
        return x
    raise Unsupported('not a condition: %r' % (x,))


def is_inf(x):
    return isinstance(x, (float, np.floating)) and (x == INF or x == -INF)


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_)) or isinstance(x, bool)


def scal(x):
    """coerce to SymReal if it is a scalar"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return SymReal(E.ite(x.c, E.ONE, E.ZERO))
    if isinstance(x, Poly):
        return SymReal(x)
    if is_num(x):
        return SymReal(E.Poly.const(x))
    if isinstance(x, np.ndarray) and x.shape == ():
        return scal(x.item())
    if isinstance(x, SymArr) and x.shape == ():
        return SymReal(x.at())
    raise Unsupported('not a scalar: %r' % (type(x),))


def is_scalar(x):
    return isinstance(x, (SymReal, SymBool, Poly)) or is_num(x) or (isinstance(x, (np.ndarray, SymArr)) and x.shape == ())


def div(a, b):
    """a / b on Polys with the definedness side condition recorded"""
    if b.is_const():
        if b.cval() == 0:
            raise Unsupported('division by zero constant')
    else:
        if ENG.div_obligs is not None and not E.known_pos(b) and not E.known_pos(-b):
            ENG.div_obligs.append((list(ENG.pc), list(ENG.foralls), b))
    # exact polynomial cancellation of a single known-nonzero factor happens
    # in mono reduction
    if a.is_zero():
        return a
    if a == b and (E.known_pos(b) or E.known_pos(-b)):
        return E.ONE
    return a * E.inv(b)


def _bin(opname):
    def f(self, o):
        if isinstance(o, (SymArr, Masked, list)) or (isinstance(o, np.ndarray) and o.shape != ()):
            return NotImplemented
        if o is None or isinstance(o, str):
            return NotImplemented
        return sbin(opname, self, o)

    def r(self, o):
        if isinstance(o, (SymArr, Masked, list)) or (isinstance(o, np.ndarray) and o.shape != ()):
            return NotImplemented
        if o is None or isinstance(o, str):
            return NotImplemented
        return sbin(opname, o, self)
    return f, r


def sbin(op, a, b):
    if is_inf(a) or is_inf(b):
        return inf_bin(op, a, b)
    if isinstance(a, (float, np.floating)) and a != a or isinstance(b, (float, np.floating)) and b != b:
        return float('nan')
    pa, pb = scal(a).p, scal(b).p
    if op == 'add':
        return SymReal(pa + pb)
    if op == 'sub':
        return SymReal(pa - pb)
    if op == 'mul':
        return SymReal(pa * pb)
    if op == 'div':
        return SymReal(div(pa, pb))
    if op == 'pow':
        if pb.is_const():
            c = pb.cval()
            if c.denominator == 1 and c >= 0:
                return SymReal(pa ** int(c))
            if c.denominator == 1 and c < 0:
                return SymReal(div(E.ONE, pa ** int(-c)))
            if c == E.Fraction(1, 2):
                return SymReal(E.sqrt(pa))
        raise Unsupported('symbolic power')
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        return SymBool(cmp_cond(op, pa, pb))
    raise Unsupported('scalar op ' + op)


def cmp_cond(op, pa, pb):
    if op == 'lt':
        return E.cmp_('gt', pb - pa)
    if op == 'le':
        return E.cmp_('ge', pb - pa)
    if op == 'gt':
        return E.cmp_('gt', pa - pb)
    if op == 'ge':
        return E.cmp_('ge', pa - pb)
    if op == 'eq':
        return E.cmp_('eq', pa - pb)
    if op == 'ne':
        return E.neg(E.cmp_('eq', pa - pb))


def inf_bin(op, a, b):
    fa = a if is_inf(a) else None
    fb = b if is_inf(b) else None
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        x = fa if fa is not None else 0.0
        y = fb if fb is not None else 0.0
        return bool(getattr(np, {'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal', 'eq': 'equal', 'ne': 'not_equal'}[op])(x, y))
    if op in ('add', 'sub') and (fa is None or fb is None):
        if fa is not None:
            return fa
        return fb if op == 'add' else -fb
    if op == 'div' and fb is not None and fa is None:
        return 0.
    if op == 'mul':
        other = b if fa is not None else a
        v = fa if fa is not None else fb
        if is_num(other):
            return v * other
        p = scal(other).p
        if decide(E.cmp_('gt', p)):
            return v
        if decide(E.cmp_('gt', -p)):
            return -v
        return float('nan')
    if op == 'div' and fa is not None and fb is None:
        p = scal(b).p
        if decide(E.cmp_('gt', p)):
            return fa
        return -fa
    raise Unsupported('arithmetic with inf: %s' % op)


class SymReal(object):
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    __add__, __radd__ = _bin('add')

    def __mod__(self, m):
        """an integer by a positive constant"""
        if isinstance(m, bool) or not isinstance(m, (int, np.integer)) or m <= 0:
            raise Unsupported('remainder')
        if not E.is_int(self.p):
            raise Unsupported('remainder of a value not known to be an integer')
        q, r = E.fresh_int('quotient'), E.fresh_int('remainder')
        ENG.path.add(E.cmp_('eq', q * int(m) + r - self.p))
        ENG.path.add(E.cmp_('ge', r))
        ENG.path.add(E.cmp_('ge', int(m) - 1 - r))
        return SymReal(r)
    __sub__, __rsub__ = _bin('sub')
    __mul__, __rmul__ = _bin('mul')
    __truediv__, __rtruediv__ = _bin('div')
    __pow__, __rpow__ = _bin('pow')
    __lt__, _ = _bin('lt')
    __le__, _ = _bin('le')
    __gt__, _ = _bin('gt')
    __ge__, _ = _bin('ge')

    def __eq__(self, o):
        if o is None or isinstance(o, (str, type)):
            return False
        if isinstance(o, SymArr):
            return NotImplemented
        try:
            return sbin('eq', self, o)
        except Unsupported:
            return False

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, SymBool):
            return ~r
        return not r

    def __hash__(self):
        return hash(self.p)

    def __neg__(self):
        return SymReal(-self.p)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(E.absv(self.p))

    def __bool__(self):
        return bool(SymBool(E.neg(E.cmp_('eq', self.p))))

    def __float__(self):
        if self.p.is_const():
            return float(self.p.cval())
        raise Unsupported('float() of a symbolic value')

    def __index__(self):
        if self.p.is_const() and self.p.cval().denominator == 1:
            return int(self.p.cval())
        raise Unsupported('symbolic value used as a Python integer')

    def __int__(self):
        return self.__index__()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def sum(self, *a, **k):
        return self

    def copy(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def T(self):
        return self

    def max(self):
        return self

    def min(self):
        return self

    def reshape(self, *s):
        if s in (((),), ()):
            return self
        raise Unsupported('reshape of scalar')

    def dot(self, o):
        return self * o

    def item(self):
        return self

    def astype(self, dt):
        return self

    def __repr__(self):
        return 'Sym<%s>' % E.show(self.p)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import shim
        return shim.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import shim
        return shim.array_function(func, args, kwargs)


def dimval(d):
    """what user code sees as a dimension: python int when constant"""
    if isinstance(d, Poly):
        if d.is_const():
            return int(d.cval())
        return SymReal(d)
    return d


def dpoly(d):
    if isinstance(d, SymReal):
        return d.p
    if isinstance(d, Poly):
        return d
    if isinstance(d, (int, np.integer)):
        return Poly.const(int(d))
    raise Unsupported('dimension %r' % (d,))


def same_dim(a, b):
    if a == b:
        return True
    if a.is_const() and b.is_const():
        return False
    r = E.oracle(E.cmp_('eq', a - b))
    return r is True


class Buf(object):
    """storage: fn(idx tuple of Poly) -> Poly (or condition when kind 'b')"""
    __slots__ = ('fn', 'shape', 'kind', 'version', 'owner', 'inf', 'sign')

    def __init__(self, fn, shape, kind):
        self.fn = fn
        self.shape = shape
        self.kind = kind
        self.version = 0
        self.owner = None
        self.inf = None     # where entries are infinite (see parts); the stored values there mean nothing
        self.sign = 1       # and of which sign


_uid = [0]


class NonzeroIdx(object):
    """the positions where a one-dimensional condition holds; usable only as an index"""

    def __init__(self, mask, increasing=True):
        self.mask = mask
        self.increasing = increasing    # else: in any order, perhaps repeated

    def __add__(self, o):
        """concatenation of lists"""
        if isinstance(o, list) and not o:
            return self
        if not isinstance(o, NonzeroIdx):
            return NotImplemented
        return NonzeroIdx(abin('or', self.mask, o.mask), False)
    __radd__ = __add__

    def __getattr__(self, nm):
        if nm in ('snapshot', '__array_ufunc__', '__array_function__'):
            raise AttributeError(nm)
        raise Unsupported('index array used other than as an index (%s)' % nm)


class SymRange(object):
    """range(lo, hi) with symbolic ends: usable as an index (a slice)"""

    def __init__(self, lo, hi):
        self.slice = slice(lo, hi)

    def __iter__(self):
        raise Unsupported('loop over a symbolic range')

    def __len__(self):
        raise Unsupported('length of a symbolic range')


def _unrange(key):
    """(key with ranges as slices, whether there was one)"""
    if isinstance(key, SymRange):
        return key.slice, True
    if isinstance(key, tuple) and any(isinstance(k, SymRange) for k in key):
        if any(not isinstance(k, (slice, SymRange)) for k in key):
            raise Unsupported('range mixed with other indices')
        return tuple(k.slice if isinstance(k, SymRange) else k for k in key), True
    return key, False


class SymArr(object):
    """n-d array view of a Buf.  view: per-buffer-axis ('s', viewaxis, start)
    or ('i', idx)"""
    __array_priority__ = 1000

    def __init__(self, buf, shape=None, view=None, dimlabels=None):
        self.buf = buf
        self._shape = buf.shape if shape is None else shape
        self.view = view

    # construction helpers
    @staticmethod
    def make(fn, shape, kind='f'):
        return SymArr(Buf(memo(fn), tuple(dpoly(d) for d in shape), kind))

    @staticmethod
    def const(c, shape, kind='f'):
        p = P(c)
        return SymArr.make(lambda idx: p, shape, kind)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def shape(self):
        return tuple(dimval(d) for d in self._shape)

    @shape.setter
    def shape(self, s):
        raise Unsupported('shape assignment')

    @property
    def dtype(self):
        return np.dtype({'f': float, 'i': int, 'b': bool}[self.kind])

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = E.ONE
        for d in self._shape:
            r = r * d
        return dimval(r)

    def bidx(self, idx):
        if self.view is None:
            return tuple(idx)
        out = []
        for v in self.view:
            if v[0] == 'i':
                out.append(v[1])
            elif v[0] == 's':
                out.append(idx[v[1]] + v[2])
            elif v[0] == 'r':
                out.append(v[2] - idx[v[1]])
        return tuple(out)

    def get(self, idx):
        if self.buf.inf is not None:
            raise Unsupported('infinite entries')
        return self.buf.fn(self.bidx(tuple(idx)))

    def at(self, *idx):
        return self.get(tuple(P(i) for i in idx))

    def snapshot(self):
        """value copy"""
        if self.buf.inf is not None:
            if self.view is not None:
                raise Unsupported('infinite entries')
            r = SymArr.make(self.buf.fn, self._shape, self.kind)
            r.buf.inf, r.buf.sign = self.buf.inf, self.buf.sign
            return r
        f, view, shp = self.buf.fn, self.view, self._shape
        return SymArr.make(lambda idx: f(self.bidx(idx)), shp, self.kind)

    def copy(self, order=None):
        return self.snapshot()
    __copy__ = copy

    def __deepcopy__(self, memo_):
        return self.snapshot()

    # --- writing
    def _write(self, newfn):
        """newfn(view idx tuple, old Poly)->Poly for every element of the view"""
        buf = self.buf
        if buf.inf is not None:
            raise Unsupported('infinite entries')
        old = buf.fn
        if self.view is None:
            buf.fn = memo(lambda idx: newfn(idx, old(idx)))
        else:
            view, shp = self.view, self._shape

            def g(bidx):
                conds = []
                idx = [None] * len(shp)
                for k, v in enumerate(view):
                    if v[0] == 'i':
                        conds.append(E.cmp_('eq', bidx[k] - v[1]))
                    else:
                        j = bidx[k] - v[2] if v[0] == 's' else v[2] - bidx[k]
                        idx[v[1]] = j
                        if not (v[2].is_zero() and v[0] == 's'):
                            conds.append(E.cmp_('ge', j))
                        if not (v[0] == 's' and v[2].is_zero() and shp[v[1]] == buf.shape[k]):
                            conds.append(E.cmp_('ge', shp[v[1]] - 1 - j))
                c = E.and_(*conds) if conds else E.TRUE
                o = old(bidx)
                if c == E.FALSE:
                    return o
                n = newfn(tuple(idx), o)
                if buf.kind == 'b':
                    return E.or_(E.and_(c, n), E.and_(E.neg(c), o))
                return E.ite(c, n, o)
            buf.fn = memo(g)
        buf.version += 1

    def assign(self, value):
        val = lift_to(value, self._shape, self.kind)
        self._write(lambda idx, old: val(idx))

    # --- indexing
    def __len__(self):
        d = self._shape[0]
        if d.is_const():
            return int(d.cval())
        raise Unsupported('len() of symbolic array')

    def __iter__(self):
        d = self._shape[0]
        if d.is_const():
            return iter([self[k] for k in range(int(d.cval()))])
        raise Unsupported('iteration over an array of symbolic length')

    def _basic(self, key):
        """basic indexing -> (shape, view) or None"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            j = [i for i, k in enumerate(key) if k is Ellipsis][0]
            fill = len(self._shape) - (len(key) - 1)
            key = key[:j] + (slice(None),) * fill + key[j + 1:]
        if any(k is None for k in key):
            return None
        key = key + (slice(None),) * (len(self._shape) - len(key))
        if len(key) > len(self._shape):
            raise IndexError('too many indices for array')
        shape, steps = [], []
        for ax, k in enumerate(key):
            n = self._shape[ax]
            if isinstance(k, slice):
                if k.step not in (None, 1, -1):
                    return None
                if k.step == -1:
                    if k.start is not None or k.stop is not None:
                        return None
                    steps.append(('r', len(shape), n - 1))
                    shape.append(n)
                    continue
                lo = norm_bound(k.start, n, E.ZERO)
                hi = norm_bound(k.stop, n, n)
                ln = hi - lo
                if not ln.is_const():
                    o = E.oracle(E.cmp_('ge', ln))
                    if o is False:
                        ln = E.ZERO
                    elif o is None:
                        if not decide(E.cmp_('ge', ln)):
                            ln = E.ZERO
                elif ln.cval() < 0:
                    ln = E.ZERO
                steps.append(('s', len(shape), lo))
                shape.append(ln)
            elif isinstance(k, (int, np.integer)) and not isinstance(k, bool):
                kk = Poly.const(int(k))
                steps.append(('i', n + kk if k < 0 else kk))
            elif isinstance(k, SymReal):
                steps.append(('i', k.p))
            else:
                return None
        # compose with the current view
        if self.view is None:
            view = steps
        else:
            view = []
            for v in self.view:
                if v[0] == 'i':
                    view.append(v)
                elif v[0] == 's':
                    s = steps[v[1]]
                    if s[0] == 'i':
                        view.append(('i', s[1] + v[2]))
                    elif s[0] == 's':
                        view.append(('s', s[1], s[2] + v[2]))
                    else:
                        view.append(('r', s[1], s[2] + v[2]))
                else:
                    s = steps[v[1]]
                    if s[0] == 'i':
                        view.append(('i', v[2] - s[1]))
                    elif s[0] == 's':
                        view.append(('r', s[1], v[2] - s[2]))
                    else:
                        view.append(('s', s[1], v[2] - s[2]))
        return tuple(shape), view

    def __getitem__(self, key):
        if isinstance(key, NonzeroIdx):
            if not key.increasing:
                raise Unsupported('positions in unknown order')
            key = key.mask
        key, fancy = _unrange(key)
        if fancy:
            return self[key].copy()
        if isinstance(key, tuple) and any(k is None for k in key):
            return self._newaxis(key)
        if key is None:
            return self._newaxis((None, Ellipsis))
        b = self._basic(key)
        if b is not None:
            shape, view = b
            r = SymArr(self.buf, shape, view)
            if shape == ():
                if self.buf.inf is not None:
                    at = r.bidx(())
                    c = self.buf.inf(at)
                    if c == E.TRUE:
                        return float('inf')
                    if c != E.FALSE:
                        raise Unsupported('infinite entries')
                    return SymReal(self.buf.fn(at))
                v = r.get(())
                return SymBool(v) if self.kind == 'b' else SymReal(v)
            return r
        if isinstance(key, SymArr) and key.kind == 'b':
            if getattr(key, 'enum', None) is not None:
                return self[key.enum]
            return Masked(self, key.snapshot())
        if isinstance(key, SymArr) and key.kind in 'if' and key.ndim == 1:
            src, kk = self.snapshot(), key.snapshot()
            return SymArr.make(lambda idx: src.get((kk.get((idx[0],)),) + idx[1:]), key._shape + self._shape[1:], self.kind)
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], SymArr) and key[1].kind == 'i' and isinstance(key[0], slice) and key[0] == slice(None):
            src, kk = self.snapshot(), key[1].snapshot()
            return SymArr.make(lambda idx: src.get((idx[0], kk.get((idx[1],)))), (self._shape[0],) + key[1]._shape, self.kind)
        raise Unsupported('indexing with %r' % (key,))

    def _newaxis(self, key):
        key = list(key)
        n_real = len([k for k in key if k is not None and k is not Ellipsis])
        if Ellipsis in [k for k in key if k is Ellipsis or False]:
            j = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:j] + [slice(None)] * (self.ndim - n_real) + key[j + 1:]
        else:
            key = key + [slice(None)] * (self.ndim - n_real)
        base = self[tuple(k for k in key if k is not None)]
        if is_scalar(base):
            raise Unsupported('newaxis with ints')
        src = base.snapshot()
        shape, keep = [], []
        ax = 0
        for k in key:
            if k is None:
                shape.append(E.ONE)
            elif isinstance(k, slice):
                keep.append(len(shape))
                shape.append(src._shape[ax])
                ax += 1
        return SymArr.make(lambda idx: src.get(tuple(idx[j] for j in keep)), shape, self.kind)

    def __setitem__(self, key, value):
        if isinstance(key, NonzeroIdx):
            if not key.increasing and not is_scalar(value):
                raise Unsupported('positions in unknown order')
            key = key.mask
        key, _ = _unrange(key)
        if isinstance(key, tuple) and len(key) == 0:
            key = Ellipsis
        if isinstance(key, SymArr) and key.kind == 'b':
            m = key.snapshot()
            if is_scalar(value) and is_inf(value) and value > 0 and self.view is None and self.buf.inf is None and m.ndim == self.ndim:
                fin = with_inf(self, m)
                self.buf.inf, self.buf.sign = fin.buf.inf, 1
                return
            val = lift_masked(value, m, self._shape, self.kind)
            if m.ndim < self.ndim:
                mr = m
                m = SymArr.make(lambda idx: mr.get(idx[:mr.ndim]), self._shape, 'b')
            if self.kind == 'b':
                self._write(lambda idx, old: E.or_(E.and_(m.get(idx), val(idx)), E.and_(E.neg(m.get(idx)), old)))
            else:
                self._write(lambda idx, old: E.ite(m.get(idx), val(idx), old))
            return
        b = None if (isinstance(key, SymArr)) else self._basic(key)
        if b is not None:
            SymArr(self.buf, b[0], b[1]).assign(value)
            return
        if isinstance(key, SymArr) and key.kind == 'i' and key.ndim == 1 and getattr(key, 'perm_inv', None) is not None and self.ndim == 1:
            pinv = key.perm_inv
            val = lift_to(value, key._shape, self.kind)
            self._write(lambda idx, old: val((pinv(idx[0]),)))
            return
        if isinstance(key, SymArr) and key.kind == 'i' and getattr(key, 'member', None) is not None and is_scalar(value) and self.ndim == 1:
            m = key.member
            val = cond_of(value) if self.kind == 'b' else scal(value).p
            if self.kind == 'b':
                self._write(lambda idx, old: E.or_(E.and_(m.get(idx), val), E.and_(E.neg(m.get(idx)), old)))
            else:
                self._write(lambda idx, old: E.ite(m.get(idx), val, old))
            return
        raise Unsupported('assignment with index %r' % (key,))

    # --- elementwise
    def _map(self, f, kind='f'):
        s = self.snapshot()
        return SymArr.make(lambda idx: f(s.get(idx)), self._shape, kind)

    def __neg__(self):
        pt = parts(self)
        if pt is not None:
            return with_inf(-pt[0], pt[1], -pt[2])
        return self._num()._map(lambda p: -p)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._num()._map(E.absv)

    def __invert__(self):
        if self.kind != 'b':
            raise Unsupported('~ on non-boolean array')
        return self._map(E.neg, 'b')

    def _num(self):
        if self.kind == 'b':
            return self._map(lambda c: E.ite(c, E.ONE, E.ZERO), 'i')
        return self

    def __array__(self, *a, **k):
        # a few conditions index a real array: each is decided (branching)
        if self.kind == 'b' and self.ndim == 1 and self._shape[0].is_const():
            return np.array([bool(c) for c in self], bool)
        raise Unsupported('symbolic array used as a real one')

    def __bool__(self):
        if self.shape == ():
            return bool(self[()])
        if all(d == 1 for d in self.shape):
            return bool(self[(0,) * self.ndim])
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __float__(self):
        if self.shape == ():
            return float(scal(self))
        raise TypeError('only size-1 arrays can be converted to Python scalars')

    # --- reductions and shape methods are in shim
    def sum(self, axis=None, dtype=None, keepdims=False):
        from . import shim
        return shim.np_sum(self, axis)

    def mean(self, axis=None):
        from . import shim
        return shim.mean(self, axis)

    def max(self, axis=None):
        from . import shim
        return shim.amax(self, axis)

    def min(self, axis=None):
        from . import shim
        return shim.amin(self, axis)

    def clip(self, min=None, max=None, out=None):
        from . import shim
        return shim.clip(self, min, max, out)

    def round(self, *a):
        raise Unsupported('rounding')

    def all(self, axis=None):
        from . import shim
        return shim.np_all(self)

    def any(self, axis=None):
        from . import shim
        return shim.np_any(self)

    def dot(self, o):
        from . import shim
        return shim.dot(self, o)

    def std(self, *a, **k):
        from . import shim
        return shim.std(self, *a, **k)

    def cumsum(self, axis=None):
        from . import shim
        return shim.cumsum(self, axis)

    @property
    def T(self):
        if self.ndim < 2:
            return self
        s = self
        n = self.ndim
        if self.ndim == 2:
            view = self.view or [('s', 0, E.ZERO), ('s', 1, E.ZERO)]
            nv = [(v[0], 1 - v[1], v[2]) if v[0] in 'sr' else v for v in view]
            return SymArr(self.buf, self._shape[::-1], nv)
        s = self.snapshot()
        return SymArr.make(lambda idx: s.get(idx[::-1]), self._shape[::-1], self.kind)

    def reshape(self, *shape, **kw):
        from . import shim
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return shim.reshape(self, shape)

    def flatten(self):
        from . import shim
        return shim.reshape(self.snapshot(), (-1,))
    ravel = flatten

    def astype(self, dt):
        r = self._num() if self.kind == 'b' and dt not in (bool, np.bool_) else self.snapshot()
        if r is self:
            r = self.snapshot()
        return r

    def squeeze(self):
        from . import shim
        return shim.squeeze(self)

    def argsort(self, *a, **k):
        from . import shim
        return shim.argsort(self)

    def __repr__(self):
        return 'SymArr(shape=%s)' % (self.shape,)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import shim
        return shim.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import shim
        return shim.array_function(func, args, kwargs)

    def __eq__(self, o):
        if o is None:
            return False
        return abin('eq', self, o)

    def __ne__(self, o):
        if o is None:
            return True
        return abin('ne', self, o)

    __hash__ = None


def memo(fn):
    cache = {}

    def g(idx):
        idx = tuple(idx)
        r = cache.get(idx)
        if r is None:
            r = cache[idx] = fn(idx)
        return r
    return g


def norm_bound(v, n, default):
    if v is None:
        return default
    if isinstance(v, (int, np.integer)):
        v = int(v)
        if v < 0:
            return n + v
        if v == 0:
            return E.ZERO
        return clipmin(Poly.const(v), n)
    if isinstance(v, SymReal):
        return clipmin(v.p, n)
    raise Unsupported('slice bound %r' % (v,))


def clipmin(v, n):
    if v == n:
        return v
    c = E.cmp_('ge', n - v)
    o = E.oracle(c)
    if o is True:
        return v
    if o is False:
        return n
    return v if decide(c) else n


def kind_of(x):
    if isinstance(x, SymArr):
        return x.kind
    if isinstance(x, np.ndarray):
        return {'f': 'f', 'i': 'i', 'b': 'b', 'u': 'i'}.get(x.dtype.kind, 'f')
    if isinstance(x, (SymBool, bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    return 'f'


def to_arr(x):
    if isinstance(x, SymArr):
        return x
    if isinstance(x, Masked):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object and x.ndim:
            data = x.copy()
            return SymArr.make(lambda idx: P(pick(data, idx)), x.shape)
        if x.size and x.ndim and (x == x.flat[0]).all():
            v = x.flat[0]
            if x.dtype == bool:
                c = E.TRUE if v else E.FALSE
                return SymArr.make(lambda idx: c, x.shape, 'b')
            if is_inf(float(v)):
                raise Unsupported('infinite array')
            return SymArr.const(v.item(), x.shape, kind_of(x))
        data = x.copy()
        if x.dtype == bool:
            return SymArr.make(lambda idx: E.or_(*[E.and_(*[E.cmp_('eq', i - int(k)) for i, k in zip(idx, kk)]) for kk in np.argwhere(data)]), x.shape, 'b')
        return SymArr.make(lambda idx: P(pick(data, idx)), x.shape, kind_of(x))
    if isinstance(x, (list, tuple)):
        from . import shim
        return shim.asarray(x)
    if is_scalar(x):
        if isinstance(x, SymBool):
            c = x.c
            return SymArr.make(lambda idx: c, (), 'b')
        if isinstance(x, (bool, np.bool_)):
            t = E.TRUE if x else E.FALSE
            return SymArr.make(lambda idx: t, (), 'b')
        return SymArr.const(scal(x).p, (), kind_of(x))
    raise Unsupported('array from %r' % (type(x),))


def pick(data, idx):
    """element of a concrete array at a possibly symbolic index"""
    if all(i.is_const() for i in idx):
        v = data[tuple(int(i.cval()) for i in idx)]
        return v if isinstance(v, (SymReal, Poly)) else (v.item() if hasattr(v, 'item') else v)
    r = None
    for kk in np.ndindex(*data.shape):
        v = P(data[kk])
        c = E.and_(*[E.cmp_('eq', i - int(k)) for i, k in zip(idx, kk)])
        r = v if r is None else E.ite(c, v, r)
    return r if r is not None else E.ZERO


def lift_to(value, shape, kind):
    """value broadcast to shape -> fn(idx)"""
    if isinstance(value, Masked):
        raise Unsupported('masked value assigned to a full array')
    a = to_arr(value).snapshot()
    if kind != 'b':
        a = a._num()
    elif a.kind != 'b':
        a = a._map(lambda p: E.neg(E.cmp_('eq', p)), 'b')
    off = len(shape) - a.ndim
    if off < 0:
        # allow leading ones
        if all(d == E.ONE for d in a._shape[:-off]):
            k = -off
            a0 = a
            a = SymArr.make(lambda idx: a0.get((E.ZERO,) * k + idx), a0._shape[k:], a0.kind)
            off = 0
        else:
            raise ValueError('could not broadcast')
    for d, s in zip(a._shape, shape[off:]):
        if not (d == E.ONE or same_dim(d, s)):
            if d.is_const() and s.is_const():
                raise ValueError('could not broadcast input array from shape')
            raise Unsupported('shapes not provably equal: %s vs %s' % (E.show(d), E.show(s)))
    return lambda idx: a.get(tuple(E.ZERO if d == E.ONE else i for d, i in zip(a._shape, idx[off:])))


def lift_masked(value, m, shape, kind):
    if isinstance(value, Masked):
        if value.mask_key() != mask_key(m):
            raise Unsupported('masked assignment with a different mask')
        src = value.src
        return lambda idx: src.get(idx)
    if is_scalar(value):
        if is_inf(value):
            raise Unsupported('inf stored in array')
        if kind == 'b':
            c = cond_of(value)
            return lambda idx: c
        p = scal(value).p
        return lambda idx: p
    a = to_arr(value)
    if isinstance(a, SymArr) and a.shape == ():
        p = a.at()
        return lambda idx: p
    raise Unsupported('masked assignment of an array with unknown layout')


def mask_key(m):
    idx = tuple(E.var('mk%d' % k, 'I') for k in range(m.ndim))
    return m.get(idx)


class Masked(object):
    """x[mask]: the sub-vector of x selected by a boolean mask (kept as the
    full vector plus the mask)"""
    __array_priority__ = 1001

    def __init__(self, src, mask):
        self.src = src.snapshot()
        self.mask = mask
        self.rows = mask if mask.ndim < src.ndim else None
        if self.src.buf.inf is not None and self.src.view is None and mask.ndim == self.src.ndim:
            idx = tuple(E.fresh_int('w') for _ in mask._shape)
            if never(E.and_(mask.get(idx), self.src.buf.inf(idx)), idx, mask._shape):
                self.src = SymArr.make(self.src.buf.fn, self.src._shape, self.src.kind)
        if mask.ndim != self.src.ndim:
            if mask.ndim < self.src.ndim:
                mm = mask
                self.mask = SymArr.make(lambda idx: mm.get(idx[:mm.ndim]), self.src._shape, 'b')
            else:
                raise IndexError('boolean index did not match')

    def mask_key(self):
        return mask_key(self.mask if self.rows is None else self.rows)

    def _with(self, src):
        return Masked(src, self.mask if self.rows is None else self.rows)

    @property
    def kind(self):
        return self.src.kind

    @property
    def ndim(self):
        return 1

    def count(self):
        from . import shim
        m = self.mask
        return shim.np_sum(m._num(), None)

    @property
    def shape(self):
        return (self.count(),)

    @property
    def size(self):
        return self.count()

    def _num(self):
        return self._with(self.src._num())

    def _map(self, f, kind='f'):
        return self._with(self.src._map(f, kind))

    def sum(self, axis=None):
        from . import shim
        m, s = self.mask, self.src._num()
        return shim.np_sum(SymArr.make(lambda idx: E.ite(m.get(idx), s.get(idx), E.ZERO), s._shape), None)

    def max(self):
        from . import shim
        return shim.masked_max(self)

    def mean(self):
        return self.sum() / self.count()

    def copy(self):
        return self._with(self.src)
    snapshot = copy

    def any(self):
        from . import shim
        return shim.np_any(self)

    def all(self):
        from . import shim
        return shim.np_all(self)

    def __neg__(self):
        return self._map(lambda p: -p)

    def __abs__(self):
        return self._map(E.absv)

    def __invert__(self):
        return self._map(E.neg, 'b')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import shim
        return shim.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import shim
        return shim.array_function(func, args, kwargs)

    def __eq__(self, o):
        return abin('eq', self, o)

    def __ne__(self, o):
        return abin('ne', self, o)
    __hash__ = None

    def dot(self, o):
        return (self * o).sum()

    def __getitem__(self, key):
        if isinstance(key, Masked) and key.kind == 'b' and key.mask_key() == self.mask_key():
            m, c = self.mask, key.src
            return Masked(self.src, SymArr.make(lambda idx: E.and_(m.get(idx), c.get(idx)), m._shape, 'b'))
        if isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None) and key[1] is None and self.mask.ndim == 1:
            # selected entries as a column
            src = self.src
            return Masked(SymArr.make(lambda idx: src.get(idx[:1]), (src._shape[0], E.ONE), src.kind), self.mask)
        raise Unsupported('index of a masked array')


def bshape(sa, sb):
    n = max(len(sa), len(sb))
    sa = (E.ONE,) * (n - len(sa)) + tuple(sa)
    sb = (E.ONE,) * (n - len(sb)) + tuple(sb)
    out = []
    for a, b in zip(sa, sb):
        if a == b:
            out.append(a)
        elif a == E.ONE:
            out.append(b)
        elif b == E.ONE:
            out.append(a)
        elif same_dim(a, b):
            out.append(a)
        elif a.is_const() and b.is_const():
            raise ValueError('operands could not be broadcast together')
        else:
            raise Unsupported('shapes not provably equal: %s vs %s' % (E.show(a), E.show(b)))
    return tuple(out)


def belem(a, shape):
    off = len(shape) - a.ndim
    return lambda idx: a.get(tuple(E.ZERO if d == E.ONE else i for d, i in zip(a._shape, idx[off:])))


def elementwise(f, kind, *args):
    """apply f(Polys...) with broadcasting over SymArr / Masked / scalars"""
    masked = [a for a in args if isinstance(a, Masked)]
    if masked:
        mk = masked[0].mask_key()
        for m in masked[1:]:
            if m.mask_key() != mk:
                raise Unsupported('operation on sub-vectors with different masks')
        srcs = []
        for a in args:
            if isinstance(a, Masked):
                srcs.append(a.src)
            elif is_scalar(a):
                srcs.append(a)
            else:
                raise Unsupported('mix of masked and full arrays')
        rows = [m.rows for m in masked if m.rows is not None]
        if rows and len(rows) < len(masked):
            raise Unsupported('selected rows together with selected entries')
        return Masked(elementwise(f, kind, *srcs), rows[0] if rows else masked[0].mask)
    arrs = [to_arr(a).snapshot() for a in args]
    shape = ()
    for a in arrs:
        shape = bshape(shape, a._shape)
    gets = [belem(a, shape) for a in arrs]
    if shape == ():
        v = f(*[g(()) for g in gets])
        return SymBool(v) if kind == 'b' else SymReal(v)
    return SymArr.make(lambda idx: f(*[g(idx) for g in gets]), shape, kind)


def num_arg(a):
    if isinstance(a, (SymArr, Masked)):
        return a._num()
    if isinstance(a, np.ndarray) and a.dtype == bool:
        return to_arr(a)._num()
    if isinstance(a, SymBool):
        return scal(a)
    return a


def _with_inf(x, y):
    """an array of numbers, some of them infinite, that meets a symbolic number"""
    if isinstance(x, np.ndarray) and x.ndim == 1 and x.dtype.kind == 'f' and isinstance(y, SymReal) and np.isposinf(x).any() and not np.isneginf(x).any() and not np.isnan(x).any():
        from . import shim
        big, rest = np.isposinf(x), np.where(np.isposinf(x), 0., x)
        r = to_arr(rest).snapshot()
        r.buf.inf = to_arr(big).get
        return r
    return x


def parts(x):
    """(array of the finite entries, where the others are, their sign) of an array
    with infinite entries; None for any other"""
    if not isinstance(x, SymArr) or x.buf.inf is None:
        return None
    if x.view is not None:
        raise Unsupported('infinite entries')
    return SymArr.make(x.buf.fn, x._shape, x.kind), SymArr.make(x.buf.inf, x._shape, 'b'), x.buf.sign


def never(c, idx, shape):
    """the condition holds at no position"""
    if c in (E.TRUE, E.FALSE):
        return c == E.FALSE
    return ENG.path is not None and ENG.path.entails(E.or_(*([E.neg(d) for d in in_dom(idx, shape)] + [E.neg(c)])))


def with_inf(fin, where, sign=1):
    """array with the given finite entries, infinite at `where`"""
    fin = to_arr(fin).snapshot()
    where = elementwise(lambda c, p: c, 'b', where, fin)
    if is_scalar(where):
        where = to_arr(where)
    idx = tuple(E.fresh_int('w') for _ in fin._shape)
    if not never(where.get(idx), idx, fin._shape):
        fin.buf.inf = where.get
        fin.buf.sign = sign
    return fin


def _positive_at(where, y):
    """y > 0 wherever `where` holds (an infinity times a number there is infinite)"""
    c = elementwise(lambda k, p: E.or_(E.neg(k), E.cmp_('gt', p)), 'b', where, num_arg(y))
    idx = tuple(E.fresh_int('w') for _ in c._shape)
    if not ENG.path.entails(E.or_(*([E.neg(d) for d in in_dom(idx, c._shape)] + [c.get(idx)]))):
        raise Unsupported('product of an infinite entry with a number not known positive')


def _inf_arith(op, a, b):
    pa, pb = parts(a), parts(b)
    if pa is not None and pb is not None or is_inf(a) or is_inf(b):
        raise Unsupported('infinite entries on both sides')
    if pa is not None:
        fin, where, sg = pa
        r = abin(op, fin, b)
        if op in ('mul', 'div'):
            _positive_at(where, b)
        return with_inf(r, where, sg)
    fin, where, sg = pb
    if op == 'div':
        # a / inf = 0; the finite entries are the only denominators
        one = elementwise(lambda k, p: E.ite(k, E.ONE, p), 'f', where, fin)
        q = abin('div', a, one)
        return elementwise(lambda k, p: E.ite(k, E.ZERO, p), 'f', where, q)
    if op == 'mul':
        _positive_at(where, a)
    return with_inf(abin(op, a, fin), where, -sg if op == 'sub' else sg)


def abin(op, a, b):
    if op in ('add', 'sub', 'mul', 'div') and not isinstance(a, Masked) and not isinstance(b, Masked) and (parts(a) is not None or parts(b) is not None):
        return _inf_arith(op, a, b)
    if op == 'div' and is_scalar(a) and not is_inf(a) and isinstance(b, Masked) and b.src.buf.inf is not None and b.src.view is None:
        # a / inf = 0
        src, where, m = b.src, b.src.buf.inf, b.mask
        fin = Masked(SymArr.make(src.buf.fn, src._shape, src.kind), SymArr.make(lambda idx: E.and_(m.get(idx), E.neg(where(idx))), src._shape, 'b'))
        q = abin('div', a, fin).src
        return Masked(SymArr.make(lambda idx: E.ite(where(idx), E.ZERO, q.get(idx)), src._shape), m)
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        a, b = _with_inf(a, b), _with_inf(b, a)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymArr) and x.buf.inf is not None:
            if op not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') or not is_scalar(y) or is_inf(y):
                raise Unsupported('infinite entries')
            if x.buf.sign < 0:
                raise Unsupported('infinite entries')
            where, f = x.buf.inf, x.buf.fn
            rest = abin(op, *[SymArr.make(f, x._shape, x.kind) if z is x else z for z in (a, b)])
            big = op == 'ne' or op != 'eq' and (op in ('gt', 'ge')) == (x is a)
            c = E.TRUE if big else E.FALSE
            return SymArr.make(lambda idx: E.or_(E.and_(where(idx), c), E.and_(E.neg(where(idx)), rest.get(idx))), x._shape, 'b')
    for x in (a, b):
        if is_inf(x) or (isinstance(x, np.ndarray) and x.dtype.kind == 'f' and not np.isfinite(x).all()):
            if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and is_inf(x):
                other = b if x is a else a
                val = inf_bin(op, a if x is a else 0.0, b if x is b else 0.0)
                oa = to_arr(other)
                c = E.TRUE if val else E.FALSE
                return elementwise(lambda p: c, 'b', oa)
            raise Unsupported('array arithmetic with inf')
    if op in ('mul', 'and', 'or', 'add') and kind_of2(a) == 'b' and kind_of2(b) == 'b':
        g = E.and_ if op in ('mul', 'and') else E.or_
        return elementwise(lambda x, y: g(x, y), 'b', a, b)
    if op in ('and', 'or'):
        raise Unsupported('bitwise op on numbers')
    a, b = num_arg(a), num_arg(b)
    kind = 'i' if kind_of2(a) == 'i' and kind_of2(b) == 'i' and op != 'div' else 'f'
    if op == 'add':
        return elementwise(lambda x, y: x + y, kind, a, b)
    if op == 'sub':
        return elementwise(lambda x, y: x - y, kind, a, b)
    if op == 'mul':
        return elementwise(lambda x, y: x * y, kind, a, b)
    if op == 'div':
        return elementwise(adiv(a, b), 'f', a, b)
    if op == 'pow':
        if is_scalar(b):
            return elementwise(lambda x, y: sbin('pow', SymReal(x), SymReal(y)).p, kind, a, b)
        raise Unsupported('array power')
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        return elementwise(lambda x, y: cmp_cond(op, x, y), 'b', a, b)
    raise Unsupported('array op ' + op)


def adiv(a, b):
    def f(x, y):
        if y.is_const() and y.cval() == 0:
            return E.fn('undef', E.ZERO)
        if x.is_zero():
            return x
        return x * E.inv(y)
    # definedness: denominators nonzero on the whole domain (recorded lazily)
    if ENG.div_obligs is not None:
        bb = b
        if isinstance(bb, (SymArr,)) :
            idx = tuple(E.fresh_int('d') for _ in bb._shape)
            den = bb.get(idx)
            if not E.known_pos(den) and not E.known_pos(-den) and not (den.is_const() and den.cval() != 0):
                ENG.div_obligs.append((list(ENG.pc) + in_dom(idx, bb._shape), list(ENG.foralls), den))
        elif isinstance(bb, Masked):
            idx = tuple(E.fresh_int('d') for _ in bb.src._shape)
            den = bb.src.get(idx)
            if not E.known_pos(den) and not E.known_pos(-den) and not (den.is_const() and den.cval() != 0):
                ENG.div_obligs.append((list(ENG.pc) + in_dom(idx, bb.src._shape) + [bb.mask.get(idx)], list(ENG.foralls), den))
        elif is_scalar(bb):
            den = scal(bb).p
            if not E.known_pos(den) and not E.known_pos(-den) and not (den.is_const() and den.cval() != 0):
                ENG.div_obligs.append((list(ENG.pc), list(ENG.foralls), den))
    return f


def in_dom(idx, shape):
    out = []
    for i, d in zip(idx, shape):
        out += [E.cmp_('ge', P(i)), E.cmp_('ge', P(d) - 1 - P(i))]
    return out


def kind_of2(x):
    if isinstance(x, (SymArr, Masked)):
        return x.kind
    return kind_of(x)


def _abin(op):
    def f(self, o):
        if o is None:
            return NotImplemented
        return abin(op, self, o)

    def r(self, o):
        if o is None:
            return NotImplemented
        return abin(op, o, self)
    return f, r


def _iop(op):
    def f(self, o):
        r = abin(op, self, o)
        self.assign(r)
        return self
    return f


for _cls in (SymArr, Masked):
    for _n, _op in [('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div'), ('pow', 'pow'), ('and', 'and'), ('or', 'or')]:
        f, r = _abin(_op)
        setattr(_cls, '__%s__' % _n, f)
        setattr(_cls, '__r%s__' % _n, r)
    for _n in ('lt', 'le', 'gt', 'ge'):
        f, r = _abin(_n)
        setattr(_cls, '__%s__' % _n, f)
for _n, _op in [('iadd', 'add'), ('isub', 'sub'), ('imul', 'mul'), ('itruediv', 'div'), ('ipow', 'pow'), ('iand', 'and'), ('ior', 'or')]:
    setattr(SymArr, '__%s__' % _n, _iop(_op))
