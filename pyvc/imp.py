"""A second verifier, for the loop kernels: the extracted text (strip.py) runs on
z3 terms, every path is explored, loops are cut by invariant.

Loop invariants are found by role, not by variable name: the contract lists the
candidate descriptions of a loop-carried value (as terms over the ghost iteration
count); a variable keeps the candidates it satisfies on entry and that every
iteration preserves (the rest are dropped and the exploration starts again); a
variable with none left is arbitrary at the loop head.

Obligations: bounds of every element access, divisors that are not 0, C casts,
loop invariants, frame (inputs that are not declared as output are not written),
lemmas and postconditions."""
import ast
import sys
import time

from . import engine as _G
from . import strip
from .expr import Unsupported

z3 = _G.z3


class Res(object):
    def __init__(self, ok, how, detail=''):
        self.ok, self.how, self.detail = ok, how, detail


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class Infeasible(Exception):
    pass


class Raised(Exception):
    """the code raises on this path"""


CUR = None


def eng():
    return CUR


def R(x):
    """z3 real term"""
    if isinstance(x, ZV):
        x = x.t
    if isinstance(x, ZB):
        x = z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('infinite value in arithmetic')
        from fractions import Fraction
        return z3.RealVal(Fraction(repr(x)))
    if isinstance(x, z3.ArithRef):
        return x if x.is_real() else z3.ToReal(x)
    if type(x).__module__ == 'numpy':
        return R(x.item())
    raise Unsupported('not a number: %r' % (type(x),))


def I(x):
    """z3 integer term"""
    if isinstance(x, ZV):
        x = x.t
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef) and x.is_int():
        return z3.simplify(x)
    if type(x).__module__ == 'numpy':
        return I(x.item())
    raise Unsupported('not an integer: %r' % (x,))


def is_inf(x):
    return isinstance(x, float) and x in (float('inf'), float('-inf'))


def num(x):
    return isinstance(x, (ZV, ZB, int, float, bool)) or type(x).__module__ == 'numpy' and not hasattr(x, 'fill')


def both(a, b):
    """common sort"""
    if isinstance(a, ZB):
        a = ZV(z3.If(a.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(b, ZB):
        b = ZV(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)))
    ai = isinstance(a, (int, bool)) or isinstance(a, ZV) and a.t.is_int()
    bi = isinstance(b, (int, bool)) or isinstance(b, ZV) and b.t.is_int()
    if ai and bi:
        return I(a), I(b)
    return R(a), R(b)


class ZB(object):
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CUR.decide(self.t)

    def __invert__(self):
        return ZB(z3.Not(self.t))

    def __and__(self, o):
        return ZB(z3.And(self.t, B(o)))
    __rand__ = __and__

    def __or__(self, o):
        return ZB(z3.Or(self.t, B(o)))
    __ror__ = __or__

    def __add__(self, o):
        return ZV(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) + o
    __radd__ = __add__

    def __mul__(self, o):
        return ZV(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) * o
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (int, ZV)):
            return ZV(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) == o
        raise Unsupported('== on a truth value')

    def __rsub__(self, o):
        return o - ZV(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))
    __hash__ = None


def B(x):
    if isinstance(x, ZB):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, ZV):
        return x.t != 0
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported('not a truth value: %r' % (x,))


class ZV(object):
    """scalar"""
    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        if isinstance(o, Arr):
            return NotImplemented
        if is_inf(o):
            raise Unsupported('infinite value in arithmetic')
        if not num(o):
            raise Unsupported('operand %r' % (type(o),))
        a, b = both(self, o)
        return ZV(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __pow__(self, k):
        if k == 2 and not isinstance(k, ZV):
            return self * self
        raise Unsupported('power')

    def __neg__(self):
        return ZV(-self.t)

    def __abs__(self):
        return ZV(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, f, inf=None):
        if isinstance(o, Arr):
            return NotImplemented
        if is_inf(o):
            return bool(inf(o))
        a, b = both(self, o)
        return ZB(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda o: o > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda o: o > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda o: o < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda o: o < 0)

    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, lambda a, b: a == b, lambda o: False)

    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, lambda a, b: a != b, lambda o: True)

    def __bool__(self):
        return CUR.decide(self.t != 0)

    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported('symbolic integer where a concrete one is needed')
    __hash__ = None


def div(a, b):
    if is_inf(a) or is_inf(b):
        raise Unsupported('infinite value in arithmetic')
    x, y = R(a), R(b)
    CUR.require('divisor is not 0', y != 0)
    return ZV(x / y)


class Cell(object):
    def __init__(self, fn, own=None):
        self.fn, self.own = fn, own


class Arr(object):
    """array with a (possibly symbolic) length, entries by a function of the index"""

    def __init__(self, n, fn, sort='R', off=None, step=1, cell=None, base=None, via=None):
        self.n, self.sort = n if not isinstance(n, int) else z3.IntVal(n), sort
        self.cell = cell or Cell(fn)
        self.off, self.step = off if off is not None else z3.IntVal(0), step
        self.via, self.base = via, base     # via: selection this array was read through, base: over the original index

    def _map(self, k):
        return z3.simplify(self.off + self.step * k)

    def get(self, k):
        return self.cell.fn(self._map(k))

    def snap(self):
        fn, m = self.cell.fn, self._map
        a = Arr(self.n, lambda k: fn(m(k)), self.sort, via=self.via, base=self.base)
        return a

    @property
    def shape(self):
        return (ZV(self.n),)
    ndim = 1

    def __len__(self):
        raise Unsupported('len of a symbolic array')

    @property
    def size(self):
        return ZV(self.n)

    def copy(self):
        return self.snap()

    def _scalar_index(self, k):
        t = I(k)
        if z3.is_int_value(t) and t.as_long() < 0:
            CUR.require('index in bounds', self.n + t >= 0)
            return z3.simplify(self.n + t)
        if CUR.quiet(t >= 0):
            CUR.require('index in bounds', t < self.n)
            return t
        CUR.require('index in bounds', z3.And(t < self.n, t >= -self.n))
        return z3.If(t < 0, t + self.n, t)

    def _slice(self, s):
        if s.step not in (None, 1):
            if s.step == -1 and s.start is None and s.stop is None:
                return Arr(self.n, None, self.sort, off=z3.simplify(self.off + self.step * (self.n - 1)), step=-self.step, cell=self.cell)
            raise Unsupported('slice step')

        def lim(x, d):
            if x is None:
                return d
            t = I(x)
            if z3.is_int_value(t) and t.as_long() < 0:
                t = self.n + t
                return z3.If(t < 0, z3.IntVal(0), t) if not CUR.quiet(t >= 0) else z3.simplify(t)
            if CUR.quiet(t >= 0):
                return t if CUR.quiet(t <= self.n) else z3.If(t < self.n, t, self.n)
            raise Unsupported('slice bound of unknown sign')
        a, b = lim(s.start, z3.IntVal(0)), lim(s.stop, self.n)
        n = z3.simplify(b - a)
        if not CUR.quiet(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        return Arr(n, None, self.sort, off=z3.simplify(self.off + self.step * a), step=self.step, cell=self.cell)

    def wrap(self, t):
        return ZB(t) if self.sort == 'B' else ZV(t)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        if isinstance(k, Idx):
            me = self.snap()
            return Arr(k.n, lambda r: me.get(k.at(r)), self.sort)
        if isinstance(k, Arr) and k.sort == 'B':
            CUR.require('mask has the length of the array', k.n == self.n)
            sel = CUR.selection(k.snap())
            me = self.snap()
            if self.via is not None:
                raise Unsupported('selection of a selection')
            return Arr(sel.n, lambda r: me.get(sel.at(r)), self.sort, via=sel, base=me.get)
        if isinstance(k, Arr) and k.sort == 'I':
            me, kk = self.snap(), k.snap()
            if k.order is not None and CUR.same(k.order.src, me):
                return k.order.sorted()
            r = z3.Int(CUR.name('ix'))
            CUR.require('index in bounds', z3.Implies(z3.And(0 <= r, r < kk.n), z3.And(kk.get(r) >= 0, kk.get(r) < me.n)))
            return Arr(kk.n, lambda r: me.get(kk.get(r)), self.sort)
        if isinstance(k, (tuple, type(Ellipsis))):
            raise Unsupported('index %r' % (k,))
        t = self._scalar_index(k)
        return self.wrap(self.get(t))
    order = None

    def _own(self):
        CUR.require('only output arrays are written', z3.BoolVal(self.cell.own is None or self.cell.own == 'out'))

    def __setitem__(self, k, v):
        self._own()
        old = self.cell.fn
        val = (lambda x: R(x)) if self.sort == 'R' else (lambda x: I(x)) if self.sort == 'I' else (lambda x: B(x))
        if isinstance(k, slice):
            tgt = self._slice(k)
            inv = lambda i: z3.simplify((i - tgt.off) if tgt.step == 1 else (tgt.off - i))
            inside = lambda i: z3.And(inv(i) >= 0, inv(i) < tgt.n)
            if isinstance(v, Arr):
                CUR.require('shapes agree', v.n == tgt.n)
                vv = v.snap()
                self.cell.fn = lambda i: z3.If(inside(i), val(vv.wrap(vv.get(inv(i)))), old(i))
            else:
                x = val(v)
                self.cell.fn = lambda i: z3.If(inside(i), x, old(i))
            return
        if isinstance(k, Idx):
            if self.step != 1 or not z3.is_int_value(self.off) or self.off.as_long() != 0:
                raise Unsupported('fancy store into a view')
            if isinstance(v, Arr):
                CUR.require('shapes agree', v.n == k.n)
                vv = v.snap()
                self.cell.fn = lambda i: z3.If(k.member(i), val(vv.wrap(vv.get(k.pos(i)))), old(i))
            else:
                x = val(v)
                self.cell.fn = lambda i: z3.If(k.member(i), x, old(i))
            return
        if isinstance(k, Arr) and k.sort == 'B':
            CUR.require('mask has the length of the array', k.n == self.n)
            kk = k.snap()
            m = lambda i: z3.simplify((i - self.off) if self.step == 1 else (self.off - i))
            if isinstance(v, Arr):
                if v.via is None or not CUR.same(v.via.mask, kk):
                    raise Unsupported('masked store')
                vv = v.base
                self.cell.fn = lambda i: z3.If(kk.get(m(i)), val(v.wrap(vv(m(i)))), old(i))
            else:
                x = val(v)
                self.cell.fn = lambda i: z3.If(kk.get(m(i)), x, old(i))
            return
        t = self._map(self._scalar_index(k))
        x = val(v)
        self.cell.fn = lambda i: z3.If(i == t, x, old(i))

    # elementwise
    def _ew(self, o, f, sort='R'):
        me = self.snap()
        if isinstance(o, Arr):
            if self.via is not None and o.via is not None and CUR.same(self.via.mask, o.via.mask):
                a, b = self, o
                sel = self.via
                ab, bb = a.base, b.base
                return Arr(sel.n, lambda r: f(a.wrap(ab(sel.at(r))), b.wrap(bb(sel.at(r)))), sort, via=sel, base=lambda i: f(a.wrap(ab(i)), b.wrap(bb(i))))
            CUR.require('shapes agree', self.n == o.n)
            oo = o.snap()
            return Arr(self.n, lambda k: f(me.wrap(me.get(k)), oo.wrap(oo.get(k))), sort)
        if not num(o) and not is_inf(o):
            raise Unsupported('operand %r' % (type(o),))
        base = None
        if self.via is not None:
            b0 = self.base
            base = lambda i: f(me.wrap(b0(i)), o)
        return Arr(self.n, lambda k: f(me.wrap(me.get(k)), o), sort, via=self.via, base=base)

    def map(self, f, sort='R'):
        me = self.snap()
        base = None
        if self.via is not None:
            b0 = self.base
            base = lambda i: f(me.wrap(b0(i)))
        return Arr(self.n, lambda k: f(me.wrap(me.get(k))), sort, via=self.via, base=base)

    def __add__(self, o):
        return self._ew(o, lambda a, b: R(a + b))

    def __radd__(self, o):
        return self._ew(o, lambda a, b: R(b + a))

    def __sub__(self, o):
        return self._ew(o, lambda a, b: R(a - b))

    def __rsub__(self, o):
        return self._ew(o, lambda a, b: R(b - a))

    def __mul__(self, o):
        return self._ew(o, lambda a, b: R(a) * R(b))

    def __rmul__(self, o):
        return self._ew(o, lambda a, b: R(b) * R(a))

    def __truediv__(self, o):
        k = z3.Int(CUR.name('dv'))
        den = o.get(k) if isinstance(o, Arr) else None
        if den is not None:
            dom = z3.And(0 <= k, k < o.n)
            CUR.require('divisor is not 0', z3.Implies(dom, R(o.wrap(den)) != 0))
        else:
            CUR.require('divisor is not 0', R(o) != 0)
        return self._ew(o, lambda a, b: R(a) / R(b))

    def __rtruediv__(self, o):
        return Arr(self.n, lambda k: R(o), 'R') / self

    def __neg__(self):
        return self.map(lambda a: R(-a))

    def __pow__(self, k):
        if k == 2:
            return self.map(lambda a: R(a) * R(a))
        raise Unsupported('power')

    def _c(self, o, f):
        def g(a, b):
            r = f(a, b)
            return B(r)
        return self._ew(o, g, 'B')

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    def __and__(self, o):
        return self._ew(o, lambda a, b: z3.And(B(a), B(b)), 'B')

    def __invert__(self):
        return self.map(lambda a: z3.Not(B(a)), 'B')
    __hash__ = None

    def __iadd__(self, o):
        self[:] = self + o
        return self

    def __isub__(self, o):
        self[:] = self - o
        return self

    def __imul__(self, o):
        self[:] = self * o
        return self

    def __itruediv__(self, o):
        self[:] = self / o
        return self

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def sum(self, axis=None):
        return ZV(CUR.total(self))

    def max(self, axis=None):
        return CUR.extreme(self, 1)

    def min(self, axis=None):
        return CUR.extreme(self, -1)

    def fill(self, v):
        self[:] = v

    def __iter__(self):
        raise Unsupported('iteration over a symbolic array')


class Idx(Arr):
    """array of distinct indices into [0, p)"""

    def __init__(self, name, p, own='in'):
        self.nm, self.p = name, p
        n = z3.Int('n_' + name)
        f = z3.Function('at_' + name, z3.IntSort(), z3.IntSort())
        self._mem = z3.Function('in_' + name, z3.IntSort(), z3.BoolSort())
        self._pos = z3.Function('pos_' + name, z3.IntSort(), z3.IntSort())
        self._f = f
        Arr.__init__(self, n, None, 'I', cell=Cell(self.at, own))
        CUR.fact(n >= 0)
        CUR.fact(n <= p)

    def at(self, k):
        t = self._f(k)
        dom = z3.And(0 <= k, k < self.n)
        CUR.fact(z3.Implies(dom, z3.And(0 <= t, t < self.p, self._mem(t), self._pos(t) == k)))
        return t

    def member(self, i):
        self.pos(i)
        return self._mem(i)

    def pos(self, i):
        t = self._pos(i)
        CUR.fact(z3.Implies(self._mem(i), z3.And(0 <= t, t < self.n, self._f(t) == i, 0 <= i, i < self.p)))
        return t


class Selection(object):
    """the indices where a mask is true, in order"""

    def __init__(self, e, mask, key):
        self.mask, self.key = mask, key
        u = e.name('sel')
        self.n = z3.Int('n_' + u)
        self._at = z3.Function('at_' + u, z3.IntSort(), z3.IntSort())
        self._pos = z3.Function('pos_' + u, z3.IntSort(), z3.IntSort())
        e.fact(self.n >= 0)
        e.fact(self.n <= mask.n)

    def at(self, r):
        t = self._at(r)
        CUR.fact(z3.Implies(z3.And(0 <= r, r < self.n), z3.And(0 <= t, t < self.mask.n, self.mask.get(t), self._pos(t) == r)))
        return t

    def pos(self, i):
        t = self._pos(i)
        CUR.fact(z3.Implies(z3.And(0 <= i, i < self.mask.n, self.mask.get(i)), z3.And(0 <= t, t < self.n, self._at(t) == i)))
        return t


class Order(object):
    """np.argsort: a permutation of [0, n) along which src is nondecreasing"""

    def __init__(self, e, src):
        self.src = src
        u = e.name('ord')
        self.n = src.n
        self._at = z3.Function('at_' + u, z3.IntSort(), z3.IntSort())
        self.u = u
        self.ranks = []

    def at(self, r):
        t = self._at(r)
        CUR.fact(z3.Implies(z3.And(0 <= r, r < self.n), z3.And(0 <= t, t < self.n)))
        return t

    def K(self, r):
        """the r-th smallest entry"""
        r = z3.simplify(r)
        v = self.src.get(self.at(r))
        if not any(z3.eq(r, s) for s in self.ranks):
            for s in self.ranks:
                vs = self.src.get(self.at(s))
                CUR.fact(z3.Implies(z3.And(0 <= r, r <= s, s < self.n), v <= vs))
                CUR.fact(z3.Implies(z3.And(0 <= s, s <= r, r < self.n), vs <= v))
            self.ranks.append(r)
        return v

    def array(self):
        def at(r):
            self.K(r)
            return self.at(r)
        a = Arr(self.n, at, 'I')
        a.order = self
        return a

    def sorted(self):
        return Arr(self.n, self.K, 'R')


class Np(object):
    """the numpy functions the kernels use"""
    inf = float('inf')
    int = int
    float = float
    bool = bool

    @staticmethod
    def fabs(x):
        return x.map(lambda a: R(abs(a))) if isinstance(x, Arr) else ZV(R(abs(x) if not isinstance(x, ZV) else abs(x)))
    abs = absolute = fabs

    @staticmethod
    def sign(x):
        f = lambda a: z3.If(R(a) > 0, z3.RealVal(1), z3.If(R(a) < 0, z3.RealVal(-1), z3.RealVal(0)))
        return x.map(f) if isinstance(x, Arr) else ZV(f(x))

    @staticmethod
    def _mm(a, b, mx):
        f = lambda x, y: z3.If(R(x) >= R(y), R(x), R(y)) if mx else z3.If(R(x) <= R(y), R(x), R(y))
        if isinstance(a, Arr):
            return a._ew(b, f)
        if isinstance(b, Arr):
            return b._ew(a, lambda x, y: f(y, x))
        return ZV(f(a, b))

    @staticmethod
    def maximum(a, b):
        return Np._mm(a, b, True)

    @staticmethod
    def minimum(a, b):
        return Np._mm(a, b, False)

    @staticmethod
    def clip(x, lo, hi):
        return Np.minimum(Np.maximum(x, lo), hi)

    @staticmethod
    def sqrt(x):
        if isinstance(x, Arr):
            return x.map(lambda a: CUR.sqrt(R(a)))
        return ZV(CUR.sqrt(R(x)))

    @staticmethod
    def sort(x):
        return CUR.sort(x).sorted()

    @staticmethod
    def argsort(x, *a, **k):
        if a or (set(k) - {'kind'}):
            raise Unsupported('argsort arguments')
        return CUR.sort(x).array()

    @staticmethod
    def zeros_like(x, *a):
        return Arr(x.n, lambda k: z3.RealVal(0))

    @staticmethod
    def ones_like(x, *a):
        return Arr(x.n, lambda k: z3.RealVal(1))

    @staticmethod
    def _n(s):
        if isinstance(s, tuple) and len(s) == 1:
            s = s[0]
        return I(s)

    @staticmethod
    def zeros(s, *a):
        return Arr(Np._n(s), lambda k: z3.RealVal(0))

    @staticmethod
    def ones(s, *a):
        return Arr(Np._n(s), lambda k: z3.RealVal(1))

    @staticmethod
    def empty(s, *a):
        f = z3.Function(CUR.name('empty'), z3.IntSort(), z3.RealSort())
        return Arr(Np._n(s), lambda k: f(k))

    @staticmethod
    def empty_like(x, *a):
        return Np.empty((ZV(x.n),))

    @staticmethod
    def asarray(x, *a):
        return x
    ascontiguousarray = asarray

    @staticmethod
    def array(x, *a):
        return x.copy()

    @staticmethod
    def copy(x):
        return x.copy()

    @staticmethod
    def sum(x):
        return x.sum()

    @staticmethod
    def exp(x):
        return ZV(CUR.fun1('exp', R(x)))

    @staticmethod
    def log(x):
        return ZV(CUR.fun1('log', R(x)))

    @staticmethod
    def hstack(xs):
        return CUR.concat(list(xs))
    concatenate = hstack


class Loop(object):
    """description of the loops of one kernel; all methods get the engine, the number of the loop, the values of the
    variables on entry, and the iteration count"""

    def scalars(self, e, k, env, it):
        """candidate values: [(label, term)]"""
        return []

    def arrays(self, e, k, env, it):
        """candidate contents: [(label, function of the index)]"""
        return []

    def facts(self, e, k, env, it):
        """candidate facts: [(label, truth)]"""
        return []

    def unfold(self, e, k, env, it):
        """ghost definitions to unfold from iteration it to it+1"""


class Engine(object):
    def __init__(self, source, funcs, timeout=8., deadline=None, names=None):
        self.source, self.timeout = source, timeout
        self.deadline = deadline or time.time() + 200
        self.removed = set()
        self.loopspec = None
        self.stats = {'z3_calls': 0, 'z3_time': 0.}
        self.log = None
        self.names = names or {}
        self.final = False

    # -- names, facts
    def name(self, h):
        self.count[h] = self.count.get(h, 0) + 1
        return '%s!%d' % (h, self.count[h])

    def fact(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        k = t.get_id()
        if k not in self.fset:
            self.fset[k] = t
            self.facts.append(t)

    def real(self, nm):
        return ZV(z3.Real(nm))

    def int(self, nm, lo=None):
        v = ZV(z3.Int(nm))
        if lo is not None:
            self.fact(v.t >= lo)
        return v

    def array(self, nm, n, own='in', lo=None, sort='R', hi=None):
        f = z3.Function(nm, z3.IntSort(), {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}[sort])
        nn = I(n)

        def get(k):
            dom = z3.And(0 <= k, k < nn)
            if lo is not None:
                self.fact(z3.Implies(dom, f(k) >= lo))
            if hi is not None:
                self.fact(z3.Implies(dom, f(k) < hi))
            return f(k)
        return Arr(nn, None, sort, cell=Cell(get, own))

    def key(self, fn, n):
        i = z3.Int('probe!')
        return z3.simplify(fn(i)).sexpr() + ' @ ' + z3.simplify(n).sexpr()

    def same(self, a, b):
        if not z3.eq(z3.simplify(a.n), z3.simplify(b.n)):
            return False
        if a.sort != b.sort:
            return False
        if self.key(a.get, a.n) == self.key(b.get, b.n):
            return True
        i = z3.Int(self.name('eq'))
        return self.quiet(z3.Implies(z3.And(0 <= i, i < a.n), a.get(i) == b.get(i)))

    def selection(self, mask):
        k = self.key(mask.get, mask.n)
        if k not in self.sels:
            self.sels[k] = Selection(self, mask, k)
        return self.sels[k]

    def sort(self, x):
        x = x.snap()
        for o in self.orders:
            if self.same(o.src, x):
                return o
        o = Order(self, x)
        self.orders.append(o)
        return o

    def sqrt(self, t):
        f = z3.Function('sqrt!', z3.RealSort(), z3.RealSort())
        r = f(t)
        self.fact(z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)))
        self.require('sqrt of a nonnegative number', t >= 0)
        return r

    def fun1(self, nm, t):
        f = z3.Function(nm + '!', z3.RealSort(), z3.RealSort())
        if nm == 'exp':
            self.fact(f(t) > 0)
        if nm == 'log':
            self.require('log of a positive number', t > 0)
        return f(t)

    # -- sums
    def parts(self, a):
        """(summand over the original index, length) segments of the sum of an array"""
        if isinstance(a, Joined):
            return [p for x in a.pieces for p in self.parts(x)]
        if a.via is not None:
            m, b = a.via.mask, a.base
            return [(lambda i: z3.If(m.get(i), R(a.wrap(b(i))), z3.RealVal(0)), m.n)]
        s = a.snap()
        return [(lambda i: R(s.wrap(s.get(i))), s.n)]

    def total(self, a):
        r = z3.RealVal(0)
        for f, n in self.parts(a):
            r = r + self.sum_of(f, n)
        return r

    def sum_of(self, f, n):
        k = self.key(f, n)
        if k not in self.sums:
            self.sums[k] = (z3.Real(self.name('sum')), f, n)
            self.fact(z3.Implies(n == 0, self.sums[k][0] == 0))
        return self.sums[k][0]

    def sums_equal(self, name, f, g, n):
        """lemma: equal summands have equal sums"""
        i = z3.Int(self.name('i'))
        self.prove('lemma ' + name, z3.Implies(z3.And(0 <= i, i < n), f(i) == g(i)))
        self.fact(self.sum_of(f, n) == self.sum_of(g, n))

    def sum_nonneg(self, name, f, n):
        i = z3.Int(self.name('i'))
        self.prove('lemma ' + name, z3.Implies(z3.And(0 <= i, i < n), f(i) >= 0))
        self.fact(self.sum_of(f, n) >= 0)

    def extreme(self, a, sgn):
        """max / min of a nonempty array: attained, a bound at every index asked"""
        self.require('extremum of a nonempty array', a.n >= 1)
        s = a.snap()
        m = z3.Real(self.name('ext'))
        at = z3.Int(self.name('argext'))
        self.fact(z3.And(0 <= at, at < s.n, m == s.get(at)))
        self.extremes.append((m, s, sgn))
        self.argext[id(s)] = at
        return ZV(m)

    def bound_at(self, i):
        """instantiate the extrema at index i"""
        for m, s, sgn in self.extremes:
            dom = z3.And(0 <= i, i < s.n)
            self.fact(z3.Implies(dom, (m >= s.get(i)) if sgn > 0 else (m <= s.get(i))))

    def concat(self, xs):
        return Joined(xs)

    # -- solver
    def _solve(self, goal, timeout):
        t0 = time.time()
        self.stats['z3_calls'] += 1
        # facts may grow while terms are built: take them all
        fs = list(self.pc) + list(self.facts)
        g = z3.Goal()
        s = z3.Solver()
        s.set('timeout', int(1000 * timeout))
        for f in fs:
            s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        how = 'z3'
        if r == z3.unknown:
            try:
                ack = self._ackermann(fs + [z3.Not(goal)])
                for tac in ('qfnra-nlsat', 'qfufnra'):
                    s2 = z3.Tactic(tac).solver() if tac != 'qfufnra' else z3.SolverFor('QF_NRA')
                    s2.set('timeout', int(1000 * timeout))
                    for f in ack:
                        s2.add(f)
                    r2 = s2.check()
                    if r2 != z3.unknown:
                        # the abstraction drops the integrality of indices: only unsat counts
                        if r2 == z3.unsat:
                            r, how = r2, 'z3 ' + tac
                        break
            except z3.Z3Exception:
                pass
        self.stats['z3_time'] += time.time() - t0
        return r, how, s

    def _ackermann(self, fs):
        """uninterpreted applications and integers as real constants, with the congruences among them"""
        apps = {}
        memo = {}

        def go(t):
            k = t.get_id()
            if k in memo:
                return memo[k]
            if z3.is_app(t):
                ch = [go(c) for c in t.children()]
                d = t.decl()
                kind = d.kind()
                if kind == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                    key = (d.name(), tuple(c.get_id() for c in ch))
                    if key not in apps:
                        c = z3.Bool('ab!%d' % len(apps)) if z3.is_bool(t) else z3.Real('ab!%d' % len(apps))
                        apps[key] = (d.name(), ch, c)
                    r = apps[key][2]
                elif kind == z3.Z3_OP_UNINTERPRETED and z3.is_int(t):
                    r = z3.Real('i!' + d.name())
                elif z3.is_int_value(t):
                    r = z3.RealVal(t.as_long())
                elif kind == z3.Z3_OP_TO_REAL:
                    r = ch[0]
                elif not ch:
                    r = t
                elif kind == z3.Z3_OP_ADD:
                    r = ch[0]
                    for c in ch[1:]:
                        r = r + c
                elif kind == z3.Z3_OP_MUL:
                    r = ch[0]
                    for c in ch[1:]:
                        r = r * c
                elif kind == z3.Z3_OP_SUB:
                    r = ch[0] - ch[1]
                elif kind == z3.Z3_OP_UMINUS:
                    r = -ch[0]
                elif kind == z3.Z3_OP_LE:
                    r = ch[0] <= ch[1]
                elif kind == z3.Z3_OP_GE:
                    r = ch[0] >= ch[1]
                elif kind == z3.Z3_OP_LT:
                    r = ch[0] < ch[1]
                elif kind == z3.Z3_OP_GT:
                    r = ch[0] > ch[1]
                elif kind == z3.Z3_OP_EQ:
                    r = ch[0] == ch[1]
                elif kind == z3.Z3_OP_DISTINCT:
                    r = ch[0] != ch[1]
                elif kind == z3.Z3_OP_ITE:
                    r = z3.If(*ch)
                else:
                    r = d(*ch)
            else:
                raise z3.Z3Exception('quantifier')
            memo[k] = r
            return r
        out = [go(f) for f in fs]
        vals = list(apps.values())
        for a in range(len(vals)):
            for b in range(a):
                if vals[a][0] == vals[b][0] and len(vals[a][1]) == 1:
                    out.append(z3.Implies(vals[a][1][0] == vals[b][1][0], vals[a][2] == vals[b][2]))
        return out

    def quiet(self, goal, timeout=1.):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return False
        k = (goal.get_id(), len(self.pc), len(self.facts))
        return self._solve(goal, timeout)[0] == z3.unsat

    def prove(self, name, goal, timeout=None):
        """obligation; afterwards a fact"""
        goal = goal if isinstance(goal, bool) else B(goal)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            self.record(name, Res(True, 'simplifier'))
            return True
        r, how, s = self._solve(goal, timeout or self.timeout)
        ok = r == z3.unsat
        detail = ''
        if r == z3.sat:
            how = 'sat'
            try:
                detail = str(s.model())[:600]
            except z3.Z3Exception:
                pass
        elif r == z3.unknown:
            how = 'unknown'
        self.record(name, Res(ok, how, detail))
        self.fact(goal)
        return ok

    require = prove

    def record(self, name, res):
        self.obligations.append((name, res))

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = len(self.taken)
        if k < len(self.script):
            v = self.script[k]
        else:
            v = True
            if self.quiet(z3.Not(t), 2.):
                v = False
            elif not self.quiet(t, 2.):
                self.todo.append(self.script[:0] + list(self.taken) + [False])
            self.script = list(self.taken) + [v]
        self.taken.append(v)
        self.pc.append(t if v else z3.simplify(z3.Not(t)))
        return v

    def assume(self, t):
        self.fact(B(t))

    def case(self, n, name):
        """a finite choice, all of them explored"""
        for j in range(n - 1):
            if self.decide(z3.Int('case ' + name) == j):
                return j
        return n - 1

    # -- loops
    def _arrays(self, env):
        out = {}
        for n, v in env.items():
            if isinstance(v, Arr) and not isinstance(v, Idx):
                out[n] = v
        return out

    def _check(self, k, env, names, it, when):
        e0 = self.entries[k]
        sc = self._scal(k, it)
        for n in names:
            v = env.get(n)
            if n not in e0:
                continue
            if v is None or isinstance(v, (Arr, str, tuple)):
                raise Unsupported('loop variable %s' % n)
            for lab, t in sc:
                if (k, n, lab) in self.removed:
                    continue
                if callable(t):
                    t = t(n)
                if t is None or not num(v) or self._intlike(n, v) and not self._intlike(n, t if isinstance(t, (int, float)) else ZV(t)):
                    self.removed.add((k, n, lab))
                    self.changed = True
                    continue
                self._keep((k, n, lab), self._same_value(v, t), 'loop invariant %s' % when)
        for n, a in self._arrays(e0).items():
            if (k, n) not in self.written:
                continue
            b = env.get(n)
            if b is None or b.cell is not a.cell:
                raise Unsupported('array variable %s is rebound in a loop' % n)
            i = z3.Int(self.name('inv'))
            for lab, f in self._arrs(k, it):
                if (k, n, lab) in self.removed:
                    continue
                f2 = f(self.before[k][n]) if f.__code__.co_argcount == 1 else None
                t = f2(i)
                if t is None or a.sort != 'R':
                    self.removed.add((k, n, lab))
                    self.changed = True
                    continue
                self._keep((k, n, lab), z3.Implies(z3.And(0 <= i, i < a.n), a.get(i) == t), 'loop invariant %s' % when)
        for lab, t in self._facts(k, it):
            if (k, '', lab) in self.removed:
                continue
            self._keep((k, '', lab), B(t), 'loop invariant %s' % when)

    def _intlike(self, n, v):
        if n in self.realvars or self.ctypes.get(n) in ('double', 'float'):
            return False
        return isinstance(v, (int, ZB)) or isinstance(v, ZV) and v.t.is_int()

    def _same_value(self, v, t):
        a, b = both(v, ZV(t) if not isinstance(t, (ZV, int, float)) else t)
        return a == b

    def _keep(self, key, goal, name):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            self.record(name, Res(True, 'simplifier'))
            return
        r, how, s = self._solve(goal, min(self.timeout, 4.) if not self.final else self.timeout)
        if r == z3.unsat:
            self.record(name, Res(True, how))
        else:
            self.removed.add(key)
            self.changed = True

    def _scal(self, k, it):
        e0 = self.entries[k]
        out = []
        for n, v in e0.items():
            pass
        return [('entry', self._entry(k))] + list(self.loopspec.scalars(self, k, e0, it)) if self.loopspec else [('entry', self._entry(k))]

    def _entry(self, k):
        e0 = self.entries[k]

        def f(n):
            v = e0[n]
            if isinstance(v, (ZV,)):
                return v.t
            if isinstance(v, (int, float)) and not is_inf(v):
                return v
            if isinstance(v, ZB):
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            return None
        return f

    def _arrs(self, k, it):
        base = [('unchanged', lambda old: old)]
        return base + (list(self.loopspec.arrays(self, k, self.entries[k], it)) if self.loopspec else [])

    def _facts(self, k, it):
        out = list(self.loopspec.facts(self, k, self.entries[k], it)) if self.loopspec else []
        if k in self.whiles:
            # termination of a while loop: its iteration count has a bound
            for n, v in sorted(self.entries[k].items()):
                if isinstance(v, ZV) and v.t.is_int():
                    out.append(('count bounded by ' + n, ZB(it <= z3.If(v.t >= 0, v.t, z3.IntVal(0)))))
        return out

    def start(self, k, env, names, stores, count):
        e0 = dict(env)
        if count is None:
            self.whiles[k] = [n for n, v in e0.items() if isinstance(v, ZV) and v.t.is_int()]
        self.entries[k] = e0
        self.before[k] = {n: a.cell.fn for n, a in self._arrays(env).items()}
        cells = {}
        for n, a in self._arrays(env).items():
            if n in stores:
                self.written.add((k, n))
        if self.loopspec:
            self.loopspec.unfold(self, k, e0, z3.IntVal(0))
        self._check(k, env, names, z3.IntVal(0), 'on entry')
        it = z3.Int(self.name('it%d' % k))
        self.iters[k] = it
        self.fact(it >= 0)
        if count is not None:
            self.fact(it <= z3.If(I(count) >= 0, I(count), 0))
        if self.loopspec:
            self.loopspec.unfold(self, k, e0, it)
        for n, a in self._arrays(env).items():
            if (k, n) not in self.written:
                continue
            live = [f for lab, f in self._arrs(k, it) if (k, n, lab) not in self.removed]
            fs = []
            for f in live:
                try:
                    fs.append(f(self.before[k][n]))
                except Unsupported:
                    continue
            if not fs:
                u = z3.Function(self.name('arb_' + n), z3.IntSort(), z3.RealSort() if a.sort == 'R' else z3.IntSort())
                fs = [lambda i, u=u: u(i)]

            def g(i, fs=fs):
                # all the descriptions still alive hold at once
                r = fs[0](i)
                for h in fs[1:]:
                    self.fact(h(i) == r)
                return r
            a.cell.fn = g
        new = {}
        for n in names:
            if n not in e0:
                continue
            v = e0[n]
            live = []
            for lab, t in self._scal(k, it):
                if (k, n, lab) in self.removed:
                    continue
                t = t(n) if callable(t) else t
                if t is None:
                    continue
                live.append(t)
            if live:
                t = live[0]
                new[n] = t if isinstance(t, (int, float)) else ZV(t)
                for u in live[1:]:
                    self.fact(self._same_value(new[n], u))
            elif isinstance(v, ZB):
                new[n] = ZB(z3.Bool(self.name('arb_' + n)))
            else:
                new[n] = ZV(z3.Int(self.name('arb_' + n)) if self._intlike(n, v) else z3.Real(self.name('arb_' + n)))
        for lab, t in self._facts(k, it):
            if (k, '', lab) not in self.removed:
                self.fact(B(t))
        self.heads[k] = {'count': count, 'names': names}
        return new

    def more(self, k):
        c = self.heads[k]['count']
        return self.decide(self.iters[k] < I(c))

    def index(self, k, start):
        return ZV(z3.simplify(self.iters[k] + I(start)))

    def end(self, k, env):
        h = self.heads[k]
        it = z3.simplify(self.iters[k] + 1)
        if self.loopspec:
            self.loopspec.unfold(self, k, self.entries[k], it)
        for n in h['names']:
            e0 = self.entries[k]
            if n in e0 and isinstance(e0[n], int) and not isinstance(e0[n], bool) and (isinstance(env.get(n), float) or isinstance(env.get(n), ZV) and env[n].t.is_real()):
                if n not in self.realvars:
                    self.realvars.add(n)
                    self.removed = {r for r in self.removed if r[1] != n}
                    self.changed = True
        self._check(k, env, h['names'], it, 'kept')
        # arrays that are not named in a store of the loop must be as before
        for n, a in self._arrays(self.entries[k]).items():
            if (k, n) in self.written:
                continue
            if any((k, m) in self.written and self.entries[k][m].cell is a.cell for m in self._arrays(self.entries[k])):
                continue
            if a.cell.fn is not self.before[k][n]:
                raise Unsupported('array %s changes in a loop in a way that is not followed' % n)
        raise PathEnd()

    # -- running
    def cast(self, ty, v):
        if isinstance(v, (Arr, str, tuple)) or v is None:
            raise Unsupported('cast of %r' % (v,))
        if ty in ('int', 'long', 'size_t', 'bint', 'unsigned'):
            if isinstance(v, ZB):
                return v
            if isinstance(v, (int, bool)):
                return v
            if isinstance(v, float):
                raise Raised('float stored in a C integer')
            if isinstance(v, ZV) and v.t.is_int():
                if ty == 'size_t':
                    self.require('no unsigned wrap', v.t >= 0)
                return v
            self.prove('no real number is stored in a C integer', z3.BoolVal(False))
            return ZV(z3.Int(self.name('cast')))
        if ty == 'float':
            # single precision: an arbitrary value
            return ZV(z3.Real(self.name('single')))
        if is_inf(v):
            return v
        return ZV(R(v))

    def compile(self, fname, extra):
        src, tree, per = self.source
        fs = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == fname]
        if len(fs) != 1:
            raise Unsupported('no function ' + fname)
        import copy
        f = copy.deepcopy(fs[0])
        self.ctypes = per.get(fname, {})
        f = strip.Casts(self.ctypes).visit(f)
        c = _Cut()
        f = c.visit(f)
        f.decorator_list = []
        mod = ast.Module([f], [])
        ast.fix_missing_locations(mod)
        g = {'np': Np, '__L': self, '__cast': self.cast, 'range': _range, 'min': _min, 'max': _max, 'abs': abs, 'float': _float, 'int': int, 'tuple': _tuple,
             'print': lambda *a, **k: None}
        g.update(extra)
        exec(compile(mod, '<%s>' % fname, 'exec'), g)
        return g[fname]

    def run(self, body, loopspec=None, log=None):
        """body(engine) on every path; obligations of the last round go to log"""
        global CUR
        CUR = self
        self.loopspec = loopspec
        self.written = set()
        self.whiles = {}
        self.realvars = set()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported('loop invariants do not settle')
            self.changed = False
            out = self._explore(body)
            if not self.changed:
                break
        for k, ns in self.whiles.items():
            out.append(('while loop terminates', Res(any((k, '', 'count bounded by ' + n) not in self.removed for n in ns), 'z3')))
        for name, res in out:
            log.obligation(name, res, None)
        return self.paths

    def _explore(self, body):
        todo = [[]]
        out = []
        self.paths = 0
        self.reached = False
        while todo:
            self.script = todo.pop()
            self.taken, self.todo = [], []
            self.count, self.fset, self.facts, self.pc = {}, {}, [], []
            self.sels, self.orders, self.sums, self.extremes, self.argext = {}, [], {}, [], {}
            self.entries, self.before, self.iters, self.heads = {}, {}, {}, {}
            self.obligations = []
            if time.time() > self.deadline:
                raise Unsupported('time budget of the kernel proof')
            try:
                body(self)
                if not self.reached:
                    r = self._solve(z3.BoolVal(False), 5.)[0]
                    self.reached = r != z3.unsat
            except (PathEnd, Infeasible):
                pass
            except Raised as ex:
                self.prove('no exception (%s)' % ex, z3.BoolVal(False))
            todo.extend(self.todo)
            out.extend(self.obligations)
            self.paths += 1
            if self.paths > 400:
                raise Unsupported('too many paths')
        out.append(('not vacuous: a path reaches the end with consistent facts', Res(self.reached, 'z3')))
        return out


class Joined(Arr):
    """np.hstack of arrays; only sums over it and stores into a leading slice are followed"""

    def __init__(self, pieces):
        pieces = [p.snap() for p in pieces]
        n = z3.IntVal(0)
        self.pieces = pieces
        self.starts = []
        for p in pieces:
            self.starts.append(n)
            n = z3.simplify(n + p.n)

        def get(i):
            r = pieces[-1].get(z3.simplify(i - self.starts[-1]))
            for p, s in list(zip(pieces, self.starts))[-2::-1]:
                r = z3.If(i < z3.simplify(s + p.n), p.get(z3.simplify(i - s)), r)
            return r
        Arr.__init__(self, n, get)


class _Range(object):
    def __init__(self, a, b):
        self.a, self.b = a, b


def _range(*a):
    if len(a) == 1:
        return _Range(0, a[0])
    if len(a) == 2:
        return _Range(a[0], a[1])
    raise Unsupported('range step')


def _float(x):
    if isinstance(x, str):
        return float(x)
    return x


def _tuple(x):
    return tuple(x)


def _min(*a):
    r = a[0]
    for b in a[1:]:
        if is_inf(b) or is_inf(r):
            r = r if is_inf(b) and b > 0 else b
            continue
        x, y = both(r, b)
        r = ZV(z3.If(y < x, y, x))
    return r


def _max(*a):
    r = a[0]
    for b in a[1:]:
        if is_inf(b) or is_inf(r):
            r = b if is_inf(b) and b > 0 else r
            continue
        x, y = both(r, b)
        r = ZV(z3.If(y > x, y, x))
    return r


def _targets(nodes):
    names, stores = set(), set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                b = x.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    stores.add(b.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                names.add(x.target.id)
    return sorted(names), sorted(stores)


class _Continue(ast.NodeTransformer):
    def __init__(self, end):
        self.end = end

    def visit_While(self, n):
        return n
    visit_For = visit_FunctionDef = visit_Lambda = visit_While

    def visit_Continue(self, n):
        return ast.copy_location(self.end(), n)


class _Cut(ast.NodeTransformer):
    """every loop: invariant on entry, arbitrary iteration, invariant at its end"""

    def __init__(self):
        self.n = 0

    def _loop(self, n, test, first, count):
        i = self.n
        self.n += 1
        names, stores = _targets(n.body + ([n.test] if isinstance(n, ast.While) else []))
        if isinstance(n, ast.For):
            tn = _targets([n.target])[0]
            names = [x for x in names if x not in tn]
        else:
            tn = []
        end = lambda: ast.parse('__L.end(%d, dict(locals()))' % i).body[0]
        body = [_Continue(end).visit(self.visit(b)) for b in n.body]
        body = [y for x in body for y in (x if isinstance(x, list) else [x])]
        pre = []
        if count is not None:
            pre.append(ast.Assign([ast.Name('__r%d' % i, ast.Store())], count))
        pre += ast.parse('__h%d = __L.start(%d, {k: v for k, v in locals().items() if not k.startswith("__")}, %r, %r, %s)' % (i, i, names, stores, '__r%d.b - __r%d.a' % (i, i) if count is not None else 'None')).body
        for x in names:
            pre += ast.parse('if %r in __h%d: %s = __h%d[%r]' % (x, i, x, i, x)).body
        loop = ast.parse('while True:\n  if not 1: break\n  pass').body[0]
        loop.body[0].test = ast.UnaryOp(ast.Not(), test(i))
        loop.body[1:] = first(i) + body + [end()]
        return [ast.copy_location(p, n) for p in pre] + [ast.copy_location(loop, n)]

    def visit_While(self, n):
        if n.orelse:
            raise Unsupported('while ... else')
        return self._loop(n, lambda i: n.test, lambda i: [], None)

    def visit_For(self, n):
        if n.orelse:
            raise Unsupported('for ... else')
        if not isinstance(n.target, ast.Name) or not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range'):
            raise Unsupported('loop that is not over a range')
        return self._loop(n, lambda i: ast.parse('__L.more(%d)' % i, mode='eval').body,
                          lambda i: ast.parse('%s = __L.index(%d, __r%d.a)' % (n.target.id, i, i)).body, n.iter)
