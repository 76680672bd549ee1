"""The two worlds a contract runs in.

SymWorld: inputs are symbolic, ensure_* generates and discharges obligations.
ConWorld: inputs are concrete floats, ensure_* is a numerical check."""
import numpy as np
import copy as _copy
from . import expr as E
from . import sym as S
from . import shim
from . import engine as G
from .expr import Poly, P, Unsupported
from .sym import SymArr, SymReal, SymBool, ENG, scal, to_arr, is_scalar, is_inf


class Skip(Exception):
    """precondition not met / case not applicable"""


class Violation(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, '%s: %s' % (name, detail))
        self.name, self.detail = name, detail


KNOWN = None


def known_ids():
    global KNOWN
    if KNOWN is None:
        from . import driver
        KNOWN = set(k['id'] for k in driver.load_known())
    return KNOWN


class Known(Exception):
    """a listed known finding was met"""

    def __init__(self, id):
        Exception.__init__(self, id)
        self.id = id


class ModelFailure(Exception):
    pass


class SymWorld(object):
    symbolic = True
    np = shim.NP

    def __init__(self, log, timeout=8.0):
        self.log = log            # object with .obligation(name, res, goal, pc)
        self.timeout = timeout
        self.names = {}
        self.fixed_dims = None
        ENG.world = self

    @property
    def ghost(self):
        return ENG.ghost

    # -- lemmas: proved here, then available to later obligations
    def lemma(self, name, cond):
        c = S.cond_of(cond)
        self._prove('lemma ' + name, c)
        ENG.path.add(c)

    def lemma_all(self, name, arr):
        """elementwise lemma over a boolean array"""
        a = to_arr(arr)
        idx = tuple(E.fresh_int('lm') for _ in a._shape)
        r = G.with_facts(S.in_dom(idx, a._shape), lambda: G.prove(a.get(idx), self.timeout), sk=idx)
        self.log.obligation('lemma ' + name, r, E.TRUE)
        ENG.path.add_forall(a)
        ENG.path.ocache.clear()

    def lemma_sum(self, name, arr):
        """elementwise nonnegative array: proved entry by entry, then its sum is >= 0"""
        a = to_arr(arr)._num().snapshot()
        idx = tuple(E.fresh_int('lm') for _ in a._shape)
        r = G.with_facts(S.in_dom(idx, a._shape), lambda: G.prove(E.cmp_('ge', a.get(idx)), self.timeout), sk=idx)
        self.log.obligation('lemma ' + name, r, E.TRUE)
        ENG.path.add(E.cmp_('ge', scal(shim.np_sum(a)).p))

    def lemma_product(self, name, a, b):
        """two scalars proved >= 0: their product is"""
        p, q = scal(a).p, scal(b).p
        self._prove('lemma %s (first)' % name, E.cmp_('ge', p))
        self._prove('lemma %s (second)' % name, E.cmp_('ge', q))
        ENG.path.add(E.cmp_('ge', p * q))

    def lemma_row_entry(self, name, arr):
        """matrix with entries >= 0 (proved): each is at most the sum of its row"""
        a = to_arr(arr)._num().snapshot()
        idx = tuple(E.fresh_int('lm') for _ in a._shape)
        r = G.with_facts(S.in_dom(idx, a._shape), lambda: G.prove(E.cmp_('ge', a.get(idx)), self.timeout), sk=idx)
        self.log.obligation('lemma ' + name, r, E.TRUE)
        t = to_arr(shim.np_sum(a, 1)).snapshot()
        ENG.path.add_forall(SymArr.make(lambda ix: E.and_(E.cmp_('ge', t.get(ix[:1]) - a.get(ix)), E.cmp_('ge', t.get(ix[:1])), E.cmp_('ge', a.get(ix))), a._shape, 'b'))
        ENG.path.ocache.clear()

    def lemma_sum_eq(self, name, a, b):
        """two arrays proved equal entry by entry: their sums are equal"""
        d = to_arr(a - b)._num().snapshot()
        idx = tuple(E.fresh_int('lm') for _ in d._shape)
        r = G.with_facts(S.in_dom(idx, d._shape), lambda: G.prove(E.cmp_('eq', d.get(idx)), self.timeout), sk=idx)
        self.log.obligation('lemma ' + name, r, E.TRUE)
        ENG.path.add(E.cmp_('eq', scal(shim.np_sum(a)).p - scal(shim.np_sum(b)).p))

    def lemma_sum_at(self, name, arr, i):
        """elementwise nonnegative array (proved entry by entry): its sum is at least entry i"""
        a = to_arr(arr)._num().snapshot()
        idx = tuple(E.fresh_int('lm') for _ in a._shape)
        r = G.with_facts(S.in_dom(idx, a._shape), lambda: G.prove(E.cmp_('ge', a.get(idx)), self.timeout), sk=idx)
        self.log.obligation('lemma ' + name, r, E.TRUE)
        at = (P(i),)
        for c in S.in_dom(at, a._shape):
            self._prove('lemma %s (position)' % name, c)
        ENG.path.add(E.cmp_('ge', scal(shim.np_sum(a)).p - a.get(at)))

    def witness_pos(self, name, x):
        """x >= 0 with positive sum has a positive entry (lemma schema): returns its index"""
        x = to_arr(x)
        self._prove('lemma %s (sum positive)' % name, E.cmp_('gt', scal(shim.np_sum(x)).p))
        at = tuple(E.fresh_int('wit') for _ in x._shape)
        for c in S.in_dom(at, x._shape):
            ENG.path.add(c)
        for i in at:
            ENG.skolems.append((i,))
        ENG.path.add(E.cmp_('gt', x.get(at)))
        return SymReal(at[0]) if len(at) == 1 else tuple(SymReal(i) for i in at)

    # -- inputs
    def _nm(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else '%s_%d' % (name, k)

    def dim(self, name, lo=1, hi=6):
        if self.fixed_dims:
            v = self.fixed_dims.get(name, self.fixed_dims.get('*', 2))
            return max(lo, v)
        name = self._nm(name)
        p = E.var(name, 'I')
        f = E.the_factor(p)
        if lo >= 1:
            E.POS.add(f)
        if lo >= 0:
            E.NONNEG.add(f)
        if lo not in (0,):
            ENG.path.add(E.cmp_('ge', p - lo))
        return SymReal(p)

    def real(self, name, **k):
        return SymReal(E.var(self._nm(name)))

    def pos(self, name, **k):
        p = E.var(self._nm(name))
        E.POS.add(E.the_factor(p))
        return SymReal(p)

    def nonneg(self, name, **k):
        p = E.var(self._nm(name))
        E.NONNEG.add(E.the_factor(p))
        return SymReal(p)

    def integer(self, name, lo, hi):
        """0 <= value < hi symbolic integer"""
        p = E.var(self._nm(name), 'I')
        ENG.path.add(E.cmp_('ge', p - P(lo)))
        ENG.path.add(E.cmp_('ge', P(hi) - 1 - p))
        return SymReal(p)

    def arr(self, name, shape, sign=None, kind='f', **k):
        name = self._nm(name)
        shp = tuple(S.dpoly(d) for d in (shape if isinstance(shape, tuple) else (shape,)))
        if sign == 'pos':
            E.POS.add(('arr+', name))
            E.NONNEG.add(('arr+', name))
        elif sign == 'nonneg':
            E.NONNEG.add(('arr+', name))
        G.ARR_SHAPES[name] = shp
        return SymArr.make(lambda idx: E.elem(name, *idx), shp, kind)

    def vec(self, name, n, sign=None, **k):
        return self.arr(name, (n,), sign)

    def mat(self, name, n, m, sign=None, **k):
        return self.arr(name, (n, m), sign)

    def orthonormal(self, name, k, n):
        """k x n matrix with orthonormal rows"""
        a = self.arr('orth:' + name, (k, n))
        nm = E.the_factor(a.at(E.var('probe', 'I'), E.var('probe2', 'I')))[1]
        E.ORTHO[nm] = S.dpoly(n)
        return a

    def binary(self, name, n):
        a = self.arr(name, (n,), 'nonneg')
        nm = [k for k in G.ARR_SHAPES][-1]
        nm = E.the_factor(a.at(E.var('probe', 'I')))[1]
        G.ARR_FACTS.setdefault(nm, []).append(lambda idx: E.cmp_('eq', E.elem(nm, *idx) * (E.elem(nm, *idx) - 1)))
        return a

    def mask(self, name, n):
        """arbitrary boolean vector"""
        return self.binary(name, n) == 1

    def index_set(self, name, n):
        """(index array naming an arbitrary set of positions, its indicator)"""
        m = self.mask(name, n)
        return S.NonzeroIdx(m.snapshot()), m

    def memberships(self, name, n, K):
        """for each of n, one of K"""
        nm = 'int:' + self._nm(name)
        G.ARR_SHAPES[nm] = (S.dpoly(n),)
        G.ARR_FACTS.setdefault(nm, []).append(lambda idx: E.and_(*S.in_dom((E.elem(nm, *idx),), (S.dpoly(K),))))
        return SymArr.make(lambda idx: E.elem(nm, *idx), (S.dpoly(n),), 'i')

    def positions(self, name, k, n):
        """increasing positions, k of n"""
        nm, mem = 'int:' + self._nm(name), self._nm(name + ' member')
        shp = (S.dpoly(k),)
        G.ARR_SHAPES[nm] = shp
        G.ARR_SHAPES[mem] = (S.dpoly(n),)
        a = SymArr.make(lambda idx: E.elem(nm, *idx), shp, 'i')
        a.member = SymArr.make(lambda idx: E.cmp_('eq', E.elem(mem, *idx) - 1), (S.dpoly(n),), 'b')
        G.ARR_FACTS.setdefault(nm, []).append(lambda idx: E.and_(*(S.in_dom((E.elem(nm, *idx),), (S.dpoly(n),)) + [E.cmp_('eq', E.elem(mem, E.elem(nm, *idx)) - 1)])))
        return a

    def enumerated(self, name, mask):
        """the same mask; indexing with it gathers by the increasing enumeration of its positions"""
        n = S.dimval(mask._shape[0])
        k = self.dim(name, lo=1)
        m = mask.snapshot()
        nm = 'int:' + self._nm(name)
        G.ARR_SHAPES[nm] = (S.dpoly(k),)
        c = SymArr.make(lambda idx: E.elem(nm, *idx), (S.dpoly(k),), 'i')
        G.ARR_FACTS.setdefault(nm, []).append(lambda idx: E.and_(*(S.in_dom((E.elem(nm, *idx),), (S.dpoly(n),)) + [m.get((E.elem(nm, *idx),))])))
        m.enum = c
        return m

    def sublabels(self, groups, positions, labels):
        """the labels present among groups[positions]"""
        u = E.var('uq', 'I')
        g = E.the_factor(groups.at(E.var('uq', 'I')))[1]
        G.ARR_LABELS[(g, positions.get((u,)))] = list(labels)

    def counts(self, name, shape):
        """nonnegative integers"""
        shape = shape if isinstance(shape, tuple) else (shape,)
        nm = 'int:' + self._nm(name)
        shp = tuple(S.dpoly(d) for d in shape)
        G.ARR_SHAPES[nm] = shp
        E.NONNEG.add(('arr+', nm))
        return SymArr.make(lambda idx: E.elem(nm, *idx), shp, 'i')

    def bounded_vec(self, name, n, lo, hi):
        a = self.arr(name, (n,))
        nm = E.the_factor(a.at(E.var('probe', 'I')))[1]
        lo, hi = P(lo), P(hi)
        G.ARR_FACTS.setdefault(nm, []).append(lambda idx: E.and_(E.cmp_('ge', E.elem(nm, *idx) - lo), E.cmp_('ge', hi - E.elem(nm, *idx))))
        return a

    def labels(self, name, n, K):
        """membership array with labels 0..K-1 (each present)"""
        nm = 'int:' + self._nm(name)
        shp = (S.dpoly(n),)
        G.ARR_SHAPES[nm] = shp
        a = SymArr.make(lambda idx: E.elem(nm, *idx), shp, 'i')
        a.labels = list(range(K))
        G.ARR_LABELS[nm] = K
        G.ARR_FACTS.setdefault(nm, []).append(lambda idx: E.or_(*[E.cmp_('eq', E.elem(nm, *idx) - j) for j in range(K)]))
        return a

    def comparator(self, name, x, **k):
        x = to_arr(x)
        return self.arr(name, tuple(S.dimval(d) for d in x._shape))

    def choice(self, name, opts, sym=None):
        opts = list(opts)
        if sym is not None:
            opts = list(sym)
        k = ENG.choose(len(opts), name)
        self.choices = getattr(self, 'choices', [])
        self.choices.append('%s=%r' % (name, opts[k]))
        return opts[k]

    def index(self, name, n):
        p = E.fresh_int(name)
        for c in S.in_dom((p,), (P(n),)):
            ENG.path.add(c)
        return SymReal(p)

    def assume(self, c):
        c = S.cond_of(c)
        if c == E.FALSE:
            raise G.Infeasible()
        if c[0] == 'or' or (c[0] == 'bv' or (c[0] == 'not' and c[1][0] == 'bv')):
            ENG.path.add(c)
        else:
            ENG.path.add(c)

    def bounded_only(self, why=''):
        raise Unsupported('outside the symbolic subset: ' + why)

    # -- snapshots / frames
    def snap(self, *arrs):
        return [(a, a.snapshot() if isinstance(a, SymArr) else _copy.copy(a)) for a in arrs]

    def unchanged(self, name, snap):
        for a, s in snap:
            if isinstance(a, SymArr):
                if a.buf.version and not self._same(a, s):
                    self.eq(name, a, s)
                else:
                    self.log.obligation(name, G.Result(True, 'frame'), E.TRUE)
            else:
                self.true(name, a is s or a == s)

    def _same(self, a, s):
        idx = tuple(E.var('frame%d' % k, 'I') for k in range(a.ndim))
        return a.get(idx) == s.get(idx)

    def distinct(self, name, a, b):
        """no shared storage"""
        ok = not (isinstance(a, SymArr) and isinstance(b, SymArr) and a.buf is b.buf)
        self.log.obligation(name, G.Result(ok, 'alias', detail='' if ok else 'result shares storage with an argument'), E.TRUE)

    # -- obligations
    def _prove(self, name, goal, facts=()):
        r = G.with_facts(list(facts), lambda: G.prove(goal, self.timeout))
        self.log.obligation(name, r, goal)
        if not r.ok and r.how == 'sat' and r.model:
            self.log.model(name, r.model)

    def eq(self, name, a, b, tol=None, scale=None):
        if a is None or b is None:
            self.true(name, a is None and b is None)
            return
        if is_inf(a) or is_inf(b):
            self.true(name, a == b if (is_inf(a) and is_inf(b)) else False)
            return
        if any(isinstance(v, float) and v != v for v in (a, b)):
            self.true(name, False)
            return
        if is_scalar(a) and is_scalar(b):
            self._prove(name, E.cmp_('eq', scal(a).p - scal(b).p))
            return
        a, b = to_arr(a), to_arr(b)
        if a.ndim == 0 or b.ndim == 0:
            a, b = S.num_arg(a), S.num_arg(b)
        else:
            if a.ndim != b.ndim:
                self.true(name + ' (shape)', False)
                return
            for d, e in zip(a._shape, b._shape):
                if d != e:
                    self._prove(name + ' (shape)', E.cmp_('eq', d - e))
        a, b = a._num(), b._num()
        shp = S.bshape(a._shape, b._shape)
        idx = tuple(E.fresh_int('g') for _ in shp)
        ga, gb = S.belem(a, shp), S.belem(b, shp)
        facts = S.in_dom(idx, shp)
        r = G.with_facts(facts, lambda: G.prove(E.cmp_('eq', ga(idx) - gb(idx)), self.timeout), sk=idx)
        self.log.obligation(name, r, E.TRUE)
        if not r.ok and r.model:
            self.log.model(name, r.model)

    def ge(self, name, a, b=0, tol=None, scale=None):
        if is_inf(a) and a > 0:
            self.log.obligation(name, G.Result(True, 'structural'), E.TRUE)
            return
        if is_scalar(a) and is_scalar(b):
            self._prove(name, E.cmp_('ge', scal(a).p - scal(b).p))
            return
        a, b = S.num_arg(to_arr(a)), S.num_arg(to_arr(b))
        shp = S.bshape(a._shape, b._shape)
        idx = tuple(E.fresh_int('g') for _ in shp)
        ga, gb = S.belem(a, shp), S.belem(b, shp)
        r = G.with_facts(S.in_dom(idx, shp), lambda: G.prove(E.cmp_('ge', ga(idx) - gb(idx)), self.timeout), sk=idx)
        self.log.obligation(name, r, E.TRUE)
        if not r.ok and r.model:
            self.log.model(name, r.model)

    def le(self, name, a, b, **k):
        self.ge(name, b, a, **k)

    def true(self, name, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                # false only if the path is feasible
                r = G.prove(E.FALSE, self.timeout)
                self.log.obligation(name, r if r.ok else G.Result(False, 'sat', r.model, 'constant false'), E.FALSE)
            else:
                self.log.obligation(name, G.Result(True, 'structural'), E.TRUE)
            return
        self._prove(name, S.cond_of(c))

    def implies(self, name, c, d):
        self._prove(name, E.or_(E.neg(S.cond_of(c)), S.cond_of(d)))

    def isinf(self, x):
        return is_inf(x)

    def copy(self, x):
        if isinstance(x, SymArr):
            return x.snapshot()
        return _copy.copy(x)

    def grad(self, value, arr, at=None):
        """symbolic derivative of scalar expression `value` wrt symbolic array"""
        from . import diff
        a = to_arr(arr)
        probe = tuple(E.var('probe%d' % k, 'I') for k in range(a.ndim))
        f = E.the_factor(a.get(probe))
        v = scal(value).p
        return SymArr.make(lambda idx: diff.diff(v, f[1], idx), a._shape)

    def finite(self, name, x):
        # symbolic arrays hold real terms; what could be non-finite is a
        # division by zero, a square root or logarithm outside its domain
        self.check_div(name + ' (divisions defined)')

    def check_div(self, name='divisions defined'):
        obl, ENG.div_obligs = ENG.div_obligs, []
        for pc, fa, den in obl:
            st = ENG.path
            r = G.with_facts([c for c in pc if c not in ENG.pc], lambda: G.prove(E.neg(E.cmp_('eq', den)), self.timeout))
            self.log.obligation(name, r, E.TRUE)

    def sumof(self, x):
        return shim.np_sum(x)


class ConWorld(object):
    symbolic = False
    np = np

    def __init__(self, rng, hints=None, style=None, fixed=None):
        self.rng = rng
        self.hints = hints or {}
        self.style = style if style is not None else rng.integers(0, 9)
        self.record = {}
        self.checks = 0
        self.names = {}
        self.fixed = fixed or {}
        self.maxerr = 0.
        self.scale = [1., 1., 1., 1., 100., 0.01][int(rng.integers(0, 6))]

    def _nm(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else '%s_%d' % (name, k)

    ghost = {}

    def lemma(self, name, cond):
        pass

    def lemma_all(self, name, arr):
        pass

    def lemma_sum(self, name, arr):
        pass

    def lemma_sum_eq(self, name, a, b):
        pass

    def lemma_row_entry(self, name, arr):
        pass

    def lemma_product(self, name, a, b):
        pass

    def lemma_sum_at(self, name, arr, i):
        pass

    def witness_pos(self, name, x):
        return int(np.argmax(x)) if np.ndim(x) == 1 else tuple(int(i) for i in np.unravel_index(np.argmax(x), np.shape(x)))

    def _rec(self, name, v):
        self.record[name] = v.tolist() if isinstance(v, np.ndarray) else v
        return v

    def dim(self, name, lo=1, hi=6):
        name = self._nm(name)
        if name in self.fixed:
            return self.fixed[name]
        if self.style == 1 and lo <= 1:
            v = int(self.rng.integers(lo, min(hi, 2) + 1))
        else:
            v = int(self.rng.integers(lo, hi + 1))
        return self._rec(name, v)

    def _draw(self, shape, sign=None):
        r = self.rng
        st = self.style
        if st in (0, 7, 8):
            x = r.standard_normal(shape) * self.scale
        elif st == 1:
            x = r.integers(-3, 4, shape).astype(float)
        elif st == 2:
            x = r.integers(-2, 3, shape) * 0.5
        elif st == 3:
            x = r.standard_normal(shape) * (r.random(shape) < .5)
        elif st == 4:
            x = np.full(shape, float(r.integers(-2, 3)))
        elif st == 5:
            x = np.zeros(shape)
        else:
            x = r.standard_normal(shape) * 10. ** r.integers(-2, 3, shape)
        x = np.asarray(x, float)
        if sign == 'nonneg':
            x = np.fabs(x)
        elif sign == 'pos':
            x = np.fabs(x)
            x = np.where(x == 0, 1., x)
        return x

    def _hint(self, name, shape, x):
        if not self.hints:
            return x
        x = np.array(x, float)
        hits = [v for k, v in self.hints.items() if k.startswith(name + '[')]
        if hits:
            flat = x.reshape(-1)
            for j, v in enumerate(hits):
                if j < flat.size:
                    flat[j] = v
            x = flat.reshape(shape)
        return x

    def real(self, name, lo=None, hi=None):
        name = self._nm(name)
        if name in self.fixed:
            return self.fixed[name]
        if name in self.hints:
            return self._rec(name, float(self.hints[name]))
        v = float(self._draw((1,))[0])
        if lo is not None or hi is not None:
            v = float(np.clip(v, lo, hi))
        return self._rec(name, v)

    def pos(self, name, lo=1e-2, hi=1e3):
        name = self._nm(name)
        if name in self.fixed:
            return self.fixed[name]
        if name in self.hints and self.hints[name] > 0:
            return self._rec(name, float(self.hints[name]))
        k = self.rng.integers(0, 5)
        if k == 0:
            v = 1.
        elif k == 1:
            v = float(self.rng.integers(1, 4))
        elif k == 2:
            v = float(self.rng.integers(1, 6)) * .5
        else:
            v = float(np.exp(self.rng.standard_normal()))
        if self.style in (0, 7, 8) and k > 2:
            v *= self.scale
        return self._rec(name, float(np.clip(v, lo, hi)))

    def nonneg(self, name, **k):
        if self.rng.random() < .15:
            name = self._nm(name)
            return self._rec(name, self.hints.get(name, 0.))
        return self.pos(name, **k)

    def integer(self, name, lo, hi):
        name = self._nm(name)
        if name in self.fixed:
            return self.fixed[name]
        return self._rec(name, int(self.rng.integers(lo, hi)))

    def arr(self, name, shape, sign=None, **k):
        name = self._nm(name)
        if name in self.fixed:
            return np.array(self.fixed[name], float).reshape(shape)
        if not isinstance(shape, tuple):
            shape = (shape,)
        x = self._hint(name, shape, self._draw(shape, sign))
        if sign == 'pos':
            x = np.where(x <= 0, 1., x)
        if sign == 'nonneg':
            x = np.fabs(x)
        return self._rec(name, x)

    def vec(self, name, n, sign=None, **k):
        return self.arr(name, (n,), sign)

    def mat(self, name, n, m, sign=None, generic=False, **k):
        if generic:
            name = self._nm(name)
            return self._rec(name, self.rng.standard_normal((n, m)))
        return self.arr(name, (n, m), sign)

    def orthonormal(self, name, k, n):
        name = self._nm(name)
        if k > n:
            raise Skip()
        if name in self.fixed:
            return np.array(self.fixed[name], float).reshape((k, n))
        if self.style in (1, 3):
            Q = np.eye(n)[self.rng.permutation(n)] * self.rng.choice([-1, 1], n)[:, None]
        else:
            Q = np.linalg.qr(self.rng.standard_normal((n, n)))[0].T
        return self._rec(name, np.array(Q[:k]))

    def binary(self, name, n):
        name = self._nm(name)
        return self._rec(name, self.rng.integers(0, 2, n).astype(float))

    def mask(self, name, n):
        name = self._nm(name)
        return self._rec(name, self.rng.random(n) < self.rng.choice([.2, .5, .8]))

    def index_set(self, name, n):
        m = self.mask(name, n)
        if not m.any():
            m[self.rng.integers(0, n)] = True
        idx = np.nonzero(m)[0]
        if self.rng.random() < .4:
            self.rng.shuffle(idx)
        return idx, m

    def positions(self, name, k, n):
        name = self._nm(name)
        return self._rec(name, np.sort(self.rng.permutation(n)[:k]))

    def counts(self, name, shape):
        name = self._nm(name)
        shape = shape if isinstance(shape, tuple) else (shape,)
        return self._rec(name, self.rng.poisson(self.rng.choice([.5, 2., 10.]), shape))

    def bounded_vec(self, name, n, lo, hi):
        name = self._nm(name)
        return self._rec(name, lo + (hi - lo) * self.rng.integers(0, 9, n) / 8.)

    def labels(self, name, n, K):
        name = self._nm(name)
        if n < K:
            raise Skip()
        v = np.concatenate([np.arange(K), self.rng.integers(0, K, n - K)])
        self.rng.shuffle(v)
        return self._rec(name, v)

    def comparator(self, name, x, domain=None):
        x = np.asarray(x, float)
        k = self.rng.integers(0, 6)
        sc = 1 + np.fabs(x).max() if x.size else 1.
        if k == 0:
            z = self.rng.standard_normal(x.shape) * sc
        elif k == 1:
            z = np.zeros(x.shape)
        elif k == 2:
            z = x * (1 + self.rng.choice([-1, 1]) * 10. ** self.rng.integers(-4, 0))
        elif k == 3:
            z = x.copy()
            if x.size:
                z.flat[self.rng.integers(0, x.size)] += self.rng.choice([-1, 1]) * sc * 10. ** self.rng.integers(-4, 0)
        elif k == 4:
            z = x * (self.rng.random(x.shape) < .5)
        else:
            z = x + self.rng.standard_normal(x.shape) * sc * 10. ** self.rng.integers(-4, 0)
        return z

    def choice(self, name, opts, sym=None):
        opts = list(opts)
        name = self._nm(name)
        if name in self.fixed:
            return opts[self.fixed[name]]
        k = int(self.rng.integers(0, len(opts)))
        self.record[name] = '%d (%r)' % (k, opts[k])
        return opts[k]

    def index(self, name, n):
        return int(self.rng.integers(0, n))

    def assume(self, c):
        if not c:
            raise Skip()

    def bounded_only(self, why=''):
        pass

    def known(self, id, what):
        """the specific failure `id` was observed: listed -> known finding, else violation"""
        if id in known_ids():
            raise Known(id)
        raise Violation(id, what)

    def snap(self, *arrs):
        return [(a, _copy.deepcopy(a)) for a in arrs]

    def unchanged(self, name, snap):
        for a, s in snap:
            self.checks += 1
            if a is None and s is None:
                continue
            if not np.array_equal(np.asarray(a), np.asarray(s), equal_nan=False) and not (np.asarray(a).dtype == object):
                A, B = np.asarray(a, float), np.asarray(s, float)
                if A.shape == B.shape and np.array_equal(A, B, equal_nan=True):
                    continue
                raise Violation(name, 'changed: before %r after %r' % (s, a))

    def distinct(self, name, a, b):
        self.checks += 1
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b):
            raise Violation(name, 'result shares memory with an argument or internal buffer')

    def _scale(self, a, b, scale):
        s = 1.
        for x in (a, b):
            x = np.asarray(x, float)
            if x.size:
                f = np.fabs(x[np.isfinite(x)])
                if f.size:
                    s = max(s, float(f.max()))
        if scale is not None:
            s = max(s, float(np.max(np.fabs(scale))))
        return s

    def eq(self, name, a, b, tol=1e-6, scale=None):
        self.checks += 1
        if a is None or b is None:
            if not (a is None and b is None):
                raise Violation(name, '%r != %r' % (a, b))
            return
        A, B = np.asarray(a, float), np.asarray(b, float)
        if A.shape != B.shape and A.ndim and B.ndim:
            raise Violation(name, 'shape %r, expected %r' % (A.shape, B.shape))
        tol = 1e-6 if tol is None else tol
        if A.shape != B.shape:
            A, B = np.broadcast_arrays(A, B)
        bad = ~((A == B) | (np.fabs(A - B) <= tol * self._scale(a, b, scale)))
        if bad.any():
            raise Violation(name, 'got %r, expected %r' % (np.asarray(a).tolist(), np.asarray(b).tolist()))

    def ge(self, name, a, b=0, tol=1e-7, scale=None):
        self.checks += 1
        A, B = np.asarray(a, float), np.asarray(b, float)
        tol = 1e-7 if tol is None else tol
        ok = (A >= B - tol * self._scale(a, b, scale))
        if not np.all(ok):
            raise Violation(name, 'expected %r >= %r' % (A.tolist(), B.tolist()))

    def le(self, name, a, b, **k):
        self.ge(name, b, a, **k)

    def true(self, name, c):
        self.checks += 1
        if not c:
            raise Violation(name, 'condition is false')

    def implies(self, name, c, d):
        self.true(name, (not c) or d)

    def isinf(self, x):
        return bool(np.isinf(x))

    def copy(self, x):
        return _copy.deepcopy(x)

    def grad(self, value, arr, at=None):
        return None

    def check_div(self, name=''):
        pass

    def finite(self, name, x):
        self.checks += 1
        if not np.all(np.isfinite(np.asarray(x, float))):
            raise Violation(name, 'not finite: %r' % (x,))

    def sumof(self, x):
        return np.sum(x)
