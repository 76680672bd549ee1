"""Path exploration and discharge of obligations."""
import sys
import time
import itertools
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3

from . import expr as E
from .expr import Poly, P, Unsupported
from . import sym as S
from .sym import ENG, SymArr, SymReal, SymBool

z3.set_param('smt.random_seed', 1)


# ------------------------------------------------------------------ z3 translation
class Tr(object):
    """translation of canonical expressions to nonlinear real arithmetic.
    Integers are over-approximated by reals (sound for proving)."""

    def __init__(self):
        self.vars = {}
        self.facts = []
        self.by_arr = {}
        self.sums = []
        self.count = 0
        self.vmaxs = []
        self.by_fn = {}

    def new(self, hint):
        self.count += 1
        return z3.Real('%s!%d' % (hint, self.count))

    def poly(self, p):
        ts = []
        for m, c in p.terms.items():
            t = None
            for f, e in m:
                x = self.factor(f)
                for _ in range(e):
                    t = x if t is None else t * x
            cc = z3.RealVal(str(c))
            ts.append(cc if t is None else (t if c == 1 else cc * t))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def factor(self, f):
        r = self.vars.get(f)
        if r is not None:
            return r
        k = f[0]
        if k == 'ite':
            r = z3.If(self.cond(f[1]), self.poly(f[2]), self.poly(f[3]))
            self.vars[f] = r
            return r
        if k == 'abs':
            q = self.poly(f[1])
            r = z3.If(q >= 0, q, -q)
            self.vars[f] = r
            return r
        r = self.new(k if k not in ('v', 'e', 'fn') else f[1].replace('#', '_').replace(':', '_'))
        self.vars[f] = r
        if E.known_pos_factor(f):
            self.facts.append(r > 0)
        elif E.known_nonneg_factor(f):
            self.facts.append(r >= 0)
        if k == 'inv':
            q = self.poly(f[1])
            if E.known_pos(f[1]):
                self.facts.append(q * r == 1)
            else:
                self.facts.append(z3.Implies(q != 0, q * r == 1))
                self.facts.append(z3.Implies(q > 0, r > 0))
        elif k == 'sqrt':
            q = self.poly(f[1])
            if E.known_nonneg(f[1]):
                self.facts.append(q >= 0)
                self.facts.append(r * r == q)
            else:
                self.facts.append(z3.Implies(q >= 0, r * r == q))
        elif k == 'e':
            for g, s in self.by_arr.setdefault(f[1], []):
                diffs = [a - b for a, b in zip(f[2:], g[2:])]
                if any(d.is_const() and d.cval() != 0 for d in diffs):
                    continue
                self.facts.append(z3.Implies(z3.And([self.poly(d) == 0 for d in diffs if not d.is_const()]), r == s))
            self.by_arr[f[1]].append((f, r))
            for a in f[2:]:
                if any(h[0] == 'e' and h[1] in ARR_FACTS for mono in a.terms for h, _ in mono):
                    self.poly(a)        # what is known of the positions themselves
            for fact in ARR_FACTS.get(f[1], []):
                self.facts.append(self.cond(fact(f[2:])))
        elif k == 'fn':
            for g, s in self.by_fn.setdefault((f[1], len(f)), []):
                diffs = [a - b for a, b in zip(f[2:], g[2:])]
                if any(d.is_const() and d.cval() != 0 for d in diffs):
                    pass
                else:
                    self.facts.append(z3.Implies(z3.And([self.poly(d) == 0 for d in diffs if not d.is_const()]), r == s))
                if f[1] in MONO and len(f) == 3:
                    self.facts.append(z3.Implies(self.poly(diffs[0]) > 0, r > s))
                    self.facts.append(z3.Implies(self.poly(diffs[0]) < 0, r < s))
            self.by_fn[(f[1], len(f))].append((f, r))
            if f[1] == 'exp':
                a = self.poly(f[2])
                self.facts.append(r >= 1 + a)
            if f[1] == 'log':
                a = self.poly(f[2])
                self.facts.append(z3.Implies(a > 0, r <= a - 1))
                self.facts.append(z3.Implies(a > 1, r > 0))
            if f[1] in ('norm_cdf', 'norm_sf'):
                self.facts.append(z3.And(r > 0, r < 1))
            if f[1] == 'norm_pdf':
                self.facts.append(r > 0)
        elif k == 'sum':
            self.sums.append((f, r))
        elif k == 'vmax':
            self.vmaxs.append((f, r))
            if E.known_nonneg(f[2]):
                self.facts.append(r >= 0)
        return r

    def cond(self, c):
        k = c[0]
        if k == 'ge':
            return self.poly(c[1]) >= 0
        if k == 'gt':
            return self.poly(c[1]) > 0
        if k == 'eq':
            return self.poly(c[1]) == 0
        if k == 'and':
            return z3.And([self.cond(d) for d in c[1:]])
        if k == 'or':
            return z3.Or([self.cond(d) for d in c[1:]])
        if k == 'not':
            d = c[1]
            if d[0] == 'eq' and E.is_int(d[1]):
                q = self.poly(d[1])
                return z3.Or(q >= 1, q <= -1)
            return z3.Not(self.cond(d))
        if k == 'true':
            return z3.BoolVal(True)
        if k == 'false':
            return z3.BoolVal(False)
        if k == 'bv':
            r = self.vars.get(c)
            if r is None:
                self.count += 1
                r = self.vars[c] = z3.Bool('%s!%d' % (c[1], self.count))
            return r
        raise Unsupported('cond %r' % (k,))


MONO = {'exp', 'norm_cdf', 'log'}
ARR_FACTS = {}
ARR_LABELS = {}     # arrays of labels 0..K-1, each present


# ------------------------------------------------------------------ helpers
def factors_of(x, acc=None):
    """all factors (recursively, without entering sum bodies)"""
    if acc is None:
        acc = {}
    if isinstance(x, Poly):
        for m in x.terms:
            for f, e in m:
                if f not in acc:
                    acc[f] = True
                    if f[0] == 'ite':
                        factors_of(f[1], acc)
                        factors_of(f[2], acc)
                        factors_of(f[3], acc)
                    elif f[0] not in ('sum', 'vmax', 'v', 'b'):
                        for a in f[1:]:
                            if isinstance(a, Poly):
                                factors_of(a, acc)
    elif isinstance(x, tuple) and x:
        if x[0] in ('ge', 'gt', 'eq'):
            factors_of(x[1], acc)
        elif x[0] in ('and', 'or', 'not'):
            for d in x[1:]:
                factors_of(d, acc)
        elif x[0] == 'bv':
            for d in x[2:]:
                factors_of(d, acc)
    return acc


def map_poly(p, g):
    """rebuild p applying g to factors first (g returns Poly or None)"""
    r = E.ZERO
    for m, c in p.terms.items():
        t = Poly.const(c)
        for f, e in m:
            q = g(f)
            t = t * (Poly({((f, 1),): Fraction(1)}) if q is None else q) ** e
        r = r + t
    return r


def rewrite(p, g, memo=None):
    """bottom-up rewriting of factors; g(factor)->Poly or None.  Enters sums."""
    if memo is None:
        memo = {}

    def rf(f):
        r = memo.get(f)
        if r is not None:
            return r
        k = f[0]
        if k in ('v', 'b'):
            q = g(f)
            r = Poly.factor(f) if q is None else q
        elif k == 'e':
            nf = ('e', f[1]) + tuple(rp(a) for a in f[2:])
            q = g(E.intern(nf))
            r = Poly.factor(nf) if q is None else q
        elif k == 'abs':
            r = E.absv(rp(f[1]))
        elif k == 'inv':
            r = E.inv(rp(f[1]))
        elif k == 'sqrt':
            q = rp(f[1])
            if f[1] in E.NNPOLY:
                E.mark_nonneg(q)
            r = E.sqrt(q)
        elif k == 'fn':
            r = E.fn(f[1], *[rp(a) for a in f[2:]])
        elif k == 'ite':
            q = g(f)
            r = E.ite(rc(f[1]), rp(f[2]), rp(f[3])) if q is None else rp(q)
        elif k == 'sum':
            vs = [E.fresh_int('s') for _ in f[1]]
            doms, body = E.open_binder(f, vs)
            r = E.msum(list(zip(vs, [rp(d) for d in doms])), rp(body))
        elif k == 'vmax':
            v = E.fresh_int('m')
            r = E.vmax(rp(f[1]), v, rp(E.open_binder(f, [v])[1]))
        else:
            r = Poly.factor(f)
        memo[f] = r
        return r

    def rp(q):
        return map_poly(q, rf)

    def rc(c):
        return rewrite_cond(c, g, memo)
    return rp(p)


def rewrite_cond(c, g, memo=None):
    if memo is None:
        memo = {}
    k = c[0]
    if k in ('ge', 'gt', 'eq'):
        return E.cmp_(k, rewrite(c[1], g, memo))
    if k == 'and':
        return E.and_(*[rewrite_cond(d, g, memo) for d in c[1:]])
    if k == 'or':
        return E.or_(*[rewrite_cond(d, g, memo) for d in c[1:]])
    if k == 'not':
        return E.neg(rewrite_cond(c[1], g, memo))
    return c


# ------------------------------------------------------------------ path engine
class PathLimit(Exception):
    pass


class Infeasible(Exception):
    """assumptions contradictory on this path"""


class Explorer(object):
    def __init__(self, max_paths=300, deadline=None):
        self.max_paths = max_paths
        self.deadline = deadline
        self.npaths = 0

    def run(self, fn, on_path):
        """fn() executed once per path"""
        work = [()]
        while work:
            if self.npaths >= self.max_paths:
                raise PathLimit('more than %d paths' % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise PathLimit('time budget')
            prefix = work.pop()
            self.npaths += 1
            st = PathState(prefix)
            E._fresh[0] = 0
            E.POS.clear()
            E.NONNEG.clear()
            ARR_FACTS.clear()
            ARR_LABELS.clear()
            E.FF_CLEAR()
            ENG.reset()
            ENG.decider = st.decide
            ENG.choose = st.choose
            ENG.path = st
            ENG.div_obligs = []
            ENG.forall_cond = st.forall_cond
            E.ORDER_ORACLE[0] = st.oracle
            try:
                on_path(st, fn)
            finally:
                E.ORDER_ORACLE[0] = None
                ENG.decider = None
            work.extend(st.alternatives)


class PathState(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.alternatives = []
        self.forall_names = {}
        self.forall_defs = {}
        self.tr = None
        self.ocache = {}
        self.notes = []
        self.arr_rules = []     # (name, fn(idx)->Poly) rewrite rules from forall facts
        self._busy = False

    # -- facts
    def add(self, c):
        if c == E.TRUE:
            return
        if c[0] == 'and':
            for d in c[1:]:
                self.add(d)
            return
        if c in ENG.pc:
            return
        if c[0] == 'bv' and c[1] in self.forall_defs:
            self.add_forall(self.forall_defs[c[1]])
            ENG.pc.append(c)
            self.ocache.clear()
            return
        if c[0] == 'not' and c[1][0] == 'bv' and c[1][1] in self.forall_defs:
            arr = self.forall_defs[c[1][1]]
            idx = tuple(E.fresh_int('sk') for _ in arr._shape)
            ENG.pc.append(c)
            for d in S.in_dom(idx, arr._shape):
                self.add(d)
            ENG.skolems.append(idx)
            self.add(E.neg(arr.get(idx)))
            self.ocache.clear()
            return
        ENG.pc.append(c)
        self.ocache.clear()
        if c[0] == 'eq':
            self._zero_sums(c[1])
        elif c[0] == 'not' and c[1][0] == 'eq':
            self._positive_count(c[1][1])
        elif c[0] == 'ge' and E.known_nonneg(-c[1]):
            self.add(E.cmp_('eq', -c[1]))

    def _zero_sums(self, p):
        """sum of nonnegative terms == 0  =>  every term is zero"""
        q = p
        if len(q.terms) == 1 and all(len(m) == 1 and m[0][0][0] == 'sqrt' for m in q.terms):
            (m, c), = q.terms.items()
            q = m[0][0][1]
            ENG.pc.append(('eq', q))
        if q.is_zero() or not E.known_nonneg(q):
            return
        for m, c in q.terms.items():
            if len(m) == 1 and m[0][0][0] == 'sum' and m[0][1] == 1:
                f = m[0][0]
                doms = f[1]
                if any(x[0] == 'b' for d in doms for x in d.free()):
                    continue

                def cond(idx, f=f):
                    env = {('b', f[3] + k): v for k, v in enumerate(idx)}
                    t = E.ONE
                    for g, e in f[2]:
                        t = t * E.subst(Poly.factor(g), env)
                    return E.cmp_('eq', t)
                self.add_forall(SymArr.make(cond, doms, 'b'))

    def _positive_count(self, p):
        """a count that is not zero  =>  some position is counted"""
        if len(p.terms) != 1:
            return
        (m, c), = p.terms.items()
        if len(m) != 1 or m[0][0][0] != 'sum' or m[0][1] != 1:
            return
        f = m[0][0]
        if len(f[2]) != 1 or f[2][0][0][0] != 'ite' or any(x[0] == 'b' for d in f[1] for x in d.free()):
            return
        idx = tuple(E.fresh_int('sk') for _ in f[1])
        env = {('b', f[3] + k): v for k, v in enumerate(idx)}
        for d in S.in_dom(idx, f[1]):
            self.add(d)
        ENG.skolems.append(idx)
        self.add(E.neg(E.cmp_('eq', E.subst(Poly.factor(f[2][0][0]), env))))

    def add_forall(self, arr):
        ENG.foralls.append(arr)
        # equational facts over a whole array become rewrite rules
        idx = tuple(E.var('frl%d' % k, 'I') for k in range(arr.ndim))
        c = arr.get(idx)
        lits = c[1:] if c[0] == 'and' else (c,)
        for l in lits:
            if l[0] == 'eq':
                p = l[1]
                for m, co in p.terms.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'e' and m[0][0][2:] == idx:
                        f = m[0][0]
                        rest = (p - Poly({m: co})).scale(-1 / co)
                        if ('arr', f[1]) in rest.free():
                            continue
                        if ARR_SHAPES.get(f[1]) != tuple(arr._shape):
                            continue
                        self.arr_rules.append((f[1], idx, rest))
                        break

    def forall_cond(self, arr, body, probe):
        key = (body, tuple(arr._shape))
        nm = self.forall_names.get(key)
        if nm is None:
            # body[probe] under reversed polarity?
            nm = self.forall_names[key] = 'all#%d' % len(self.forall_names)
            self.forall_defs[nm] = arr
        # decided cheaply?
        idx = tuple(E.fresh_int('pr') for _ in arr._shape)
        r = self.entails(E.or_(*([E.neg(d) for d in S.in_dom(idx, arr._shape)] + [arr.get(idx)])))
        if r:
            return E.TRUE
        return ('bv', nm)

    # -- queries
    def solver(self, timeout, extra=()):
        tr = Tr()
        s = z3.SolverFor('QF_NRA') if False else z3.Solver()
        s.set('timeout', int(timeout * 1000))
        cs = [tr.cond(c) for c in itertools.chain(ENG.pc, extra, derived_pc(self))]
        return tr, s, cs

    def quick(self, c, timeout=1.0):
        """sat check of pc + c -> True/False/None"""
        fr = E_free_conds([c])
        tr, s, cs = self.solver(timeout, [c])
        for x in self.inst_foralls([c]):
            cs.append(tr.cond(x))
        for x in cs:
            s.add(x)
        for x in tr.facts:
            s.add(x)
        r = s.check()
        return True if r == z3.sat else False if r == z3.unsat else None

    def inst_foralls(self, goals, limit=60, more=(), exact=False):
        out = []
        if not ENG.foralls:
            return out
        terms = index_terms(list(goals) + ENG.pc) + list(more)
        for arr in ENG.foralls:
            first = [tuple(s) for s in ENG.skolems if len(s) == arr.ndim]
            for combo in dict.fromkeys(first[-limit:] + list(() if exact and arr.ndim > 1 else itertools.islice(itertools.product(terms, repeat=arr.ndim), limit))):
                dom = S.in_dom(combo, arr._shape)
                body = arr.get(combo)
                c = E.or_(*([E.neg(d) for d in dom] + [body]))
                if c != E.TRUE:
                    out.append(c)
                    if self.arr_rules:
                        c2 = arr_simplify(c, self.arr_rules)
                        if c2 != c and c2 != E.TRUE:
                            out.append(c2)
        return out

    def entails(self, c):
        if c == E.TRUE:
            return True
        if c == E.FALSE:
            return False
        if c in ENG.pc:
            return True
        return self.quick(E.neg(c)) is False

    def oracle(self, c):
        if c in self.ocache:
            return self.ocache[c]
        if self._busy:
            return None
        self._busy = True
        try:
            r = None
            if c in ENG.pc:
                r = True
            elif E.neg(c) in ENG.pc:
                r = False
            elif self.quick(E.neg(c), .5) is False:
                r = True
            elif self.quick(c, .5) is False:
                r = False
        finally:
            self._busy = False
        self.ocache[c] = r
        return r

    # -- nondeterminism
    def decide(self, c):
        if c == E.TRUE:
            return True
        if c == E.FALSE:
            return False
        if c[0] == 'and':
            for d in c[1:]:
                if not self.decide(d):
                    return False
            return True
        if c[0] == 'or':
            for d in c[1:]:
                if self.decide(d):
                    return True
            return False
        k = len(self.trail)
        n = E.neg(c)
        if c in ENG.pc:
            return True
        if n in ENG.pc:
            return False
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            pos = self.quick(c)
            if pos is False:
                v = ('f', False)
            else:
                ng = self.quick(n)
                if ng is False:
                    v = ('f', True)
                else:
                    v = ('d', True)
                    self.alternatives.append(tuple(self.trail) + (('d', False),))
        self.trail.append(v)
        self.add(c if v[1] else n)
        return v[1]

    def choose(self, n, label=''):
        k = len(self.trail)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = ('c', 0)
            for j in range(n - 1, 0, -1):
                self.alternatives.append(tuple(self.trail) + (('c', j),))
        self.trail.append(v)
        return v[1]


ARR_SHAPES = {}


def index_terms(goals):
    """integer terms used as array indices in the goals"""
    out = []
    for g in goals:
        for f in factors_of(g):
            if f[0] == 'e':
                for a in f[2:]:
                    if a not in out:
                        out.append(a)
            if f[0] == 'bv':
                for a in f[2:]:
                    if a not in out:
                        out.append(a)
    for idx in ENG.skolems:
        for a in idx:
            if a not in out:
                out.append(a)
    return out


def E_free_conds(cs):
    return None


def _ff_clear():
    pass


E.FF_CLEAR = _ff_clear


# ------------------------------------------------------------------ proving
class Result(object):
    def __init__(self, ok, how, model=None, detail=''):
        self.ok, self.how, self.model, self.detail = ok, how, model, detail


def prove(goal, timeout=8.0, extra=(), deadline=None):
    """discharge goal under the current path condition"""
    st = ENG.path
    if goal == E.TRUE:
        return Result(True, 'structural')
    if goal[0] == 'and':
        hows = []
        for d in goal[1:]:
            r = prove(d, timeout, extra)
            if not r.ok:
                return r
            hows.append(r.how)
        return Result(True, '+'.join(sorted(set(hows))))
    if goal[0] == 'bv' and goal[1] in st.forall_defs:
        arr = st.forall_defs[goal[1]]
        idx = tuple(E.fresh_int('g') for _ in arr._shape)
        return with_facts(S.in_dom(idx, arr._shape), lambda: prove(arr.get(idx), timeout, extra), sk=idx)
    # substitution of scalar equalities and array rules
    g2 = simplify_goal(goal, st)
    if g2 == E.TRUE:
        return Result(True, 'structural')
    if g2[0] == 'and':
        return prove(g2, timeout, extra)
    g2 = clear_inv(g2)
    if g2 == E.TRUE:
        return Result(True, 'structural')
    has_sum = g2[0] in ('ge', 'eq', 'gt') and any(f[0] == 'sum' for m in g2[1].terms for f, e in m)
    best = None
    order = (tac_sums, z3_prove, tac_split, tac_max, tac_deep) if has_sum else (z3_prove, tac_split, tac_max, tac_deep)
    for tac in order:
        try:
            r = tac(g2, timeout, extra)
        except Unsupported:
            r = None
        if r is not None and r.ok:
            return r
        if r is not None and (best is None or tac is z3_prove):
            best = r
    return best or Result(False, 'unknown')


def clear_inv(goal):
    """multiply an (in)equality by known-positive denominators"""
    if goal[0] not in ('ge', 'gt', 'eq'):
        return goal
    p = goal[1]
    for _ in range(6):
        cand = None
        for m, c in p.terms.items():
            for f, e in m:
                if f[0] == 'inv' and (E.known_pos(f[1]) or oracle_pos(f[1])):
                    cand = f
                    break
            if cand:
                break
        if cand is None:
            break
        k = max(e for m, c in p.terms.items() for f, e in m if f == cand)
        r = E.ZERO
        for m, c in p.terms.items():
            e0 = dict(m).get(cand, 0)
            rest = tuple((f, e) for f, e in m if f != cand)
            r = r + Poly({rest: c}) * cand[1] ** (k - e0)
        p = r
    return E.cmp_(goal[0], p)


def oracle_pos(q):
    c = E.cmp_('gt', q)
    return c == E.TRUE or c in ENG.pc


def with_facts(facts, fn, sk=None):
    st = ENG.path
    npc, nfa, nsk, nar = len(ENG.pc), len(ENG.foralls), len(ENG.skolems), len(st.arr_rules)
    st.ocache = {}
    try:
        for f in facts:
            if f == E.FALSE:
                return Result(True, 'empty domain')
            st.add(f)
        if sk:
            ENG.skolems.append(tuple(sk))
        return fn()
    finally:
        del ENG.pc[npc:]
        del ENG.foralls[nfa:]
        del ENG.skolems[nsk:]
        del st.arr_rules[nar:]
        st.ocache = {}


def simplify_goal(goal, st, rounds=4):
    g = goal
    for _ in range(rounds):
        g0 = g
        # array rewrite rules
        rules = st.arr_rules
        if rules:
            g = arr_simplify(g, rules)
        # scalar equalities
        for c in ENG.pc:
            if c[0] == 'eq':
                v, val = solve_eq(c[1])
                if v is not None and v in cond_free_all(g):
                    g = rewrite_cond(g, lambda f: val if f == v else None)
        # decided conditionals
        for f in list(factors_of(g)):
            if f[0] == 'ite':
                c = f[1]
                r = True if c in ENG.pc else False if E.neg(c) in ENG.pc else st.oracle(c)
                if r is not None:
                    g = replace_factor(g, f, f[2] if r else f[3])
        if g == g0:
            break
    return g


def arr_simplify(g, rules):
    def ar(f):
        if f[0] == 'e':
            for nm, idx, rest in rules:
                if f[1] == nm:
                    return E.subst(rest, {E.the_factor(v): a for v, a in zip(idx, f[2:])})
        return None
    return rewrite_cond(g, ar)


def derived_pc(st):
    """facts of the path condition rewritten by the array equations known"""
    if not st.arr_rules:
        return []
    out = []
    for c in ENG.pc:
        if c[0] in ('ge', 'gt', 'eq', 'and', 'or', 'not'):
            d = arr_simplify(c, st.arr_rules)
            if d != c and d != E.TRUE:
                out.append(d)
    return out


def replace_factor(c, f, val):
    if c[0] in ('ge', 'gt', 'eq'):
        return E.cmp_(c[0], repl_p(c[1], f, val))
    if c[0] in ('and', 'or'):
        return (E.and_ if c[0] == 'and' else E.or_)(*[replace_factor(d, f, val) for d in c[1:]])
    if c[0] == 'not':
        return E.neg(replace_factor(c[1], f, val))
    return c


def repl_p(p, f, val):
    r = E.ZERO
    for m, co in p.terms.items():
        t = Poly.const(co)
        for h, e in m:
            if h == f:
                t = t * val ** e
            elif f in factors_of(Poly({((h, 1),): Fraction(1)})) and h[0] not in ('sum', 'vmax'):
                t = t * _rebuild(h, f, val) ** e
            else:
                t = t * Poly({((h, 1),): Fraction(1)}) ** e
        r = r + t
    return r


def _rebuild(h, f, val):
    k = h[0]
    if k == 'abs':
        return E.absv(repl_p(h[1], f, val))
    if k == 'inv':
        return E.inv(repl_p(h[1], f, val))
    if k == 'sqrt':
        q = repl_p(h[1], f, val)
        if h[1] in E.NNPOLY:
            E.mark_nonneg(q)
        return E.sqrt(q)
    if k == 'fn':
        return E.fn(h[1], *[repl_p(a, f, val) for a in h[2:]])
    if k == 'ite':
        return E.ite(replace_factor(h[1], f, val), repl_p(h[2], f, val), repl_p(h[3], f, val))
    if k == 'e':
        return E.elem(h[1], *[repl_p(a, f, val) for a in h[2:]])
    return Poly.factor(h)


def cond_free_all(c):
    return E.cond_free(c)


def solve_eq(p):
    """p == 0 as v := val for a scalar variable"""
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ('v',):
            v = m[0][0]
            rest = (p - Poly({m: c})).scale(-1 / c)
            if v not in rest.free():
                return v, rest
    return None, None


def z3_prove(goal, timeout, extra=()):
    st = ENG.path
    tr = Tr()
    neg = E.neg(goal)
    cs = [tr.cond(c) for c in ENG.pc] + [tr.cond(c) for c in extra] + [tr.cond(c) for c in derived_pc(st)]
    gz = tr.cond(neg)
    sks = []
    lemmas = auto_lemmas(tr, goal, sks)
    if any(a.ndim > 1 for a in ENG.foralls):
        # first with the positions that occur as pairs only
        few = [tr.cond(x) for x in st.inst_foralls([goal] + list(extra), more=sks, exact=True)]
        r = _z3(cs + few + lemmas + [gz], tr, timeout / 4)
        if r is not None and r.ok:
            return r
    for x in st.inst_foralls([goal] + list(extra), more=sks):
        cs.append(tr.cond(x))
    cs += lemmas
    if len(tr.vmaxs) > len(sks):
        cs += auto_lemmas(tr, goal, sks)
    return _z3(cs + [gz], tr, timeout)


STATS = {'z3_time': 0., 'z3_calls': 0, 'cvc5_time': 0., 'cvc5_calls': 0}


def _z3(cs, tr, timeout):
    allc = cs + tr.facts
    last = None
    for mk, frac in ((lambda: z3.Solver(), .35), (lambda: z3.Then('simplify', 'purify-arith', 'solve-eqs', 'qfnra-nlsat').solver() if False else z3.Tactic('qfnra-nlsat').solver(), .35), (lambda: z3.SolverFor('QF_NRA'), .3)):
        try:
            s = mk()
            s.set('timeout', max(200, int(timeout * 1000 * frac)))
            s.add(*allc)
            t0 = time.time()
            r = s.check()
            STATS['z3_time'] += time.time() - t0
            STATS['z3_calls'] += 1
        except z3.Z3Exception as e:
            last = Result(False, 'unknown', detail=str(e))
            continue
        if r == z3.unsat:
            return Result(True, 'z3')
        if r == z3.sat:
            return Result(False, 'sat', model=extract(s.model(), tr))
        last = Result(False, 'unknown', detail=s.reason_unknown())
    return last


def extract(m, tr):
    out = {}
    for f, v in tr.vars.items():
        if isinstance(f, tuple) and f and f[0] in ('v', 'e'):
            try:
                x = m.eval(v, model_completion=True)
                if z3.is_algebraic_value(x):
                    x = x.approx(10)
                val = float(x.numerator_as_long()) / float(x.denominator_as_long())
            except Exception:
                continue
            key = f[1] if f[0] == 'v' else '%s[%s]' % (f[1], ','.join(E.show(a) for a in f[2:]))
            out[key] = val
    return out


def auto_lemmas(tr, goal, sks=None):
    """facts about sum and max atoms present in the translation"""
    out = []
    # max: upper bound at index terms, attained
    terms = None
    for f, r in list(tr.vmaxs):
        if terms is None:
            terms = index_terms([goal] + ENG.pc)
        n, body = f[1], f[2]
        for t in terms:
            d = S.in_dom((t,), (n,))
            b = E.subst(body, {('b', f[3]): t})
            out.append(z3.Implies(z3.And([tr.cond(x) for x in d]), r >= tr.poly(b)))
        if (f, 'att') not in tr.vars:
            sk = E.fresh_int('amx')
            tr.vars[(f, 'att')] = sk
            if sks is not None:
                sks.append(sk)
            d = S.in_dom((sk,), (n,))
            b = E.subst(body, {('b', f[3]): sk})
            out.append(z3.And([tr.cond(x) for x in d] + [r == tr.poly(b)]))
            ENG_terms = terms
            for f2, r2 in list(tr.vmaxs):
                if f2 is not f and f2[1] == n:
                    b2 = E.subst(f2[2], {('b', f2[3]): sk})
                    out.append(r2 >= tr.poly(b2))
    # Cauchy-Schwarz
    sums = list(tr.sums)
    byf = {f: r for f, r in sums}
    for f, r in sums:
        body = f[2]
        gs = []
        for g, e in body:
            gs += [g] * e
        if len(gs) == 2 and gs[0] != gs[1] and len(f[1]) == 1:
            p1 = _canon_from(f, ((gs[0], 2),))
            p2 = _canon_from(f, ((gs[1], 2),))
            out.append(r * r <= tr.poly(p1) * tr.poly(p2))
        elif len(gs) == 1 and gs[0][0] == 'ite' and len(f[1]) == 1 and (gs[0][2].is_zero() or gs[0][3].is_zero()):
            # over the entries of a mask
            k = 2 if gs[0][3].is_zero() else 3
            if len(gs[0][k].terms) != 1:
                continue
            (m, c), = gs[0][k].terms.items()
            if len(m) != 2 or any(e != 1 for g, e in m):
                continue
            sq = []
            for g, e in m:
                t = list(gs[0])
                t[k] = Poly({((g, 2),): c})
                sq.append(_canon_from(f, ((tuple(t), 1),)) if c == 1 else None)
            if None not in sq:
                out.append(r * r <= tr.poly(sq[0]) * tr.poly(sq[1]))
    return out


def _canon_from(f, mono):
    """the sum over the indices of f of mono (a monomial in f's bound indices)"""
    vs = [E.fresh_int('s') for _ in f[1]]
    doms, body = E.open_binder(('sum', f[1], mono, f[3]), vs)
    return E.msum(list(zip(vs, doms)), body)


def tac_sums(goal, timeout, extra):
    """prove  rest + sum_{i} body_i  >= 0 (or == 0) from rest>=0 and body_i>=0"""
    if goal[0] not in ('ge', 'eq', 'gt'):
        return None
    p = goal[1]
    groups = {}
    rest = E.ZERO
    for m, c in p.terms.items():
        sf = [(f, e) for f, e in m if f[0] == 'sum']
        if len(sf) == 1 and sf[0][1] == 1:
            others = tuple((f, e) for f, e in m if f[0] != 'sum')
            f = sf[0][0]
            own = any(x[0] == 'b' for d in f[1] for x in d.free())
            groups.setdefault((f[1], f[3] if own else None), []).append((Poly({others: c}), f))
        else:
            rest = rest + Poly({m: c})
    if not groups:
        return None
    # the constant part of sums: n * const can be distributed; try rest>=0 first
    hows = ['sum-pointwise']

    def body_of(items, idx):
        b = E.ZERO
        for coef, f in items:
            b = b + (coef if f is None else coef * E.open_binder(f, idx)[1])
        return b
    # move terms  c*n  (n a single-index domain) into the body
    for doms in list(groups):
        if len(doms[0]) == 1:
            d = doms[0][0]
            if len(d.terms) == 1:
                (dm, dc), = d.terms.items()
                if len(dm) == 1 and dm[0][1] == 1 and dc == 1:
                    moved = E.ZERO
                    for m, c in list(rest.terms.items()):
                        if dm[0] in m and not any(f[0] == 'sum' for f, e in m):
                            others = tuple(x for x in m if x != dm[0])
                            groups[doms].append((Poly({others: c}), None))
                            moved = moved + Poly({m: c})
                    rest = rest - moved
    kind = goal[0]
    rk = 'eq' if kind == 'eq' else kind
    if not rest.is_zero() or kind == 'gt':
        r = prove(E.cmp_(rk, rest), timeout, extra)
        if not r.ok:
            return None
        hows.append(r.how)
    for doms, items in groups.items():
        idx = tuple(E.fresh_int('q') for _ in doms[0])
        dd = [E.subst(d, {('b', (doms[1] or 0) + k): v for k, v in enumerate(idx)}) for d in doms[0]]
        b = body_of(items, idx)
        r = with_facts(S.in_dom(idx, dd), lambda: prove(E.cmp_('eq' if kind == 'eq' else 'ge', b), timeout, extra))
        if not r.ok:
            return None
        hows.append(r.how)
    return Result(True, '+'.join(sorted(set(hows))))


def tac_split(goal, timeout, extra, depth=0):
    """case split on conditionals and absolute values appearing in the goal"""
    if depth > 7:
        return None
    fs = factors_of(goal)
    c = None
    for f in fs:
        if f[0] == 'ite':
            inner = [h for h in factors_of(f[1]) if h[0] in ('ite', 'abs')]
            if not inner:
                c = f[1]
                break
    if c is None:
        for f in fs:
            if f[0] == 'abs' and not [h for h in factors_of(f[1]) if h[0] in ('ite', 'abs')]:
                c = E.cmp_('ge', f[1])
                if c in (E.TRUE, E.FALSE):
                    c = None
                    continue
                break
    if c is None:
        return None
    for lit in (c, E.neg(c)):
        def go():
            g = resolve(goal, lit)
            g = simplify_goal(g, ENG.path)
            if g == E.TRUE:
                return Result(True, 'structural')
            r = z3_prove(g, timeout / 2, extra)
            if r.ok:
                return r
            if r.how == 'sat' and not any(f[0] in ('sum', 'vmax', 'ite', 'abs') for f in factors_of(g)):
                return r
            r2 = tac_sums(g, timeout / 2, extra)
            if r2 is not None and r2.ok:
                return r2
            return tac_split(g, timeout, extra, depth + 1)
        if E.neg(lit) in ENG.pc:
            continue
        r = with_facts([lit], go)
        if r is None or not r.ok:
            return r
    return Result(True, 'case-split+z3')


def tac_max(goal, timeout, extra):
    """rest - c * max_i body_i >= 0 (c >= 0, the range not empty) from
    rest - c * body_i >= 0 for every i"""
    if goal[0] not in ('ge', 'gt'):
        return None
    p = goal[1]
    hit = None
    for m, c in p.terms.items():
        vs = [(f, e) for f, e in m if f[0] == 'vmax']
        if len(vs) == 1 and vs[0][1] == 1 and c < 0:
            others = tuple(x for x in m if x != vs[0])
            if all(E.known_nonneg_factor(f) or e % 2 == 0 for f, e in others):
                hit = (m, c, vs[0][0], others)
                break
    if hit is None:
        return None
    m, c, f, others = hit
    n = f[1]
    if not prove(E.cmp_('ge', n - 1), timeout, extra).ok:
        return None
    i = E.fresh_int('g')
    body = E.open_binder(f, (i,))[1]
    g = E.cmp_(goal[0], p - Poly({m: c}) + Poly({others: c}) * body)
    r = with_facts([E.cmp_('ge', i), E.cmp_('ge', n - 1 - i)], lambda: prove(g, timeout, extra), sk=(i,))
    return Result(True, 'max+' + r.how) if r.ok else None


def _inner_conds(x, acc, inside=False):
    """conditions of conditionals inside sums and maxima that do not depend on the
    index"""
    for f in factors_of(x):
        if f[0] == 'ite' and inside and not any(y[0] == 'b' for y in E.cond_free(f[1])):
            acc[f[1]] = True
        if f[0] == 'sum':
            for g, e in f[2]:
                _inner_conds(Poly({((g, 1),): Fraction(1)}), acc, True)
        elif f[0] == 'vmax':
            _inner_conds(f[2], acc, True)


def tac_deep(goal, timeout, extra, depth=0):
    """case split on a condition that is the same for every term of a sum"""
    acc = {}
    _inner_conds(goal, acc)
    conds = [c for c in acc if not [h for h in factors_of(c) if h[0] in ('ite', 'abs')]]
    if not conds or DEEP[0] > 2:
        return None
    c = conds[0]
    for lit in (c, E.neg(c)):
        def go():
            def dec(f):
                if f[0] == 'ite':
                    if f[1] == lit:
                        return f[2]
                    if f[1] == E.neg(lit):
                        return f[3]
            return prove(rewrite_cond(goal, dec), timeout, extra)
        if E.neg(lit) in ENG.pc:
            continue
        DEEP[0] += 1
        try:
            r = with_facts([lit], go)
        finally:
            DEEP[0] -= 1
        if r is None or not r.ok:
            return None
    return Result(True, 'case-split+z3')


DEEP = [0]


def resolve(goal, lit):
    """replace conditionals / absolute values decided by lit"""
    def fix(p):
        out = p
        for f in list(factors_of(p)):
            if f[0] == 'ite':
                if f[1] == lit:
                    out = repl_p(out, f, f[2])
                elif f[1] == E.neg(lit):
                    out = repl_p(out, f, f[3])
            elif f[0] == 'abs':
                c = E.cmp_('ge', f[1])
                if c == lit:
                    out = repl_p(out, f, f[1])
                elif E.neg(c) == lit:
                    out = repl_p(out, f, -f[1])
        return out
    if goal[0] in ('ge', 'gt', 'eq'):
        return E.cmp_(goal[0], fix(goal[1]))
    if goal[0] in ('and', 'or'):
        return (E.and_ if goal[0] == 'and' else E.or_)(*[resolve(d, lit) for d in goal[1:]])
    if goal[0] == 'not':
        return E.neg(resolve(goal[1], lit))
    return goal
