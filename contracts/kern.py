"""contracts of the compiled kernels, proved by pyvc/imp.py over the text
extracted from the Cython sources on every run"""
import os
import numpy as np
from pyvc import imp, strip, repoenv
from pyvc.imp import z3, ZV, R, I, Arr, Idx
from pyvc.expr import Unsupported

SRC = {}


def source(name):
    p = os.path.join(repoenv.REPO, name)
    if p not in SRC:
        try:
            SRC[p] = strip.python_of(open(p).read())
        except (strip.Unreadable, SyntaxError, OSError) as e:
            SRC[p] = e
    if isinstance(SRC[p], Exception):
        raise Unsupported('extraction: %s' % SRC[p])
    return SRC[p]


def run(w, path, fname, body, spec=None, extra=None, timeout=10., budget=150):
    """prove body(engine, function) on every path"""
    import time
    e = imp.Engine(source(path), None, timeout=timeout, deadline=time.time() + budget)

    def one(e):
        f = e.compile(fname, extra(e) if extra else {})
        body(e, f)
    e.run(one, spec, w.log)
    from pyvc import engine as G
    G.STATS['z3_calls'] = G.STATS.get('z3_calls', 0) + e.stats['z3_calls']
    G.STATS['z3_time'] = G.STATS.get('z3_time', 0.) + e.stats['z3_time']


def pos(t):
    return z3.If(t >= 0, t, z3.RealVal(0))


# ---------------------------------------------------------------- roots of sum w (n - w t)+ = slope t + b
class Pieces(imp.Loop):
    """the part of the sum above the m largest knots: T1 = sum w^2, T2 = sum w^2 knot"""

    def __init__(self, slope, b, weight=None):
        self.slope, self.b, self.weight = slope, b, weight

    def order(self, e):
        if len(e.orders) != 1:
            raise Unsupported('%d orderings' % len(e.orders))
        return e.orders[0]

    def W(self, e, r):
        if self.weight is None:
            return z3.RealVal(1)
        o = self.order(e)
        i = o.at(z3.simplify(r))
        if o.src.via is not None:
            i = o.src.via.at(i)
        v = self.weight.get(i)
        return v * v

    def K(self, e, r):
        return self.order(e).K(z3.simplify(r))

    def T(self, e, m):
        o = self.order(e)
        m = z3.simplify(m)
        f2 = z3.Function('T2', z3.IntSort(), z3.RealSort())
        f1 = z3.Function('T1', z3.IntSort(), z3.RealSort())
        e.fact(f2(z3.IntVal(0)) == 0)
        e.fact(f1(z3.IntVal(0)) == 0)
        return f1(m), f2(m)

    def step(self, e, m):
        """T at m+1 from T at m"""
        q = self.order(e).n
        a1, a2 = self.T(e, m)
        b1, b2 = self.T(e, m + 1)
        W, K = self.W(e, q - m - 1), self.K(e, q - m - 1)
        dom = z3.And(0 <= m, m < q)
        e.fact(z3.Implies(dom, z3.And(b1 == a1 + W, b2 == a2 + W * K)))

    def unfold(self, e, k, env, it):
        it = z3.simplify(it)
        self.step(e, it)

    def V(self, e, m):
        q = self.order(e).n
        t1, t2 = self.T(e, m)
        X = self.K(e, q - 1 - m)
        return t2 - t1 * X - self.slope * X

    def scalars(self, e, k, env, it):
        q = self.order(e).n
        t1, t2 = self.T(e, it)
        return [('minus slope', -self.slope - t1), ('plus slope', self.slope + t1), ('knot', self.K(e, q - 1 - it)), ('value', self.V(e, it)),
                ('value on the left', self.V(e, it) + self.slope * self.K(e, q - 1 - it)),
                ('prefix', t2), ('weight', t1), ('count', it), ('rank', q - 1 - it), ('next rank', q - 2 - it)]

    def facts(self, e, k, env, it):
        return [('count', it <= self.order(e).n - 1), ('value at most b', z3.Or(it == 0, self.V(e, it) <= self.b)), ('weight positive', z3.Or(it == 0, self.T(e, it)[0] > 0)), ('weight', self.T(e, it)[0] >= 0)]

    # -- lemmas about F(t) = sum over the ranks of W (K - t)+
    def S(self, e, m, t):
        f = z3.Function('S', z3.IntSort(), z3.RealSort(), z3.RealSort())
        return f(z3.simplify(m), t)

    def sstep(self, e, m, t):
        q = self.order(e).n
        e.fact(self.S(e, z3.IntVal(0), t) == 0)
        e.fact(z3.Implies(z3.And(0 <= m, m < q), self.S(e, m + 1, t) == self.S(e, m, t) + self.W(e, q - m - 1) * pos(self.K(e, q - m - 1) - t)))

    def lemmas(self, e, m, t):
        """S(q,t) = T2(m) - T1(m) t when K(q-m-1) <= t <= K(q-m); proved by induction, instantiated at m, t"""
        q = self.order(e).n
        k = z3.Int(e.name('ind'))
        P = lambda j: z3.Implies(z3.Or(j == 0, t <= self.K(e, q - j)), self.S(e, j, t) == self.T(e, j)[1] - self.T(e, j)[0] * t)
        self.sstep(e, k, t)
        self.step(e, k)
        e.prove('lemma sum above the cut (base)', P(z3.IntVal(0)))
        e.prove('lemma sum above the cut (step)', z3.Implies(z3.And(0 <= k, k < q, P(k)), P(z3.simplify(k + 1))))
        inst = z3.Implies(z3.And(0 <= m, m <= q), P(m))
        below = z3.Or(m == q, t >= self.K(e, q - m - 1))
        Q = lambda j: self.S(e, j, t) == self.S(e, m, t)
        j = z3.Int(e.name('ind'))
        self.sstep(e, j, t)
        self.K(e, q - m - 1)
        e.prove('lemma nothing below the cut (base)', Q(z3.simplify(m)))
        e.prove('lemma nothing below the cut (step)', z3.Implies(z3.And(0 <= m, m <= j, j < q, below, Q(j)), Q(z3.simplify(j + 1))))
        e.fact(inst)
        e.fact(z3.Implies(z3.And(0 <= m, m <= q, below), self.S(e, q, t) == self.S(e, m, t)))


def root(w, fname, slope, weighted, unsigned=True):
    """slope: 0, 1, or None (the function without a slope)"""
    spec = Pieces(z3.RealVal(slope or 0), None)

    def body(e, f):
        n = e.int('n', 1)
        norms = e.array('norms', n, lo=0 if unsigned else None)
        b = e.real('b')
        s0 = slope or 0
        args = [b] + ([ZV(z3.RealVal(s0))] if slope is not None else []) + [norms]
        if slope == 0:
            e.assume(b >= 0)
        if slope is None:
            e.assume(b > 0)
        wt = None
        if weighted:
            f0 = z3.Function('weights', z3.IntSort(), z3.RealSort())

            def wget(k):
                # a weight is 0 or representable by the division guard of the kernel
                e.fact(z3.Implies(z3.And(0 <= k, k < n.t), z3.Or(f0(k) == 0, f0(k) >= R(1e-20))))
                return f0(k)
            wt = Arr(n.t, None, cell=imp.Cell(wget, 'in'))
            args.append(wt)
        spec.b, spec.weight = b.t, wt
        sol = f(*args)
        sol = R(sol)
        wget2 = wt.get if weighted else (lambda i: z3.RealVal(1))
        tot = e.sum_of(lambda i: wget2(i) * norms.get(i) if weighted else norms.get(i), n.t)
        F = lambda t: e.sum_of(lambda i: (wget2(i) * pos(norms.get(i) - wget2(i) * t)) if weighted else pos(norms.get(i) - t), n.t)
        zero = lambda i: z3.RealVal(0)
        if e.orders:
            o = spec.order(e)
            if list(e.iters) != [0]:
                raise Unsupported('more than one loop')
            m = z3.simplify(e.iters[0] + 1)
            q = o.n
            sel = o.src.via
            mask = (lambda i: sel.mask.get(i)) if sel is not None else (lambda i: z3.BoolVal(True))
            base = o.src.base if sel is not None else o.src.get
            dom = n.t if sel is not None else q
            wk = (lambda i: wget2(i) * wget2(i)) if weighted else (lambda i: z3.RealVal(1))
            ite = lambda c, t: t if z3.is_true(c) else z3.If(c, t, z3.RealVal(0))
            # argsort permutes: the sum over ranks is the sum over entries
            fq = lambda i: ite(mask(i), wk(i) * base(i))
            gq = lambda t: (lambda i: ite(mask(i), wk(i) * pos(base(i) - t)))
            t1, t2 = spec.T(e, m)
            if slope is not None:
                # T2(q) is the sum of all entries
                e.fact(spec.T(e, q)[1] == e.sum_of(fq, dom))
                e.sums_equal('sum of the entries', fq, lambda i: wget2(i) * norms.get(i) if weighted else norms.get(i), n.t)
                if weighted:
                    e.sums_equal('sum of the kept entries', lambda i: ite(mask(i), wget2(i) * norms.get(i)), lambda i: wget2(i) * norms.get(i), n.t)
            X, X1 = spec.K(e, q - m), spec.K(e, q - m - 1)
            spec.step(e, z3.simplify(m - 1))
            s0t = z3.RealVal(s0)
            e.prove('lemma the root of the piece', sol * (s0t + t1) == t2 - b.t)
            e.prove('lemma total weight positive', t1 > 0)
            # the piece that holds the root
            early = spec.V(e, z3.simplify(m - 1)) > b.t
            if s0 == 1:
                e.prove('lemma above all knots', z3.Implies(early, z3.And(m == 1, sol > X, sol + b.t < 0)))
            e.prove('lemma root below the upper knot', z3.Implies(z3.Not(early), sol <= X))
            e.prove('lemma root above the lower knot', z3.Implies(z3.And(z3.Not(early), m < q), sol >= X1))
            spec.lemmas(e, m, sol)
            e.fact(spec.S(e, q, sol) == e.sum_of(gq(sol), dom))
            e.sums_equal('sum at the root', gq(sol), lambda i: (wget2(i) * pos(norms.get(i) - wget2(i) * sol)) if weighted else pos(norms.get(i) - sol), n.t)
        else:
            # early return: nothing was kept, or the set is empty
            if weighted and e.sels:
                sel = list(e.sels.values())[0]
                ite = lambda c, t: z3.If(c, t, z3.RealVal(0))
                i = z3.Int('i!post')
                sel.pos(i)
                e.fact(e.sum_of(zero, n.t) == 0)
                emp = sel.n == 0
                if e.quiet(emp):
                    j = z3.Int(e.name('i'))
                    sel.pos(j)
                    def nothing(g):
                        def h(i):
                            sel.pos(i)
                            return g(i)
                        return h
                    e.sums_equal('no weights, no sum', nothing(lambda i: wget2(i) * norms.get(i)), zero, n.t)
                    e.sums_equal('no weights, no sum at the root', nothing(lambda i: wget2(i) * pos(norms.get(i) - wget2(i) * sol)), zero, n.t)
                    e.fact(tot == e.sum_of(nothing(lambda i: wget2(i) * norms.get(i)), n.t))
                else:
                    e.sums_equal('sum of the kept entries', lambda i: ite(sel.mask.get(i), wget2(i) * norms.get(i)), lambda i: wget2(i) * norms.get(i), n.t)
        if slope is None:
            e.prove('ensures sum (values - t)+ = b', F(sol) == b.t)
        else:
            rootok = F(sol) == s0 * sol + b.t
            if s0:
                rootok = z3.Or(rootok, sol + b.t < 0)
            e.prove('ensures 0 when the sum is below b', z3.Implies(tot < b.t, sol == 0))
            e.prove('ensures the root', z3.Implies(tot >= b.t, rootok))
            e.prove('ensures nonnegative', sol >= 0)
    run(w, 'regreg/atoms/piecewise_linear.pyx', fname, body, spec)


# ---------------------------------------------------------------- l1 ball and epigraph
def soft(x, c):
    """soft threshold"""
    return z3.If(x > 0, pos(x - c), -pos(-x - c))


class Prefix(imp.Loop):
    """a loop that fills an array entry by entry: the first `it` entries have the value given by f"""

    def __init__(self):
        self.f = None

    def arrays(self, e, k, env, it):
        f = self.f
        return [('filled', lambda old: (lambda i: z3.If(z3.And(0 <= i, i < it), f(i), old(i))))]


def soft_threshold(w):
    spec = Prefix()

    def body(e, f):
        n = e.int('n', 0)
        x = e.array('x', n)
        c = e.real('lagrange')
        e.assume(c >= 0)
        spec.f = lambda i: soft(x.get(i), c.t)
        y = f(x, c)
        i = z3.Int('i')
        e.prove('ensures the length', y.n == n.t)
        e.prove('ensures soft thresholding', z3.Implies(z3.And(0 <= i, i < n.t), y.get(i) == soft(x.get(i), c.t)))
        e.prove('ensures a new array', z3.BoolVal(y.cell is not x.cell))
    run(w, 'regreg/atoms/projl1_cython.pyx', 'soft_threshold', body, spec)


def _root_contract(e):
    """find_solution_piecewise_linear_c, by its contract (proved in P20)"""
    def g(b, slope, norms):
        i = z3.Int(e.name('i'))
        e.require('requires norms >= 0', z3.Implies(z3.And(0 <= i, i < norms.n), norms.get(i) >= 0))
        e.require('requires an entry', norms.n >= 1)
        if slope not in (0, 1):
            raise Unsupported('slope')
        if slope == 0:
            e.require('requires b >= 0', R(b) >= 0)
        cut = z3.Real(e.name('cut'))
        s = norms.snap()
        tot = e.total(s)
        F = e.total(s.map(lambda a: pos(R(a) - cut)))
        ok = F == R(slope) * cut + R(b)
        if slope:
            ok = z3.Or(ok, cut + R(b) < 0)
        e.fact(cut >= 0)
        e.fact(z3.Implies(tot < R(b), cut == 0))
        e.fact(z3.Implies(tot >= R(b), ok))
        e.ghost = (cut, tot)
        return ZV(cut)
    return g


def _soft_contract(e):
    def g(x, c):
        e.require('requires lagrange >= 0', R(c) >= 0)
        return x.map(lambda a: soft(R(a), R(c)))
    return g


def projl1(w):
    def body(e, f):
        e.ghost = None
        n = e.int('n', 1)
        x = e.array('x', n)
        b = e.real('bound')
        e.assume(b >= 0)
        r = f(x, b)
        if e.ghost is None:
            raise Unsupported('no threshold')
        cut, tot = e.ghost
        i = z3.Int('i')
        rng = z3.And(0 <= i, i < n.t)
        F = e.sum_of(lambda i: pos(z3.If(x.get(i) >= 0, x.get(i), -x.get(i)) - cut), n.t)
        A = e.sum_of(lambda i: z3.If(x.get(i) >= 0, x.get(i), -x.get(i)), n.t)
        e.prove('ensures the length', r.n == n.t)
        e.prove('ensures soft thresholding at the cut', z3.Implies(rng, r.get(i) == soft(x.get(i), cut)))
        e.prove('ensures x itself inside the ball', z3.Implies(z3.And(rng, A < b.t), r.get(i) == x.get(i)))
        # the l1 norm of the result
        rr = r.snap()
        e.sums_equal('l1 norm of the result', lambda i: z3.If(rr.get(i) >= 0, rr.get(i), -rr.get(i)), lambda i: pos(z3.If(x.get(i) >= 0, x.get(i), -x.get(i)) - cut), n.t)
        N = e.sum_of(lambda i: z3.If(rr.get(i) >= 0, rr.get(i), -rr.get(i)), n.t)
        e.prove('ensures on the sphere otherwise', z3.Implies(A >= b.t, N == b.t))
    run(w, 'regreg/atoms/projl1_cython.pyx', 'projl1', body, None, lambda e: {'find_solution_piecewise_linear_c': _root_contract(e), 'soft_threshold': _soft_contract(e)})


def projl1_epigraph(w):
    def body(e, f):
        e.ghost = None
        n = e.int('n', 1)
        c = e.array('center', n + 1)
        r = f(c)
        if e.ghost is None:
            raise Unsupported('no threshold')
        cut, tot = e.ghost
        i = z3.Int('i')
        rng = z3.And(0 <= i, i < n.t)
        t = c.get(n.t)
        rr = r.snap()
        A = lambda v: z3.If(v >= 0, v, -v)
        e.prove('ensures the length', r.n == n.t + 1)
        e.prove('ensures the norm entry', rr.get(n.t) == pos(t + cut))
        e.prove('ensures soft thresholding at the cut', z3.Implies(z3.And(rng, t + cut >= 0), rr.get(i) == soft(c.get(i), cut)))
        e.prove('ensures the apex', z3.Implies(z3.And(rng, t + cut < 0), rr.get(i) == 0))
        e.prove('ensures the point itself inside', z3.Implies(z3.And(rng, tot < t, t >= 0), rr.get(i) == c.get(i)))
        k = e.ghost
        h1 = e.sum_of(lambda i: A(rr.get(i)), n.t)
        if e.quiet(t + cut >= 0):
            e.sums_equal('l1 norm of the result', lambda i: A(rr.get(i)), lambda i: pos(A(c.get(i)) - cut), n.t)
            e.prove('ensures the result in the epigraph', z3.Implies(tot >= t, h1 == rr.get(n.t)))
        else:
            e.sums_equal('l1 norm of the result', lambda i: A(rr.get(i)), lambda i: z3.RealVal(0), n.t)
            e.fact(e.sum_of(lambda i: z3.RealVal(0), n.t) == 0)
            e.prove('ensures the result in the epigraph', h1 == rr.get(n.t))
    run(w, 'regreg/atoms/projl1_cython.pyx', 'projl1_epigraph', body, None, lambda e: {'find_solution_piecewise_linear_c': _root_contract(e), 'soft_threshold': _soft_contract(e)})


# ---------------------------------------------------------------- mixed lasso
class Mixed(imp.Loop):
    """group norms, shrinkage factors, projections: prefix descriptions"""

    def __init__(self):
        self.ib = None

    def setup(self, e, x, groups, weights, p):
        self.x, self.groups, self.weights, self.p = x, groups, weights, p

    def acc(self, e, x, m, g, nm='acc'):
        """sum of x_i^2 over i < m in group g"""
        f = z3.Function(nm, z3.IntSort(), z3.IntSort(), z3.RealSort())
        m, g = z3.simplify(m), z3.simplify(g)
        m1 = z3.simplify(m - 1)
        e.fact(f(z3.IntVal(0), g) == 0)
        e.fact(f(m, g) >= 0)          # lemma 'sums of squares' (proved by induction in every contract)
        e.fact(z3.Implies(z3.And(1 <= m, m <= self.p), f(m, g) == f(m1, g) + z3.If(self.groups.get(m1) == g, x.get(m1) * x.get(m1), z3.RealVal(0))))
        return f(m, g)

    def lemma(self, e):
        f = z3.Function('accl', z3.IntSort(), z3.RealSort())
        m = z3.Int('m!ind')
        sq = self.x.get(m) * self.x.get(m)
        e.prove('lemma sums of squares (step)', z3.Implies(z3.And(f(m) >= 0, f(m + 1) == f(m) + z3.If(self.groups.get(m) == z3.Int('g!ind'), sq, z3.RealVal(0))), f(m + 1) >= 0))

    def nrm(self, e, g, x=None, nm='acc'):
        return e.sqrt(self.acc(e, x or self.x, self.p, g, nm))

    def fac(self, e, g):
        n = self.nrm(e, g)
        b = self.ib(e)
        return z3.If(n > 0, z3.If(b * self.weights.get(g) < n, b * self.weights.get(g) / n, z3.RealVal(1)), z3.RealVal(1))

    def arrays(self, e, k, env, it):
        rng = lambda i: z3.And(0 <= i, i < it)
        out = [('squares', lambda old: (lambda i: old(i) + self.acc(e, self.x, it, i))),
               ('roots', lambda old: (lambda i: z3.If(rng(i), e.sqrt(old(i)), old(i))))]
        if self.ib is not None and self.ib(e) is not None:
            out += [('factors', lambda old: (lambda i: z3.If(rng(i), self.fac(e, i), old(i)))),
                    ('group part', lambda old: (lambda i: z3.If(z3.And(rng(i), self.groups.get(i) >= 0), self.x.get(i) * self.fac(e, self.groups.get(i)), old(i))))]
        return out + self.more_arrays(e, k, env, it, rng)

    def more_arrays(self, e, k, env, it, rng):
        return []


def mixed_inputs(e, spec, wlow=None):
    p, q = e.int('p', 0), e.int('ngroups', 0)
    x = e.array('x', p)
    gf = z3.Function('groups', z3.IntSort(), z3.IntSort())

    def gget(k):
        e.fact(z3.Implies(z3.And(0 <= k, k < p.t), z3.And(gf(k) < q.t, gf(k) >= -1)))
        return gf(k)
    groups = Arr(p.t, None, 'I', cell=imp.Cell(gget, 'in'))
    wf = z3.Function('weights', z3.IntSort(), z3.RealSort())

    def wget(k):
        dom = z3.And(0 <= k, k < q.t)
        e.fact(z3.Implies(dom, wf(k) >= 0))
        if wlow is not None:
            e.fact(z3.Implies(dom, z3.Or(wf(k) == 0, wf(k) >= R(wlow))))
        return wf(k)
    weights = Arr(q.t, None, cell=imp.Cell(wget, 'in'))
    idx = [Idx(nm, p.t) for nm in ('l1', 'unpenalized', 'positive', 'nonnegative')]
    zero = lambda k: z3.RealVal(0)
    norms, factors = Arr(q.t, None, cell=imp.Cell(zero, 'out')), Arr(q.t, None, cell=imp.Cell(zero, 'out'))
    proj = Arr(p.t, None, cell=imp.Cell(zero, 'out'))
    spec.setup(e, x, groups, weights, p.t)
    i = z3.Int('i')
    rng = z3.And(0 <= i, i < p.t)
    mem = [d.member(i) for d in idx] + [groups.get(i) >= 0]
    # the penalty structure gives every coordinate exactly one role
    e.fact(z3.Implies(rng, z3.And(z3.Or(*mem), *[z3.Not(z3.And(mem[a], mem[b])) for a in range(5) for b in range(a)])))
    spec.lemma(e)
    return p, q, x, idx, groups, weights, norms, factors, proj, i, rng


def prox_entry(e, spec, x, idx, groups, i, b):
    """projection on the polar at level b, entry i"""
    l1, un, pp, nn = idx
    v = x.get(i)
    return z3.If(l1.member(i), z3.If(v > b, b, z3.If(v < -b, -b, v)), z3.If(un.member(i), z3.RealVal(0), z3.If(pp.member(i), z3.If(v <= b, v, b),
                 z3.If(nn.member(i), z3.If(v <= 0, v, z3.RealVal(0)), v * spec.fac(e, groups.get(i))))))


MX = 'regreg/atoms/mixed_lasso_cython.pyx'


def mixed_prox(w, fname):
    spec = Mixed()

    def body(e, f):
        lag, lip = e.real('lagrange'), e.real('lipschitz')
        e.assume(lag >= 0)
        e.assume(lip > 0)
        dual = fname == 'mixed_lasso_dual_bound_prox'
        b = lag.t if dual else lag.t / lip.t
        if not dual:
            e.prove('lemma level', b >= 0)
        spec.ib = lambda e: b
        p, q, x, idx, groups, weights, norms, factors, proj, i, rng = mixed_inputs(e, spec)
        args = [x, lag] + ([] if dual else [lip]) + idx + [groups, weights, norms, factors, proj]
        r = f(*args)
        want = prox_entry(e, spec, x, idx, groups, i, b)
        e.prove('ensures the length', r.n == p.t)
        for nm, c in zip(('l1', 'unpenalized', 'positive part', 'nonnegative', 'group'), [d.member(i) for d in idx] + [groups.get(i) >= 0]):
            e.prove('ensures the %s entries' % nm, z3.Implies(z3.And(rng, c), r.get(i) == (want if dual else x.get(i) - want)))
    run(w, MX, fname, body, spec)


def _weighted_root_contract(e, spec):
    """find_solution_piecewise_linear by its contract, over stacked arrays"""
    def g(b, slope, norms, weights):
        if slope not in (0, 1) or not isinstance(norms, imp.Joined):
            raise Unsupported('call of the root kernel')
        e.require('shapes agree', norms.n == weights.n)
        if slope == 0:
            e.require('requires b >= 0', R(b) >= 0)
        k = z3.Int(e.name('i'))
        rng = z3.And(0 <= k, k < norms.n)
        for s, pc in zip(norms.starts, norms.pieces):
            e.require('requires norms >= 0', z3.Implies(z3.And(0 <= k, k < pc.n), pc.get(k) >= 0))
        wk = weights.get(k)
        e.require('requires weights 0 or at least 1e-20', z3.Implies(rng, z3.Or(wk == 0, wk >= R(1e-20))))
        cut = z3.Real(e.name('cut'))
        ww = weights.snap()

        def total(h):
            """sum of h(norm, weight) over the stacked entries, segment by segment"""
            t = z3.RealVal(0)
            for s, pc in zip(norms.starts, norms.pieces):
                if pc.via is None:
                    fn = lambda i, s=s, pc=pc: h(pc.get(i), ww.get(z3.simplify(s + i)))
                    t = t + e.sum_of(fn, pc.n)
                    segs.append((fn, pc.n))
                else:
                    fn = lambda i, s=s, pc=pc: z3.If(pc.via.mask.get(i), h(pc.base(i), ww.get(z3.simplify(s + pc.via.pos(i)))), z3.RealVal(0))
                    t = t + e.sum_of(fn, pc.via.mask.n)
                    segs.append((fn, pc.via.mask.n))
            return t
        segs = []
        tot = total(lambda a, c: c * a)
        s1, segs = segs, []
        F = total(lambda a, c: c * pos(a - c * cut))
        s2 = segs
        ok = F == R(slope) * cut + R(b)
        if slope:
            ok = z3.Or(ok, cut + R(b) < 0)
        e.fact(cut >= 0)
        e.fact(z3.Implies(tot < R(b), cut == 0))
        e.fact(z3.Implies(tot >= R(b), ok))
        e.ghost = (cut, s1, s2)
        return ZV(cut)
    return g


def mixed_bound(w, fname):
    """bound form and epigraph"""
    spec = Mixed()
    epi = fname == 'mixed_lasso_epigraph'

    def body(e, f):
        e.ghost = None

        def level(e):
            if e.ghost is None:
                return None
            return pos0(e, e.ghost[0])

        def pos0(e, c):
            # the epigraph moves to the apex below the polar cone
            return z3.If(t + c < 0, -t, c) if epi else c
        spec.ib = level
        p, q, x, idx, groups, weights, norms, factors, proj, i, rng = mixed_inputs(e, spec, 1e-20)
        if epi:
            c = Arr(p.t + 1, None, cell=imp.Cell(lambda k: z3.If(k == p.t, z3.Real('t'), x.get(k)), 'in'))
            t = z3.Real('t')
            b = t
            e.assume(p >= 0)
            r = f(c, *(idx + [groups, weights, norms, factors, proj]))
        else:
            bd = e.real('bound')
            e.assume(bd >= 0)
            b = bd.t
            r = f(x, bd, *(idx + [groups, weights, norms, factors, proj]))
        if e.ghost is None:
            raise Unsupported('no threshold')
        cut, s1, s2 = e.ghost
        b2 = level(e)
        rr = r.snap()
        want = prox_entry(e, spec, x, idx, groups, i, b2)
        e.prove('ensures the length', r.n == (p.t + 1 if epi else p.t))
        for nm, cc in zip(('l1', 'unpenalized', 'positive part', 'nonnegative', 'group'), [d.member(i) for d in idx] + [groups.get(i) >= 0]):
            e.prove('ensures the %s entries' % nm, z3.Implies(z3.And(rng, cc), rr.get(i) == x.get(i) - want))
        if epi:
            e.prove('ensures the norm entry', rr.get(p.t) == pos(t + cut))
        # the penalty of the result
        l1, un, pp, nn = idx
        A = lambda v: z3.If(v >= 0, v, -v)
        nr = lambda g: spec.nrm(e, g)
        vals = lambda c: [(lambda g: weights.get(g) * pos(nr(g) - weights.get(g) * c), q.t), (lambda k: pos(A(x.get(l1.at(k))) - c), l1.n), (lambda k: pos(x.get(pp.at(k)) - c), pp.n)]
        for (f1, n1), (g1, m1) in zip(vals(z3.RealVal(0)), s1):
            e.prove('shapes', n1 == m1)
            e.sums_equal('penalty of the point', f1, g1, n1)
        for (f1, n1), (g1, m1) in zip(vals(cut), s2):
            e.sums_equal('penalty at the cut', f1, g1, n1)
        pen0 = sum((e.sum_of(f1, n1) for f1, n1 in vals(z3.RealVal(0))), z3.RealVal(0))
        pen = sum((e.sum_of(f1, n1) for f1, n1 in vals(cut)), z3.RealVal(0))
        e.prove('ensures three segments', z3.BoolVal(len(s2) == 3))
        e.prove('ensures no shrinkage inside', z3.Implies(pen0 < b, cut == 0))
        if epi:
            e.prove('ensures the root', z3.Implies(pen0 >= b, z3.Or(pen == cut + b, cut + b < 0)))
        else:
            e.prove('ensures the root', z3.Implies(pen0 >= b, pen == b))
    run(w, MX, fname, body, spec, lambda e: {'find_solution_piecewise_linear': _weighted_root_contract(e, spec)})


class Seminorm(Mixed):
    def G(self, e, m):
        """sum of w_j |x_j| over the first m groups"""
        f = z3.Function('G', z3.IntSort(), z3.RealSort())
        m = z3.simplify(m)
        m1 = z3.simplify(m - 1)
        e.fact(f(z3.IntVal(0)) == 0)
        e.fact(z3.Implies(z3.And(1 <= m, m <= self.weights.n), f(m) == f(m1) + self.weights.get(m1) * self.nrm(e, m1)))
        return f(m)

    def M(self, e, m, start):
        """running maximum of |x_j|/w_j"""
        f = z3.Function('M', z3.IntSort(), z3.RealSort())
        m = z3.simplify(m)
        m1 = z3.simplify(m - 1)
        e.fact(f(z3.IntVal(0)) == start)
        r = self.nrm(e, m1) / self.weights.get(m1)
        e.fact(z3.Implies(z3.And(1 <= m, m <= self.weights.n), f(m) == z3.If(z3.And(self.weights.get(m1) > 0, r > f(m1)), r, f(m1))))
        return f(m)

    def scalars(self, e, k, env, it):
        def plus(n):
            v = env.get(n)
            return R(v) + self.G(e, it) if isinstance(v, (ZV, float, int)) and not isinstance(v, bool) and not imp.is_inf(v) else None

        def mx(n):
            v = env.get(n)
            if isinstance(v, (ZV, float, int)) and not imp.is_inf(v) and not (isinstance(v, ZV) and v.t.is_int()):
                self.start = R(v)
                return self.M(e, it, R(v))
        return [('sum of the groups', plus)] if not self.dual else [('maximum over the groups', mx)]


def seminorm(w, dual):
    spec = Seminorm()
    spec.dual = dual

    def body(e, f):
        p, q, x, idx, groups, weights, norms, factors, proj, i, rng = mixed_inputs(e, spec)
        l1, un, pp, nn = idx
        spec.start = None
        check = e.case(2, 'check')
        if dual and check:
            # with a free group and feasibility checked: bounded (the running value may become infinite)
            g0 = z3.Int('g0')
            wf = weights.cell.fn

            def wpos(k):
                e.fact(z3.Implies(z3.And(0 <= k, k < q.t), wf(k) > 0))
                return wf(k)
            weights.cell.fn = wpos
        tol = e.real('nntol')
        e.assume(tol >= 0)
        A = lambda v: z3.If(v >= 0, v, -v)
        k = z3.Int('k')
        inr = lambda d: z3.And(0 <= k, k < d.n)
        if not dual:
            v = f(x, *(idx + [groups, weights, norms, check, tol]))
            e.bound_at(k)
            bad_pp, bad_nn = x.get(pp.at(k)) < -R(1e-5), x.get(nn.at(k)) < -tol.t
            if imp.is_inf(v):
                e.prove('ensures infinite only when checked', z3.BoolVal(check == 1))
                # some entry is out of the domain: the extremum that was taken is attained there
                wit = [z3.And(0 <= a, a < s.n, s.get(a) < -t) for (m, s, sgn), t in [(x_, t_) for x_ in e.extremes for t_ in (R(1e-5), tol.t)] for a in [e.argext[id(s)]]]
                e.prove('ensures infinite only off the domain', z3.Or(*wit) if wit else z3.BoolVal(False))
            else:
                for t0, f0, n0 in list(e.sums.values()):
                    for h, n1 in ((lambda j: A(x.get(l1.at(j))), l1.n), (lambda j: pos(x.get(pp.at(j))), pp.n)):
                        jj = z3.Int('jj')
                        if z3.eq(z3.simplify(n0), z3.simplify(n1)) and e.quiet(z3.Implies(z3.And(0 <= jj, jj < n1), f0(jj) == h(jj))):
                            e.sums_equal('sum of a part', f0, h, n1)
                val = e.sum_of(lambda j: A(x.get(l1.at(j))), l1.n) + e.sum_of(lambda j: pos(x.get(pp.at(j))), pp.n) + spec.G(e, q.t)
                e.prove('ensures the seminorm', R(v) == val)
                if check:
                    e.prove('ensures infinite off the domain (positive part)', z3.Implies(inr(pp), z3.Not(bad_pp)))
                    e.prove('ensures infinite off the domain (nonnegative)', z3.Implies(inr(nn), z3.Not(bad_nn)))
            return
        v = f(x, *(idx + [groups, weights, norms, tol, check]))
        e.bound_at(k)
        if imp.is_inf(v):
            e.prove('ensures infinite only when checked', z3.BoolVal(check == 1))
            wit = [z3.And(0 <= a, a < s.n, s.get(a) > tol.t) for (m, s, sgn) in e.extremes for a in [e.argext[id(s)]]]
            e.prove('ensures infinite only off the domain', z3.Or(*wit) if wit else z3.BoolVal(False))
            return
        v = R(v)
        # by induction over the groups: an upper bound of what was seen, and the least one
        start = spec.start
        if start is None:
            raise Unsupported('no running maximum')
        j, c, ub = z3.Int('j'), z3.Int('c'), z3.Real('ub')
        ratio = lambda g: spec.nrm(e, g) / weights.get(g)
        up = lambda m: z3.Implies(z3.And(0 <= c, c < m, weights.get(c) > 0), spec.M(e, m, start) >= ratio(c))
        e.prove('lemma every group below the maximum (step)', z3.Implies(z3.And(0 <= j, j < q.t, up(j)), up(z3.simplify(j + 1))))
        e.fact(up(q.t))
        e.prove('ensures at least every group', z3.Implies(z3.And(0 <= c, c < q.t, weights.get(c) > 0), v >= ratio(c)))
        e.prove('lemma the maximum grows (step)', z3.Implies(z3.And(0 <= j, j < q.t, spec.M(e, j, start) >= start), spec.M(e, z3.simplify(j + 1), start) >= start))
        e.fact(spec.M(e, q.t, start) >= start)
        e.prove('ensures at least every |x|, l1', z3.Implies(inr(l1), v >= A(x.get(l1.at(k)))))
        e.prove('ensures at least every x, positive part', z3.Implies(inr(pp), v >= x.get(pp.at(k))))
        e.prove('ensures nonnegative', v >= 0)
        least = lambda m: z3.Implies(start <= ub, spec.M(e, m, start) <= ub)
        e.prove('lemma least upper bound (step)', z3.Implies(z3.And(0 <= j, j < q.t, z3.Or(weights.get(j) == 0, ratio(j) <= ub), least(j)), least(z3.simplify(j + 1))))
        e.fact(least(q.t))
        # ub bounds every part
        low = [ub >= 0]
        for m, s, sgn in e.extremes:
            a = e.argext[id(s)]
            low.append(z3.Implies(z3.And(0 <= a, a < s.n), ub >= s.get(a)))
        e.prove('ensures least', z3.Implies(z3.And(*low), v <= ub))
        if check:
            e.prove('ensures infinite off the domain (nonnegative)', z3.Implies(inr(nn), x.get(nn.at(k)) <= tol.t))
            e.prove('ensures infinite off the domain (unpenalized)', z3.Implies(inr(un), A(x.get(un.at(k))) <= tol.t))
    run(w, MX, 'seminorm_mixed_lasso_dual' if dual else 'seminorm_mixed_lasso', body, spec)
