"""P17: regularisation paths solve every penalty level they report"""
import contextlib
import numpy as np
from pyvc import kernels
from pyvc.expr import Unsupported
from pyvc.world import Skip
from pyvc.loops import Loop, PathEnd, cut
from pyvc.runner import contract
from contracts.problab import AnySmooth, fun, swapped
import regreg.api as rr
from regreg.smooth.glm import gaussian_loglike
import regreg.paths as PA
from regreg.paths import lasso as PL, group_lasso as PG, sparse_group_lasso as PS, sparse_group_block as PB, basil as BA
from regreg.paths.cross_validate import cross_validate

HERE = 'regreg/paths/'
LA = HERE + 'lasso.py:'
TOL = 1e-2          # of the KKT checks (a constant of the code)


def weights(w, n):
    """weights of a lasso penalty; zero means not penalised"""
    v = w.vec('weights', n, sign='nonneg')
    if w.symbolic:
        i = w.index('a penalised one', n)
        w.assume(v[i] > 0)
        w.lemma_sum_at('total weight', v * (v > 0), i)
        w.lemma_sum_at('number of penalised', (v > 0) * 1., i)
    else:
        v = np.where(w.rng.random(n) < w.rng.choice([0., .3]), 0., np.fabs(v) + .05)
        v[w.rng.integers(0, n)] = 1.
        w._rec('weights', v)
    return v


def rank_stub(w):
    def rankdata(x, *a, **k):
        """by contract: between 1 and the number of entries"""
        n = x.shape[0]
        r = w.arr('ranks', (n,))
        w.assume(w.np.all(r >= 1))
        w.assume(w.np.all(n - r >= 0))
        return r
    return rankdata


def ranks(w, mod):
    return swapped((mod, 'rankdata', rank_stub(w))) if w.symbolic else contextlib.nullcontext()


def on_path(w, klass, pen, n, *args, **kw):
    """a path object with this penalty: its checks are methods of the penalty only"""
    if w.symbolic:
        P = object.__new__(klass)
    else:
        Q = np.random.default_rng(n).standard_normal((n + 2, n))
        try:
            with swapped(*[(m, 'warn', lambda *a, **k: None) for m in (PL, PG, PS)]):
                P = klass(gaussian_loglike((n + 2,), Q.sum(1) + np.arange(n + 2)), Q, *args, **kw)
        except Exception:
            raise Skip()
    P.penalty = pen
    return P


@contract('P17', 'lasso: KKT check', [LA + '_check_KKT', LA + 'lasso_path.check_KKT'], cases=400)
def lcheck(w):
    N, n = w.np, w.dim('n', 1, 6)
    v, g, x = weights(w, n), w.vec('gradient', n), w.vec('solution', n)
    lam = w.pos('lagrange')
    if not w.symbolic:
        x = x * (w.rng.random(n) < .5)
        g = np.where(w.rng.random(n) < .7, -lam * v * np.sign(x) * (1 + w.rng.choice([0, 1e-3, .02], n)), g)
        w._rec('solution', x), w._rec('gradient', g)
    snap = w.snap(v, g, x)
    from regreg.atoms.weighted_atoms import l1norm
    P = on_path(w, PL.lasso_path, l1norm(v, lagrange=1.), n, v)
    with ranks(w, PL):
        A, I = P.check_KKT(g, x, lam)
    A = N.where(A, 1, 0)
    size = abs(g)
    zero, pen = x == 0, v > 0
    e = 0 if w.symbolic else 1e-9
    lim = (1 + TOL) * lam * v
    w.true('only zero penalised coefficients with a gradient above the penalty are reported', N.all(~(I >= 0) | (zero & pen & (size > lim * (1 - e)))))
    w.true('every zero coefficient with a gradient above the penalty is reported', N.all(~(zero & pen & (size > lim * (1 + e))) | (I >= 0)))
    w.true('a nonzero penalised coefficient passes only within tolerance of its sign condition',
           N.all(~(~zero & pen & (A == 0)) | (abs(g + lam * v * N.sign(x)) <= TOL * lam * v * (1 + e) + e)))
    m = v[pen].mean()
    w.true('an unpenalised coefficient passes only with a small gradient',
           N.all(~(~pen & (A == 0)) | (abs(g / m) <= TOL * (1 + e) + e)))
    w.unchanged('arguments unchanged', snap)


@contract('P17', 'lasso: strong set', [LA + '_strong_set', LA + 'lasso_path.strong_set'], cases=300)
def lstrong(w):
    N, n = w.np, w.dim('n', 1, 6)
    v, g = weights(w, n), w.vec('gradient', n)
    cur, new = w.pos('current'), w.pos('new')
    snap = w.snap(v, g)
    from regreg.atoms.weighted_atoms import l1norm
    S, s, V = on_path(w, PL.lasso_path, l1norm(v, lagrange=1.), n, v).strong_set(cur, new, g)
    if not w.symbolic:
        w.true('the same as positions', list(np.nonzero(s)[0]) == list(S) == list(V))
    t = 2 * new - cur
    w.true('unpenalised variables are kept', N.all(~(v == 0) | s))
    w.true('dropped variables have gradient below the threshold', N.all(s | (abs(g) <= t * v + (0 if w.symbolic else 1e-9))))
    w.true('kept variables have gradient above the threshold', N.all(~s | (v == 0) | (abs(g) > t * v - (0 if w.symbolic else 1e-9))))
    w.unchanged('arguments unchanged', snap)


# --- lists of positions ------------------------------------------------------

def _lists(w=None):
    """built-ins on lists of positions: list keeps, set forgets the order, sorted restores it"""
    from pyvc.sym import NonzeroIdx as Idx

    def list_(x=()):
        return x if isinstance(x, Idx) else list(x)

    def set_(x=()):
        return Idx(x.mask, False) if isinstance(x, Idx) else set(x)

    def sorted_(x, **k):
        if isinstance(x, Idx):
            return Idx(x.mask, True)
        return sorted(x, **k)
    return {('regreg.paths' + m, k): v for m in ('', '.lasso', '.basil', '.group_lasso', '.sparse_group_lasso', '.sparse_group_block')
            for k, v in (('list', list_), ('set', set_), ('sorted', sorted_))}


# --- the lasso path ---------------------------------------------------------

class Solver(object):
    """simple_problem by its contract (properties P14, P15): an unknown minimiser"""
    made, world = [], None

    def __init__(self, loss, penalty, **k):
        self.loss, self.penalty = loss, penalty
        self.coefs = Solver.world.np.zeros(loss.shape)
        Solver.made.append(self)

    def solve(self, *a, **k):
        W = Solver.world
        self.args, self.start = (a, k), W.copy(self.coefs)
        self.answer = W.arr('solution%d' % len(Solver.made), self.loss.shape)
        self.final_step = W.pos('final_step')
        return W.copy(self.answer)

    def obj(self, z):
        return self.loss.smooth_objective(z, 'func') + self.penalty.nonsmooth_objective(z)


@contextlib.contextmanager
def solving(w, *mods):
    Solver.made, Solver.world = [], w
    with swapped(*[(m, 'simple_problem', Solver) for m in mods]):
        yield Solver.made


class LassoData(object):

    def __init__(self, w, alphas=(1., None), enet=(False, True)):
        self.w, N = w, w.np
        self.n, self.p = w.dim('n'), w.dim('p')
        self.X, self.v = w.mat('X', self.n, self.p), weights(w, self.p)
        self.L = AnySmooth(w, 'loss', (self.n,))
        if w.choice('elastic net?', [True, False]):
            self.alpha = w.pos('alpha')
            if w.symbolic:
                w.assume(self.alpha < 1)
            else:
                self.alpha = self.alpha / (1 + self.alpha)
        else:
            self.alpha = 1.
        self.d = w.vec('ridge', self.p, sign='nonneg') if w.choice('ridge weights?', [True, False]) else None

    def path(self, real=True):
        X, D, w = self.X, self, self.w

        class Path(PL.lasso_path):
            def subsample_columns(self, T, columns):
                """by contract (see 'selected columns')"""
                return X[:, columns]

            def solve_subproblem(self, solution, c, lam, **k):
                """by contract (see 'lasso: sub-problem')"""
                if real and not w.symbolic or hasattr(self, 'grad_solution'):
                    return PL.lasso_path.solve_subproblem(self, solution, c, lam, **k)
                D.null = w.vec('null solution', D.p)
                D.asked = (solution, c, lam)
                w.unchanged('earlier', w.snap(solution))
                only = w.np.where(D.v == 0, D.null, 0.)
                return w.pos('step'), None, D.null[c], D.X.dot(only), D.v == 0
        with swapped((PL, 'warn', lambda *a, **k: None)):
            P = Path(self.L, X, self.v, elastic_net_param=self.d, alpha=self.alpha)
        return P

    def ridge(self, lam):
        """ridge weights at a level"""
        d = self.d if self.d is not None else self.w.np.ones(self.p)
        return (1 - self.alpha) * d * self.w.np.where(self.v > 0, lam, 1.)


@contract('P17', 'lasso: sub-problem', [LA + 'lasso_path.solve_subproblem', LA + '_restricted_problem', LA + '_restricted_elastic_net', LA + 'lasso_path.enet_loss'], cases=60, paths=600, stubs=_lists,
          note='saturated loss: any smooth function; solver by contract; candidate set: any increasing positions')
def lsub(w):
    N = w.np
    D = LassoData(w)
    with solving(w, PL) as made:
        P = D.path()
        del made[:]
        k = w.dim('k', hi=D.p if not w.symbolic else 6)
        c = w.positions('candidates', k, D.p)
        lam, x = w.pos('lagrange'), w.vec('current', D.p)
        snap = w.snap(x, D.X, D.v)
        step, g, soln, lp, inside = P.solve_subproblem(x, c, lam, tol=1e-7)
    q, = made
    w.eq('starts from the current coefficients', q.start, x[c])
    z = w.vec('z', k)
    want = D.L.val(D.X[:, c].dot(z)) + D.alpha * lam * (D.v[c] * abs(z)).sum() + (D.ridge(lam)[c] * z * z).sum() / 2
    w.eq('the sub-problem is the full problem with the other coefficients zero', q.obj(z), want)
    w.eq('solution', soln, q.answer)
    w.eq('linear predictor of the solution', lp, D.X[:, c].dot(soln))
    w.true('which variables', N.all(inside[c]) if not w.symbolic else N.all(inside == c.member))
    if not w.symbolic:
        w.true('which variables (count)', inside.sum() == k)
    w.unchanged('arguments unchanged', snap)


@contract('P17', 'lasso: ridge gradient', [LA + 'lasso_path.enet_grad', LA + 'lasso_path.enet_loss'], cases=60, paths=600, stubs=_lists)
def lenet(w):
    D = LassoData(w)
    with solving(w, PL):
        P = D.path()
    lam, x = w.pos('lagrange'), w.vec('current', D.p)
    snap = w.snap(x)
    g = P.enet_grad(x, P._penalized_vars, lam)
    w.eq('gradient of the ridge term', g, D.ridge(lam) * x)
    w.eq('gradient of the ridge loss', P.enet_loss(lam).smooth_objective(x, 'grad'), D.ridge(lam) * x)
    k = w.dim('k', hi=D.p if not w.symbolic else 6)
    c = w.positions('subset', k, D.p)
    w.eq('restricted to a subset', P.enet_grad(x, P._penalized_vars, lam, subset=c), (D.ridge(lam) * x)[c])
    w.unchanged('argument unchanged', snap)


@contract('P17', 'lasso: start of the path', [LA + 'lasso_path.__init__', HERE + '__init__.py:grouped_path.full_gradient', LA + 'lasso_path.unpenalized'], cases=60, paths=600, stubs=_lists)
def lstart(w):
    N = w.np
    D = LassoData(w)
    P = D.path(False)
    b = P.solution
    w.true('penalised coefficients are zero', N.all(~(D.v > 0) | (b == 0)))
    if hasattr(D, 'null'):
        x, c, lam = D.asked
        w.eq('unpenalised coefficients solve the problem without the others', b, N.where(D.v == 0, D.null, 0.))
        w.true('it is over the unpenalised variables', N.all(c.mask == (D.v == 0)) if w.symbolic else np.array_equal(c, np.nonzero(D.v == 0)[0]))
    else:
        w.true('nothing is solved only without unpenalised variables', N.all(D.v > 0))
    w.eq('gradient of the smooth part', P.grad_solution, D.X.T.dot(D.L.grad(D.X.dot(b))) + D.ridge(1.) * b)
    w.true('unpenalised terms', N.all(P.unpenalized[1] == (D.v == 0)))


# --- screening: any path object --------------------------------------------

class Design(object):
    def __init__(self, M):
        self.M = M
        self.dot = M.dot
        self.T = M.T
        self.input_shape, self.output_shape = (M.shape[1],), (M.shape[0],)


class Columns(object):
    def __init__(self, M, idx):
        self.T = self
        self.M, self.idx = M, idx

    def dot(self, u):
        return self.M.T.dot(u)[self.idx]


def N_all(w, c):
    return w.np.all(c)


def shown(x):
    """a level that can be written in a message"""
    from pyvc.sym import SymReal

    class Level(SymReal):
        def __float__(self):
            return 1.
    return Level(x.p)


NOGC = type('gc', (), {'collect': staticmethod(lambda: 0)})


class AnyPath(object):
    """a path object known by the contracts of its methods; variables in groups"""

    def __init__(self, w):
        from pyvc.sym import NonzeroIdx
        self.w, self.Idx = w, NonzeroIdx
        self.n, self.p, self.G = w.dim('n'), w.dim('p'), w.dim('groups')
        self.M = w.mat('X', self.n, self.p)
        self.X = Design(self.M)
        self.saturated_loss = AnySmooth(w, 'loss', (self.n,))
        self.alpha = w.pos('alpha')
        self.d = w.vec('ridge', self.p, sign='nonneg')
        self.group_of = w.memberships('group of', self.p, self.G)
        self.group_shape, self.shape = (self.G,), (self.p,)
        self._unpen = w.mask('unpenalised', self.G)
        self._penalized_vars = ~self.variables(self._unpen)
        self.penalty = self
        self.solved, self.checks = [], []

    def variables(self, groups):
        return groups[self.group_of]

    @property
    def unpenalized(self):
        return self.Idx(self._unpen.snapshot()), self._unpen.copy()

    def updated_ever_active(self, index):
        """at least the given ones"""
        extra = self.w.mask('ever active', self.G)
        if isinstance(index, list) and not index:
            return self.Idx(extra)
        return self.Idx((extra | index).snapshot())

    def ridge(self, lam):
        return (1 - self.alpha) * self.d * self.w.np.where(self._penalized_vars, lam, 1.)

    def enet_grad(self, solution, penalized, lam, subset=None):
        self.w.true('ridge term: penalised variables', self.w.np.all(penalized == self._penalized_vars))
        g = self.ridge(lam) * solution
        return g if subset is None else g[subset]

    def full_gradient(self, loss, linpred):
        self.w.true('gradient of the path\'s loss', loss is self.saturated_loss)
        return self.M.T.dot(loss.grad(linpred))

    def strong_set(self, cur, new, grad):
        m = self.w.mask('strong', self.G)
        v = self.Idx(self.variables(m))
        return self.Idx(m), m.copy(), v

    def subsample_columns(self, X, idx):
        return Columns(X.M, idx)

    def restricted_penalty(self, idx):
        return ('restricted', idx)

    def check_KKT(self, grad, solution, lam, penalty=None):
        w = self.w
        f, a = w.mask('failing', self.G), w.mask('active failing', self.G)
        ranks = w.np.where(f, 1., -1.)
        k = dict(grad=w.copy(grad), solution=w.copy(solution), lam=lam, failing=f, active=a, full=penalty is None)
        self.checks.append(k)
        if penalty is None:
            return a, ranks
        w.true('restricted penalty', N_all(w, penalty[1].mask == self.variables(self.last_strong)))
        sel = self.last_strong
        return a[sel], ranks[sel]

    def active_set(self, solution):
        return self.w.mask('active', self.G)

    def solve_subproblem(self, solution, S, lam, **k):
        w = self.w
        w.true('candidates in increasing order', S.increasing)
        m = self.variables(S.mask)
        full = w.np.where(m, w.arr('sub-solution', (self.p,)), 0.)
        self.solved.append(dict(S=S.mask, vars=m, lam=lam, soln=full, tol=k.get('tol'), start=w.copy(solution), args=k))
        return w.pos('step'), None, full[m], self.M.dot(full), m.copy()


def any_strong(w):
    N = w.np
    P = AnyPath(w)
    x0 = N.where(P.variables(P._unpen), w.vec('null solution', P.p), 0.)
    g0 = w.vec('null gradient', P.p)
    m = w.dim('levels', lo=2)
    seq = w.vec('levels', m, sign='pos')
    active = w.choice('check active?', [False, True])
    tol0, tries = w.pos('inner_tol'), w.integer('max_tries', 1, 10 ** 6)
    warned = []

    real = P.strong_set

    def strong_set(*a):
        r = real(*a)
        P.last_strong = r[1]
        return r
    P.strong_set = strong_set

    class C(Loop):
        for_loops = True
        mutated = ('solution', 'grad_solution', 'linear_predictor', 'solutions', 'dev_explained')

        def invariant(self, i, env, when):
            S = env['subproblem_set']
            w.true('unpenalised terms are candidates ' + when, N.all(~P._unpen | S.mask))
            w.true('only candidates are nonzero ' + when, N.all(P.variables(S.mask) | (env['solution'] == 0)))
            if i == 1:
                w.true('tolerance ' + when, (env['tol'] > 0) & (env['tol'] <= tol0))

        def state(self, i, env):
            S = P._unpen | w.mask('candidates', P.G)
            x, g = env['solution'], env['grad_solution']
            x[:] = N.where(P.variables(S), w.vec('solution', P.p), 0.)
            g[:] = w.vec('gradient', P.p)
            r = dict(subproblem_set=P.Idx(S.snapshot(), w.choice('sorted?', [True, False], sym=[False])), all_failing=w.mask('failing before', P.G), final_step=w.pos('step before'))
            if i == 1:
                r['tol'] = w.pos('tol')
                w.assume(r['tol'] <= tol0)
                r['num_tries'] = self.tries = w.integer('tries', 0, 10 ** 6)
                r['debug'] = False
            else:
                self.count = len(env['solutions']), len(env['dev_explained'])
            return r

        def items(self, i, seqs):
            w.true('levels in order', len(seqs) == 2)
            w.eq('levels', seqs[0], seq[1:])
            w.eq('earlier levels', seqs[1], seq[:-1])
            return seqs

        def item(self, i, seqs):
            k = w.index('which level', m - 1)
            self.level = seqs[0][k]
            return shown(seqs[0][k]), seqs[1][k]

        def after(self, i, env):
            if i == 1:
                return
            sols = env['solutions']
            w.true('one solution per level', len(sols) == self.count[0] + 1)
            b = sols[-1]
            last = P.solved[-1]
            w.true('solved at its own level', last['lam'] == self.level)
            w.true('solved to the tolerance', last['tol'] <= tol0)
            w.eq('reported: the solution of the last sub-problem, zero elsewhere', b, last['soln'])
            w.true('unpenalised terms are optimised', N.all(~P._unpen | last['S']))
            if not warned:
                c = P.checks[-1]
                w.true('the full problem is checked', c['full'])
                w.eq('level of the check', c['lam'], P.alpha * self.level)
                w.eq('coefficients of the check', c['solution'], b)
                w.eq('gradient of the check', c['grad'], P.full_gradient(P.saturated_loss, P.M.dot(last['soln'])) + P.ridge(self.level) * b)
                w.true('no discarded variable violates the conditions', N.all(~c['failing']))
                if active:
                    w.true('no active variable violates the conditions', N.all(~c['active']))
                w.eq('deviance', env['dev_explained'][-1], P.saturated_loss.val(P.M.dot(last['soln'])))
            w.unchanged('initial data unchanged', snap)
    snap = w.snap(x0, g0, seq)
    L = C(w)
    f = cut(PA.strong_rules, L)
    if L.loops != 2:
        raise Unsupported('%d loops' % L.loops)
    with swapped((PA, 'warn', lambda *a, **k: warned.append(a)), (PA, 'gc', NOGC)):
        try:
            out = f(P, seq, (x0, g0), inner_tol=tol0, initial_step=w.pos('initial_step'), check_active=active, max_tries=tries)
        except PathEnd:
            return
    w.unchanged('initial data unchanged', snap)
    w.eq('levels reported', out['lagrange'], seq)
    w.eq('first solution', out['beta'][0], x0)


@contract('P17', 'strong rules: any path', [HERE + '__init__.py:strong_rules'], cases=60, paths=3000, budget=300, stubs=_lists,
          note='loops by invariant; the path object by the contracts of its methods; reported as checked: every level without a warning')
def strong(w):
    if w.symbolic:
        return any_strong(w)
    concrete_path(w, 'strong')


def any_basil(w):
    N = w.np
    P = AnyPath(w)
    x0 = N.where(P.variables(P._unpen), w.vec('null solution', P.p), 0.)
    g0 = w.vec('null gradient', P.p)
    m = w.dim('levels', lo=1)
    seq = w.vec('levels', m, sign='pos')
    active = w.choice('check active?', [False, True])
    tol0 = w.pos('inner_tol')
    cand = P.Idx(w.mask('given candidates', P.G), False) if w.choice('candidates?', [True, False]) else None
    P.last_strong = None

    class C(Loop):
        for_loops = True
        mutated = ('solution', 'grad_solution', 'linear_predictor', 'solutions', 'lagrange_solved')
        level = None

        def invariant(self, i, env, when):
            S = env['subproblem_set']
            w.true('unpenalised terms are candidates ' + when, N.all(~P._unpen | S.mask))
            w.true('only candidates are nonzero ' + when, N.all(P.variables(S.mask) | (env['solution'] == 0)))
            w.true('solutions and their levels ' + when, len(env['solutions']) == len(env['lagrange_solved']))

        def state(self, i, env):
            S = env['subproblem_set'].mask
            env['solution'][:] = N.where(P.variables(S), w.vec('solution', P.p), 0.)
            env['grad_solution'][:] = w.vec('gradient', P.p)
            self.count = len(env['solutions'])
            return dict(all_failing=w.mask('failing before', P.G), final_step=w.pos('step before'),
                        ever_active=P.Idx(w.mask('ever', P.G)), last_grad=w.vec('last gradient', P.p))

        def items(self, i, seqs):
            w.eq('levels', seqs[0], seq)
            return seqs

        def item(self, i, seqs):
            self.level = seqs[0][w.index('which level', m)]
            return self.level

        def after(self, i, env):
            w.true('one solution per level', len(env['solutions']) == self.count + 1)
            w.eq('its level', env['lagrange_solved'][-1], self.level)
            b = env['solutions'][-1]
            last, c = P.solved[-1], P.checks[-1]
            w.true('solved at its own level', last['lam'] == self.level)
            w.true('solved to the tolerance', last['tol'] <= tol0)
            w.eq('reported: the solution of the sub-problem, zero elsewhere', b, last['soln'])
            w.true('unpenalised terms are optimised', N.all(~P._unpen | last['S']))
            w.true('the full problem is checked', c['full'])
            w.eq('level of the check', c['lam'], P.alpha * self.level)
            w.eq('coefficients of the check', c['solution'], b)
            g = P.full_gradient(P.saturated_loss, P.M.dot(last['soln'])) + P.ridge(self.level) * b
            w.eq('gradient of the check', c['grad'], g)
            w.eq('gradient handed on', env['last_grad'], g)
            w.true('no discarded variable violates the conditions', N.all(~c['failing']))
            if active:
                w.true('no active variable violates the conditions', N.all(~c['active']))
            w.unchanged('initial data unchanged', snap)
    snap = w.snap(x0, seq)       # the gradient is overwritten (basil passes a copy)
    L = C(w)
    f = cut(BA.basil_inner_loop, L)
    if L.loops != 1:
        raise Unsupported('%d loops' % L.loops)
    try:
        lam, sols, g, ever = f(P, seq, (x0, g0), inner_tol=tol0, initial_step=w.pos('initial_step'), check_active=active, step_nvar=w.integer('step_nvar', 1, 10 ** 6), candidate_set=cand)
    except PathEnd:
        return
    w.unchanged('initial data unchanged', snap)
    w.true('nothing is reported for a level with violations', len(sols) == len(lam) == L.count)
    if L.level is not None:
        c = P.checks[-1]
        w.true('the violations become candidates', N.all(~c['failing'] | ever.mask))
        w.true('the earlier candidates are kept', N.all(~P.solved[-1]['S'] | ever.mask))


@contract('P17', 'basil: any path', [HERE + 'basil.py:basil_inner_loop', HERE + 'basil.py:basil'], cases=60, paths=3000, budget=300, stubs=_lists,
          note='loop by invariant; the path object by the contracts of its methods')
def basil(w):
    if w.symbolic:
        return any_basil(w)
    concrete_path(w, "basil")


@contract('P17', 'basil: outer loop', [HERE + 'basil.py:basil'], sym=False, cases=200,
          note='bounded: inner loop by contract (solves any number of the levels it is given, in order)')
def outer(w):
    r = w.rng
    m = int(r.integers(1, 12))
    seq = np.sort(r.uniform(.1, 5, m))[::-1].copy()
    x0, g0 = r.standard_normal(3), r.standard_normal(3)
    snap = w.snap(x0, g0, seq)
    step = int(r.integers(1, 6))
    solved, given, handed, marks = [], [], [], {'min_its': 3}

    def inner(path, levels, data, inner_tol=None, step_nvar=None, candidate_set=None, solve_args=None, **k):
        w.true('no more levels at once than asked', 1 <= len(levels) <= step)
        w.eq('the next levels', levels, seq[len(solved):len(solved) + len(levels)])
        w.true('arguments passed on', inner_tol == 1e-3 and step_nvar == 7 and solve_args is marks)
        if handed:
            w.true('candidates are handed on', candidate_set == handed[-1])
        data[1][:] = r.standard_normal(3)
        done = int(r.integers(0, len(levels) + 1))
        new = [r.standard_normal(3) for _ in range(done)]
        solved.extend(zip(levels, new))
        handed.append(list(r.permutation(5)))
        return list(levels[:done]), new, data[1].copy(), handed[-1]
    with swapped((BA, 'basil_inner_loop', inner)):
        B = BA.basil(object(), seq, (x0, g0), inner_tol=1e-3, step_nvar=7, step_lagrange=step, solve_args=marks)
    w.true('one solution per level', len(B) == m)
    w.eq('levels in order', np.array([l for l, _ in solved]), seq)
    w.eq('their solutions', B, np.array([v for _, v in solved]))
    w.unchanged('arguments unchanged', snap)


@contract('P17', 'warm starts: lasso', [HERE + '__init__.py:warm_start', HERE + '__init__.py:grouped_path.full_loss', LA + 'lasso_path.restricted_penalty'], cases=40, paths=3000, stubs=_lists,
          note='loop by invariant; solver by contract')
def warm(w):
    N = w.np
    D = LassoData(w)
    P = D.path(False)
    m = w.dim('levels', lo=1, hi=4)
    seq = w.vec('levels', m, sign='pos')
    x0, g0 = P.solution.copy(), P.grad_solution.copy()
    snap = w.snap(x0, g0, seq, D.X, D.v)
    tol0 = w.pos('inner_tol')
    extra = {'min_its': 5}

    def one(q, b, level):
        z = w.vec('z', D.p)
        want = D.L.val(D.X.dot(z)) + D.alpha * level * (D.v * abs(z)).sum() + (D.ridge(level) * z * z).sum() / 2
        w.eq('the problem of a level is the full problem', q.obj(z), want)
        w.eq('reported: its solution', b, q.answer)
        a, k = q.args
        w.true('solved to the tolerance', not a and k['tol'] <= tol0)
        w.true('other arguments passed on', k.get('min_its') == 5)

    class C(Loop):
        for_loops = True
        mutated = ('solutions', 'objective', 'penalty')

        def state(self, i, env):
            self.count = len(env['solutions']), len(env['objective']), len(made)
            return dict(solution=w.vec('solution', D.p))

        def items(self, i, seqs):
            w.eq('levels', seqs[0], seq)
            return seqs

        def item(self, i, seqs):
            self.level = seqs[0][w.index('which level', m)]
            return self.level

        def after(self, i, env):
            w.true('one solution per level', len(env['solutions']) == self.count[0] + 1 and len(env['objective']) == self.count[1] + 1 and len(made) == self.count[2] + 1)
            one(made[-1], env['solutions'][-1], self.level)
            w.eq('starts from the last solution', made[-1].start, self.head['solution'])
            w.eq('deviance', env['objective'][-1], D.L.val(D.X.dot(made[-1].answer)))
            w.unchanged('arguments unchanged', snap)
    with solving(w, PA) as made:
        if not w.symbolic:
            out = PA.warm_start(P, seq, (x0, g0), inner_tol=tol0, initial_step=1., solve_args=extra)
            w.true('one solution per level', len(made) == len(seq) == len(out['beta']))
            for q, b, lam in zip(made, out['beta'], seq):
                q.penalty.lagrange = lam * D.alpha
                one(q, b, lam)
            dev = np.array([D.L.val(D.X.dot(b)) for b in out['beta']])
            if dev.max() > 0:
                w.eq('deviance ratios', out['devratio'] * 1, 1 - dev / dev.max())
        else:
            L = C(w)
            f = cut(PA.warm_start, L)
            if L.loops != 1:
                raise Unsupported('%d loops' % L.loops)
            try:
                out = f(P, seq, (x0, g0), inner_tol=tol0, initial_step=w.pos('initial_step'), solve_args=extra)
            except PathEnd:
                return
            except ValueError:
                if made:
                    raise
                return       # no level at all
        w.eq('levels reported', out['lagrange'], seq)
        w.true('solve_args unchanged', extra == {'min_its': 5})
        w.unchanged('arguments unchanged', snap)


@contract('P17', 'sequence of levels: lasso', [HERE + '__init__.py:default_lagrange_sequence'], cases=150, paths=800, stubs=_lists)
def levels(w):
    N = w.np
    n = w.dim('n', 1, 6)
    v, g = weights(w, n), w.vec('gradient', n)
    if w.symbolic:
        i = w.index('one with a gradient', n)
        w.assume((v[i] > 0) & (abs(g[i]) > 0))
    elif not np.any((v > 0) & (g != 0)):
        return
    from regreg.atoms.weighted_atoms import l1norm
    prop = w.pos('proportion')
    if w.symbolic:
        w.assume(prop < 1)
    else:
        prop = w._rec('proportion', .01 + .9 * prop / (1 + prop))
    alpha = w.pos('alpha')
    if not w.symbolic:
        alpha = w._rec('alpha', .01 + alpha / (1 + alpha))
    steps = w.dim('steps', lo=2) if w.symbolic else w.choice('steps', [2, 3, 5, 100])
    snap = w.snap(v, g)
    s = PA.default_lagrange_sequence(l1norm(v, lagrange=1), g, lagrange_proportion=prop, nstep=steps, alpha=alpha)
    w.true('number of levels', s.shape[0] == steps)
    size = w.np.where(v > 0, abs(g) / w.np.where(v > 0, v, 1.), 0.)
    e = 0 if w.symbolic else 1e-9
    w.eq('the first level is the largest ratio of gradient to weight', s[0] * alpha, size.max())
    w.true('the null solution is optimal at the first level', N.all(~(v > 0) | (abs(g) <= alpha * s[0] * v * (1 + e))))
    w.eq('the last level is the requested proportion', s[-1], prop * s[0])
    if w.symbolic:
        w.lemma('log', N.log(prop) < 0)
        w.lemma('step', -N.log(prop) / (steps - 1) > 0)
        w.lemma('ratio', N.exp(-N.log(prop) / (steps - 1)) > 1)
    w.true('levels decrease', N.all(s[1:] < s[:-1]))
    w.unchanged('arguments unchanged', snap)


@contract('P17', 'selected columns', [HERE + '__init__.py:subsample_columns', HERE + '__init__.py:grouped_path.subsample_columns'], cases=60, note='proved for up to three columns, any matrix')
def columns(w):
    n, p = w.dim('n'), w.dim('p')
    X = w.mat('X', n, p)
    k = w.choice('columns', [1, 2, 3, 4], sym=[1, 2, 3])
    cols = [w.index('column', p) for _ in range(k)]
    snap = w.snap(X)
    S = PA.subsample_columns(X, cols)
    w.true('shape', S.shape[1] == k)
    for j in range(k):
        w.eq('each selected column in its place', S[:, j], X[:, cols[j]])
    w.unchanged('matrix unchanged', snap)


@contract('P17', 'linear predictors of a path', [HERE + '__init__.py:grouped_path.linpred'], cases=60)
def linpred(w):
    n, p, m = w.dim('n'), w.dim('p'), w.dim('levels')
    X = w.mat('X', n, p)
    P = PL.lasso_path.__new__(PL.lasso_path)
    B = w.mat('coefs', m, p)
    c, inside = w.index_set('test', n) if w.symbolic else (None, None)
    T = w.positions('test', w.dim('tests', hi=n if not w.symbolic else 6), n)
    r = P.linpred(B, X, T)
    w.eq('every level, every test case', r, X.dot(B.T)[T])
    b = w.vec('coef', p)
    w.eq('one solution', P.linpred(b, X, T), X.dot(b)[T])




# --- group lasso -------------------------------------------------------------

GR = HERE + 'group_lasso.py:'


class Labels(object):
    known = []      # labels of the variables, ids of the groups in order


def _group_stubs(w=None):
    """kernels by their contracts (proved in P20 for these roles: groups only)"""
    from pyvc import shim
    d = _lists()

    def norms(x, l1, un, pp, nn, groups, weights):
        if any(len(a) for a in (l1, un, pp, nn)):
            raise Unsupported('roles')
        out = []
        for k in range(weights.shape[0]):
            m = groups == k
            for w, lab, ids in Labels.known:
                if lab._shape == m._shape and len(ids) == weights.shape[0]:
                    t = lab == ids[k]
                    w.lemma_all('index of a group', (m & t) | (~m & ~t))
                    m = t
                    break
            out.append(shim.norm(x[m]))
        return out

    def seminorm(x, l1, un, pp, nn, groups, weights, work, *a, **k):
        return sum([v * weights[j] for j, v in enumerate(norms(x, l1, un, pp, nn, groups, weights))], 0.)

    def dual(x, l1, un, pp, nn, groups, weights, work, tol=1e-5, check_feasibility=0):
        v = norms(x, l1, un, pp, nn, groups, weights)
        best = 0.
        for j, u in enumerate(v):
            c = weights[j]
            if (c == 0):
                if check_feasibility:
                    raise Unsupported('infinite entries')
                continue
            best = shim.maximum(best, u / c)
        return best
    d[('regreg.atoms.group_lasso', 'seminorm_mixed_lasso')] = seminorm
    d[('regreg.atoms.group_lasso', 'seminorm_mixed_lasso_dual')] = dual
    return d


class GroupData(object):

    def __init__(self, w):
        self.w, N = w, w.np
        self.n, self.p = w.dim('n'), w.dim('p')
        self.K = w.choice('groups', [1, 2, 3, 4], sym=[1, 2])
        self.X, self.g = w.mat('X', self.n, self.p), w.labels('group of', self.p, self.K)
        self.gw = [w.pos('weight') if w.choice('penalised group?', [True, False]) else 0. for _ in range(self.K)]
        if not any(isinstance(v, float) is False or v > 0 for v in self.gw):
            self.gw[0] = w.pos('weight')
        self.L = AnySmooth(w, 'loss', (self.n,))
        if w.choice('elastic net?', [True, False]):
            self.alpha = w.pos('alpha')
            if w.symbolic:
                w.assume(self.alpha < 1)
            else:
                self.alpha = self.alpha / (1 + self.alpha)
        else:
            self.alpha = 1.
        self.d = w.vec('ridge', self.p, sign='nonneg') if w.choice('ridge weights?', [True, False]) else None

    def free(self, k):
        v = self.gw[k]
        return isinstance(v, float) and v == 0

    def pen(self):
        free = self.w.np.zeros(self.p, bool)
        for k in range(self.K):
            if self.free(k):
                free = free | (self.g == k)
        return ~free

    def ridge(self, lam):
        d = self.d if self.d is not None else self.w.np.ones(self.p)
        return (1 - self.alpha) * d * self.w.np.where(self.pen(), lam, 1.)

    def weights(self):
        return dict((k, v) for k, v in enumerate(self.gw))

    def path(self):
        D, w, X = self, self.w, self.X

        class Path(PG.group_lasso_path):
            def subsample_columns(self, T, columns):
                return X[:, columns]

            def solve_subproblem(self, solution, c, lam, **k):
                """by contract (see 'group lasso: sub-problem')"""
                if hasattr(self, 'grad_solution'):
                    return PG.group_lasso_path.solve_subproblem(self, solution, c, lam, **k)
                D.null = w.vec('null solution', D.p)
                D.asked = (solution, c, lam)
                inside = PG._candidate_bool(D.g, c)
                only = w.np.where(inside, D.null, 0.)
                return w.pos('step'), None, D.null[inside], D.X.dot(only), inside
        with swapped((PG, 'warn', lambda *a, **k: None)):
            return Path(self.L, X, self.g, weights=self.weights(), elastic_net_param=self.d, alpha=self.alpha)


def gnorm(w, x, m):
    return w.np.linalg.norm(x[m])


@contract('P17', 'group lasso: KKT check', [GR + '_check_KKT', GR + 'group_lasso_path.check_KKT', 'regreg/atoms/group_lasso.py:group_lasso_dual.terms', 'regreg/atoms/group_lasso.py:group_lasso.__init__'], cases=300, paths=3000, stubs=_group_stubs,
          note='proved for up to two groups of any size')
def gcheck(w):
    from regreg.atoms.group_lasso import group_lasso
    N, n = w.np, w.dim('n', 1, 6)
    K = w.choice('groups', [1, 2, 3], sym=[1, 2])
    g = w.labels('group of', n, K)
    gw = [w.pos('weight') if w.choice('penalised group?', [True, False]) else 0. for _ in range(K)]
    lam, G, x = w.pos('lagrange'), w.vec('gradient', n), w.vec('solution', n)
    if not w.symbolic:
        for k in range(K):
            m = g == k
            if w.rng.random() < .5:
                x[m] = 0
                G[m] *= lam * gw[k] * w.rng.choice([.5, 1, 1.009, 1.02, 3]) / (np.linalg.norm(G[m]) + 1e-300)
            elif w.rng.random() < .7:
                G[m] = -lam * gw[k] * x[m] / (np.linalg.norm(x[m]) + 1e-300) * w.rng.choice([1, 1 + .005 / (lam * gw[k] + 1e-9), 1 + .02 / (lam * gw[k] + 1e-9)])
        w._rec('solution', x), w._rec('gradient', G)
    pen = group_lasso(g, weights=dict(enumerate(gw)), lagrange=1)
    snap = w.snap(G, x, g)
    P = on_path(w, PG.group_lasso_path, pen, n, g, weights=dict(enumerate(gw)))
    with swapped((PG, 'rankdata', rank_stub(w))) if w.symbolic else contextlib.nullcontext():
        A, I = P.check_KKT(G, x, lam)
    e = 0 if w.symbolic else 1e-8
    mean = sum(gw, 0.) / K
    for k in range(K):
        m = g == k
        t, size = gnorm(w, x, m), gnorm(w, G, m)
        v = gw[k]
        if isinstance(v, float) and v == 0:
            w.true('an unpenalised group is never reported as discarded', I[k] < 0)
            w.true('an unpenalised group passes only with a small gradient', A[k] | (size <= TOL * mean + e))
        else:
            w.true('only zero groups with a gradient above the penalty are reported', (I[k] < 0) | ((t == 0) & (size > lam * v * (1 - e))))
            w.true('every zero group with a gradient above the penalty is reported', (t > 0) | (size <= (1 + TOL) * lam * v * (1 + e)) | (I[k] >= 0))
            if w.symbolic or t > 0:
                with N.errstate(all='ignore') if not w.symbolic else contextlib.nullcontext():
                    w.true('a nonzero group passes only within tolerance of its condition',
                           (t == 0) | A[k] | (gnorm(w, G + lam * v * x / t, m) <= TOL + e))
    w.unchanged('arguments unchanged', snap)

def subset(w, K):
    """some of the groups"""
    S = [k for k in range(K) if w.choice('candidate group?', [True, False])]
    return S or [0]


@contract('P17', 'group lasso: variables of groups', [GR + '_candidate_bool', HERE + 'sparse_group_lasso.py:_candidate_bool', HERE + 'sparse_group_block.py:_candidate_bool'], cases=60, stubs=_group_stubs, note='proved for up to three groups of any size')
def gcand(w):
    n = w.dim('n')
    K = w.choice('groups', [1, 2, 3, 4], sym=[1, 2, 3])
    g = w.labels('group of', n, K)
    S = subset(w, K)
    snap = w.snap(g)
    for m in (PG, PS, PB):
        inside = m._candidate_bool(g, S)
        for k in range(K):
            w.true('the variables of the candidate groups', w.np.all(~(g == k) | inside) if k in S else w.np.all(~((g == k) & inside)))
    w.unchanged('argument unchanged', snap)


@contract('P17', 'group lasso: sub-problem', [GR + 'group_lasso_path.solve_subproblem', GR + '_restricted_problem', GR + '_restricted_elastic_net', GR + 'group_lasso_path.enet_loss'], cases=60, paths=3000, stubs=_group_stubs,
          note='proved for up to two groups of any size; saturated loss: any smooth function; solver by contract')
def gsub(w):
    N = w.np
    D = GroupData(w)
    S = subset(w, D.K)
    lam, x = w.pos('lagrange'), w.vec('current', D.p)
    inside = D.g < 0
    for k in S:
        inside = inside | (D.g == k)
    if w.symbolic:
        inside = w.enumerated('candidates', inside)
        c = inside.enum
        w.sublabels(D.g, c, S)
        cand = {(PG, '_candidate_bool'): lambda g, s: inside}
    else:
        c, cand = np.nonzero(inside)[0], {}
    with solving(w, PG) as made:
        P = D.path()
        snap = w.snap(x, D.X)
        with swapped(*[k + (v,) for k, v in cand.items()]):
            step, g, soln, lp, which = P.solve_subproblem(x, S, lam, tol=1e-7)
    q = made[-1]
    w.eq('starts from the current coefficients', q.start, x[c])
    z = w.vec('z', w.np.asarray(c).shape[0])
    gc = D.g[c]
    Labels.known = [(w, gc, S)]
    want = D.L.val(D.X[:, c].dot(z)) + (D.ridge(lam)[c] * z * z).sum() / 2
    for k in S:
        want = want + D.alpha * lam * D.gw[k] * gnorm(w, z, gc == k)
    w.eq('the sub-problem is the full problem with the other groups zero', q.obj(z), want)
    w.eq('solution', soln, q.answer)
    w.eq('linear predictor of the solution', lp, D.X[:, c].dot(soln))
    w.true('which variables', N.all(which == inside))
    w.unchanged('arguments unchanged', snap)


@contract('P17', 'group lasso: strong set', [GR + '_strong_set', GR + 'group_lasso_path.strong_set'], cases=200, paths=3000, stubs=_group_stubs, note='proved for up to two groups of any size')
def gstrong(w):
    from regreg.atoms.group_lasso import group_lasso
    N, n = w.np, w.dim('n', 1, 6)
    K = w.choice('groups', [1, 2, 3], sym=[1, 2])
    g = w.labels('group of', n, K)
    gw = [w.pos('weight') if w.choice('penalised group?', [True, False]) else 0. for _ in range(K)]
    cur, new, G = w.pos('current'), w.pos('new'), w.vec('gradient', n)
    pen = group_lasso(g, weights=dict(enumerate(gw)), lagrange=1)
    snap = w.snap(G, g)
    if w.symbolic:
        s = PG._strong_set(pen, cur, new, G)
    else:
        S, s, V = on_path(w, PG.group_lasso_path, pen, n, g, weights=dict(enumerate(gw))).strong_set(cur, new, G)
        w.true('the same as groups and variables', list(np.nonzero(s)[0]) == list(S) and list(V) == list(np.nonzero(np.isin(g, S))[0]))
    t = 2 * new - cur
    e = 0 if w.symbolic else 1e-9
    for k in range(K):
        size, v = gnorm(w, G, g == k), gw[k]
        if isinstance(v, float) and v == 0:
            w.true('an unpenalised group is kept unless its gradient is zero', s[k] | (size == 0))
        else:
            w.true('a dropped group has a gradient below the threshold', s[k] | (size <= t * v + e))
            w.true('a kept group has a gradient above the threshold', ~s[k] | (size > t * v - e) if w.symbolic else (not s[k]) or size > t * v - e)
    w.unchanged('arguments unchanged', snap)


@contract('P17', 'group lasso: ridge gradient', [GR + 'group_lasso_path.enet_grad', GR + 'group_lasso_path.enet_loss'], cases=60, paths=3000, stubs=_group_stubs, note='proved for up to two groups of any size')
def genet(w):
    D = GroupData(w)
    with solving(w, PG):
        P = D.path()
    lam, x = w.pos('lagrange'), w.vec('current', D.p)
    snap = w.snap(x)
    w.eq('gradient of the ridge term', P.enet_grad(x, P._penalized_vars, lam), D.ridge(lam) * x)
    w.eq('gradient of the ridge loss', P.enet_loss(lam).smooth_objective(x, 'grad'), D.ridge(lam) * x)
    k = w.dim('k', hi=D.p if not w.symbolic else 6)
    c = w.positions('subset', k, D.p)
    w.eq('restricted to a subset', P.enet_grad(x, P._penalized_vars, lam, subset=c), (D.ridge(lam) * x)[c])
    w.unchanged('argument unchanged', snap)


@contract('P17', 'group lasso: start of the path', [GR + 'group_lasso_path.__init__', HERE + '__init__.py:grouped_path.full_gradient', GR + 'group_lasso_path.unpenalized'], cases=60, paths=3000, stubs=_group_stubs, note='proved for up to two groups of any size')
def gstart(w):
    N = w.np
    D = GroupData(w)
    with solving(w, PG):
        P = D.path()
    b = P.solution
    w.true('penalised coefficients are zero', N.all(~D.pen() | (b == 0)))
    free = [k for k in range(D.K) if D.free(k)]
    if free:
        x, c, lam = D.asked
        w.true('it is over the unpenalised groups', list(c) == free)
        w.eq('unpenalised coefficients solve the problem without the others', b, N.where(D.pen(), 0., D.null))
    w.eq('gradient of the smooth part', P.grad_solution, D.X.T.dot(D.L.grad(D.X.dot(b))) + D.ridge(1.) * b)
    w.true('unpenalised terms', list(P.unpenalized[0]) == free)
    for k in range(D.K):
        w.true('unpenalised terms (mask)', bool(P.unpenalized[1][k]) == (k in free))


@contract('P17', 'sequence of levels: group lasso', [HERE + '__init__.py:default_lagrange_sequence', 'regreg/atoms/group_lasso.py:group_lasso_dual.seminorm'], cases=150, paths=3000, stubs=_group_stubs, note='proved for up to two groups of any size; dual seminorm kernel by contract')
def glevels(w):
    from regreg.atoms.group_lasso import group_lasso
    N, n = w.np, w.dim('n', 1, 6)
    K = w.choice('groups', [1, 2, 3], sym=[1, 2])
    g = w.labels('group of', n, K)
    gw = [w.pos('weight') if w.choice('penalised group?', [True, False]) else 0. for _ in range(K)]
    pen = [k for k in range(K) if not (isinstance(gw[k], float) and gw[k] == 0)]
    G = w.vec('gradient', n)
    if not pen:
        return
    if w.symbolic:
        w.assume(gnorm(w, G, g == pen[0]) > 0)
    elif not any(gnorm(w, G, g == k) > 0 for k in pen):
        return
    prop = w.pos('proportion')
    alpha = w.pos('alpha')
    if w.symbolic:
        w.assume(prop < 1)
    else:
        prop, alpha = w._rec('proportion', .01 + .9 * prop / (1 + prop)), w._rec('alpha', .01 + alpha / (1 + alpha))
    steps = w.dim('steps', lo=2) if w.symbolic else w.choice('steps', [2, 3, 5, 100])
    snap = w.snap(G, g)
    Labels.known = [(w, g, list(range(K)))]
    s = PA.default_lagrange_sequence(group_lasso(g, weights=dict(enumerate(gw)), lagrange=1), G, lagrange_proportion=prop, nstep=steps, alpha=alpha)
    w.true('number of levels', s.shape[0] == steps)
    e = 0 if w.symbolic else 1e-9
    first = w.true
    reached = False
    for k in pen:
        size = gnorm(w, G, g == k)
        w.true('the null solution is optimal at the first level', size <= alpha * s[0] * gw[k] * (1 + e))
        reached = (size >= alpha * s[0] * gw[k] * (1 - e)) | reached
    w.true('and at no smaller one', reached)
    w.eq('the last level is the requested proportion', s[-1], prop * s[0])
    if w.symbolic:
        w.lemma('log', N.log(prop) < 0)
        w.lemma('step', -N.log(prop) / (steps - 1) > 0)
        w.lemma('ratio', N.exp(-N.log(prop) / (steps - 1)) > 1)
    w.true('levels decrease', N.all(s[1:] < s[:-1]))
    w.unchanged('arguments unchanged', snap)


# --- sparse group lasso --------------------------------------------------------

SG = HERE + 'sparse_group_lasso.py:'
BL = HERE + 'sparse_group_block.py:'


class SparseData(GroupData):
    """lasso weights as well; an unpenalised group has none"""

    def __init__(self, w):
        GroupData.__init__(self, w)
        lw = w.vec('lasso weights', self.p, sign='nonneg')
        if not w.symbolic:
            lw = lw * (w.rng.random(self.p) < .8)
        self.lw = w.np.where(self.pen(), lw, 0.)
        self.mix = w.pos('l1_alpha')
        if w.symbolic:
            w.assume(self.mix < 1)
        else:
            self.mix = self.mix / (1 + self.mix)

    def path(self):
        D, w, X = self, self.w, self.X

        class Path(PS.sparse_group_lasso_path):
            def subsample_columns(self, T, columns):
                return X[:, columns]

            def solve_subproblem(self, solution, c, lam, **k):
                """by contract (see 'sparse group lasso: sub-problem')"""
                if hasattr(self, 'grad_solution'):
                    return PS.sparse_group_lasso_path.solve_subproblem(self, solution, c, lam, **k)
                D.null = w.vec('null solution', D.p)
                D.asked = (solution, c, lam)
                inside = PS._candidate_bool(D.g, c)
                only = w.np.where(inside, D.null, 0.)
                return w.pos('step'), None, D.null[inside], D.X.dot(only), inside
        with swapped((PS, 'warn', lambda *a, **k: None)):
            return Path(self.L, X, self.g, self.lw, weights=self.weights(), elastic_net_param=self.d, alpha=self.alpha, l1_alpha=self.mix)


@contract('P17', 'sparse group lasso: sub-problem', [SG + 'sparse_group_lasso_path.solve_subproblem', SG + '_restricted_problem', GR + '_restricted_elastic_net', GR + 'group_lasso_path.enet_loss', 'regreg/atoms/sparse_group_lasso.py:sparse_group_lasso.seminorm'], cases=60, paths=3000, stubs=_group_stubs,
          note='proved for up to two groups of any size; saturated loss: any smooth function; solver by contract')
def ssub(w):
    N = w.np
    D = SparseData(w)
    S = subset(w, D.K)
    lam, x = w.pos('lagrange'), w.vec('current', D.p)
    inside = D.g < 0
    for k in S:
        inside = inside | (D.g == k)
    if w.symbolic:
        inside = w.enumerated('candidates', inside)
        c = inside.enum
        w.sublabels(D.g, c, S)
        cand = [(m, '_candidate_bool', lambda g, s: inside) for m in (PS, PG)]
    else:
        c, cand = np.nonzero(inside)[0], []
    with solving(w, PS) as made:
        P = D.path()
        snap = w.snap(x, D.X, D.lw)
        with swapped(*cand):
            step, g, soln, lp, which = P.solve_subproblem(x, S, lam, tol=1e-7)
    q = made[-1]
    w.eq('starts from the current coefficients', q.start, x[c])
    z = w.vec('z', w.np.asarray(c).shape[0])
    gc = D.g[c]
    Labels.known = [(w, gc, S)]
    want = D.L.val(D.X[:, c].dot(z)) + (D.ridge(lam)[c] * z * z).sum() / 2 + D.alpha * lam * D.mix * (D.lw[c] * abs(z)).sum()
    for k in S:
        want = want + D.alpha * lam * (1 - D.mix) * D.gw[k] * gnorm(w, z, gc == k)
    w.eq('the sub-problem is the full problem with the other groups zero', q.obj(z), want)
    w.eq('solution', soln, q.answer)
    w.eq('linear predictor of the solution', lp, D.X[:, c].dot(soln))
    w.true('which variables', N.all(which == inside))
    w.unchanged('arguments unchanged', snap)


@contract('P17', 'sparse group lasso: start of the path', [SG + 'sparse_group_lasso_path.__init__', HERE + '__init__.py:grouped_path.full_gradient', SG + 'sparse_group_lasso_path.unpenalized', GR + 'group_lasso_path.enet_grad'], cases=60, paths=3000, stubs=_group_stubs, note='proved for up to two groups of any size')
def sstart(w):
    N = w.np
    D = SparseData(w)
    with solving(w, PS):
        P = D.path()
    b = P.solution
    w.true('penalised coefficients are zero', N.all(~D.pen() | (b == 0)))
    free = [k for k in range(D.K) if D.free(k)]
    if free:
        x, c, lam = D.asked
        w.true('it is over the unpenalised groups', list(c) == free)
        w.eq('unpenalised coefficients solve the problem without the others', b, N.where(D.pen(), 0., D.null))
    w.eq('gradient of the smooth part', P.grad_solution, D.X.T.dot(D.L.grad(D.X.dot(b))) + D.ridge(1.) * b)
    w.true('unpenalised terms', list(P.unpenalized[0]) == free)
    for k in range(D.K):
        w.true('unpenalised terms (mask)', bool(P.unpenalized[1][k]) == (k in free))
    lam, x = w.pos('lagrange'), w.vec('current', D.p)
    w.eq('gradient of the ridge term', P.enet_grad(x, P._penalized_vars, lam), D.ridge(lam) * x)
    w.eq('gradient of the ridge loss', P.enet_loss(lam).smooth_objective(x, 'grad'), D.ridge(lam) * x)
    z = w.vec('z', D.p)
    Labels.known = [(w, D.g, list(range(D.K)))]
    pen = P.restricted_penalty(None)
    pen.lagrange = lam
    want = lam * D.mix * (D.lw * abs(z)).sum()
    for k in range(D.K):
        want = want + lam * (1 - D.mix) * D.gw[k] * gnorm(w, z, D.g == k)
    w.eq('penalty', pen.nonsmooth_objective(z), want)


@contract('P17', 'sparse group lasso: strong set', [SG + '_strong_set', SG + 'sparse_group_lasso_path.strong_set', 'regreg/atoms/sparse_group_lasso.py:_inside_set_strong'], cases=200, paths=3000, stubs=_group_stubs, note='proved for up to two groups of any size')
def sstrong(w):
    from regreg.atoms.sparse_group_lasso import sparse_group_lasso
    N, n = w.np, w.dim('n', 1, 6)
    K = w.choice('groups', [1, 2, 3], sym=[1, 2])
    g = w.labels('group of', n, K)
    gw = [w.nonneg('weight') for _ in range(K)]
    lw = w.vec('lasso weights', n, sign='nonneg')
    cur, new, G = w.pos('current'), w.pos('new'), w.vec('gradient', n)
    pen = sparse_group_lasso(g, lw, weights=dict(enumerate(gw)), lagrange=1)
    snap = w.snap(G, g, lw)
    if w.symbolic:
        s = PS._strong_set(pen, None, cur, new, G)
    else:
        S, s, V = on_path(w, PS.sparse_group_lasso_path, pen, n, g, lw, weights=dict(enumerate(gw)), l1_alpha=.5).strong_set(cur, new, G)
        w.true('the same as groups and variables', list(np.nonzero(s)[0]) == list(S) and list(V) == list(np.nonzero(np.isin(g, S))[0]))
    t = 2 * new - cur
    e = 0 if w.symbolic else 1e-9
    for k in range(K):
        m = g == k
        rest = gnorm(w, N.maximum(abs(G) - t * lw, 0), m)
        lim = t * (gw[k] + 1e-5)
        w.true('a dropped group has a thresholded gradient within the bound', (rest <= lim + e) | s[k])
        w.true('a kept group has not', (rest > lim - e) | ~s[k] if w.symbolic else rest > lim - e or not s[k])
    w.unchanged('arguments unchanged', snap)


@contract('P17', 'sparse group lasso: KKT check', [SG + '_check_KKT', SG + 'sparse_group_lasso_path.check_KKT', 'regreg/atoms/sparse_group_lasso.py:sparse_group_lasso.terms'], cases=300, paths=3000, stubs=_group_stubs,
          note='proved for up to two groups of any size; size of a gradient by contract (proved above)')
def scheck(w):
    from regreg.atoms.sparse_group_lasso import sparse_group_lasso
    import regreg.atoms.sparse_group_lasso as SL
    N, n = w.np, w.dim('n', 1, 6)
    K = w.choice('groups', [1, 2, 3], sym=[1, 2])
    g = w.labels('group of', n, K)
    gw = [w.pos('weight') if w.choice('weighted group?', [True, False]) else 0. for _ in range(K)]
    lw = w.vec('lasso weights', n, sign='nonneg')
    lam, G, x = w.pos('lagrange'), w.vec('gradient', n), w.vec('solution', n)
    if not w.symbolic:
        for k in range(K):
            m = g == k
            lw[m] *= w.rng.choice([0, 1]) if gw[k] > 0 else 1
            if w.rng.random() < .4:
                x[m] = 0
            if gw[k] > 0 and w.rng.random() < .7 and x[m].any():
                r = w.rng.choice([1, .5, .995, 1.005, 1.05, 4])
                G[m] = -lam * r * (lw[m] * np.sign(x[m]) + gw[k] * x[m] / np.linalg.norm(x[m]))
        w._rec('lasso weights', lw), w._rec('solution', x), w._rec('gradient', G)
    pen = sparse_group_lasso(g, lw, weights=dict(enumerate(gw)), lagrange=1)
    snap = w.snap(G, x, g, lw)
    P = on_path(w, PS.sparse_group_lasso_path, pen, n, g, lw, weights=dict(enumerate(gw)), l1_alpha=.5)
    asked, real = [], SL._gauge_function_dual_strong

    def gauge(point, l1, l2):
        """by contract (see 'sparse group lasso: size of a gradient')"""
        if w.symbolic:
            v = w.pos('size')
            S = N.maximum(abs(point) - v * l1, 0) * N.sign(point)
            r = v, point - S, S / N.linalg.norm(S) * l2 * v
        else:
            r = real(point, l1, l2)
            if r[1] is None:
                raise Skip()
        asked.append(r)
        return r
    with swapped((PS, '_gauge_function_dual_strong', gauge)), (swapped((PS, 'rankdata', rank_stub(w))) if w.symbolic else contextlib.nullcontext()):
        A, I = P.check_KKT(G, x, lam)
    e = 0 if w.symbolic else 1e-8
    j = 0
    whole = N.linalg.norm(x)
    for k in range(K):
        m = g == k
        b, l1 = x[m], lw[m]
        size = gnorm(w, x, m)
        if (size * gw[k] + (abs(b) * l1).sum() > 1e-6 * whole):
            v, one, two = asked[j]
            j += 1
            w.true('an active group is never reported as discarded', I[k] < 0)
            w.true('an active group passes only with a gradient of the right size', A[k] | (abs(v - lam) <= TOL * lam * (1 + e)))
            off = N.linalg.norm((one - l1 * N.sign(b) * lam)[b != 0])
            w.true('and with the right lasso part', A[k] | (off <= TOL * N.maximum(1, N.linalg.norm(b)) * (1 + e)))
            if isinstance(gw[k], float) and gw[k] == 0 or not w.symbolic and np.isnan(two).any():
                continue
            away = N.linalg.norm(two / N.linalg.norm(two) - b / N.linalg.norm(b))
            w.true('and in the right direction', A[k] | (away <= TOL * (1 + e)))
        elif l1.sum() + gw[k] > 0:
            v = asked[j][0]
            j += 1
            w.true('a zero group is reported when its gradient is too large', (v <= (1 + TOL) * lam * (1 + e)) | (I[k] >= 0))
            w.true('and only then', (v > (1 + TOL) * lam * (1 - e)) | (I[k] < 0))
        else:
            w.true('an unpenalised group is never reported as discarded', I[k] < 0)
            w.true('an unpenalised group passes only with a small gradient', A[k] | (gnorm(w, G, m) <= TOL * lw.mean() + e))
    w.unchanged('arguments unchanged', snap)


@contract('P17', 'sparse group lasso: size of a gradient', ['regreg/atoms/sparse_group_lasso.py:_gauge_function_dual_strong', 'regreg/atoms/sparse_group_lasso.py:_inside_set_strong'], cases=200, paths=3000,
          note='binary search by loop invariant: the answer is bracketed by a bound that is too small and one that is enough; termination not claimed')
def sgauge(w):
    import regreg.atoms.sparse_group_lasso as SL
    N, n = w.np, w.dim('n', 1, 6)
    G, lw, gw = w.vec('gradient', n), w.vec('lasso weights', n, sign='nonneg'), w.nonneg('weight')
    if not w.symbolic:
        how = w.choice('weights', ['both', 'group', 'lasso'])
        lw, gw = lw * (how != 'group'), gw * (how != 'lasso')
        G = G * 10. ** w.rng.integers(-3, 4)
    soft = lambda b: N.maximum(abs(G) - b * lw, 0)
    norm = (lambda v: N.linalg.norm(v)) if w.symbolic else np.linalg.norm
    slack = 1e-5
    inside = lambda b: norm(soft(b)) <= b * (gw + slack)
    snap = w.snap(G, lw)
    if not w.symbolic:
        v, one, two = SL._gauge_function_dual_strong(G, lw, gw)
        enough = v * (1 + 2e-6)
        if v == 0:
            w.true('zero only for a negligible gradient', inside(2. ** -40))
            return
        if np.isinf(v):
            w.true('infinite only for a huge one', not inside(2. ** 40))
            return
        w.true('the answer is enough', inside(enough))
        w.true('no smaller bound is', not inside(v * (1 - 2e-6)))
        w.unchanged('arguments unchanged', snap)
    else:
        TOL = 1.e-6

        class C(Loop):
            def state(self, i, env):
                up = w.pos('upper')
                if i == 0:
                    return {'lower': up, 'upper': up, 'iter': w.integer('iter', 0, 60)}
                if i == 1:
                    return {'lower': up, 'upper': up, 'iter': w.integer('iter', 0, 60)}
                low = w.pos('lower')
                if w.choice('first time?', [True, False]):
                    return {'lower': low, 'upper': 2 * low}
                mid = low if w.choice('which end moved?', [True, False]) else up
                w.assume(low < up)
                return {'lower': low, 'upper': up, 'mid': mid}

            def havoc(self, i, env, names):
                new = Loop.havoc(self, i, env, names)
                if i == 0:
                    w.assume(inside(new['upper']))
                elif i == 1:
                    w.assume(~inside(new['upper']))
                else:
                    w.assume(inside(new['upper']))
                    w.assume(~inside(new['lower']))
                return new

            def invariant(self, i, env, when):
                low, up = env['lower'], env['upper']
                w.true('positive bounds ' + when, low > 0)
                if i == 0:
                    w.true('one bound so far ' + when, low == up)
                    w.true('which is enough ' + when, inside(up))
                elif i == 1:
                    w.true('one bound so far ' + when, low == up)
                    w.true('which is too small ' + when, ~inside(up))
                else:
                    w.true('bounds in order ' + when, low < up)
                    w.true('upper bound is enough ' + when, inside(up))
                    w.true('lower bound is too small ' + when, ~inside(low))
                    if when == 'on entry':
                        w.true('search starts within a factor of two', up == 2 * low)
                    else:
                        w.true('an end moved', (env['mid'] == low) | (env['mid'] == up))

        L = C(w)
        f = cut(SL._gauge_function_dual_strong, L)
        if L.loops != 3:
            raise Unsupported('%d loops' % L.loops)
        try:
            v, one, two = f(G, lw, gw)
        except PathEnd:
            return
        if one is None:         # gave up after max_iter doublings
            return
        w.true('the answer is positive', v > 0)
        h = L.head
        low, up = h['lower'], h['upper']
        w.true('the answer is one of the bounds', (v == low) | (v == up))
        w.true('upper bound is enough', inside(up))
        w.true('lower bound is not', ~inside(low))
        w.true('they are as close as asked', up - low <= TOL * .5 * (up + low))
        w.unchanged('arguments unchanged', snap)
    S = soft(v) * N.sign(G)
    w.eq('part within the lasso weights', one, G - S)
    if norm(S) > 0:
        w.eq('direction of the rest', two * norm(S), S * gw * v)


# --- whole runs (bounded) ----------------------------------------------------

class Problem(object):
    """a random problem with an oracle of its own for the optimality conditions"""

    def __init__(self, w, kind, family):
        r = w.rng
        self.kind, self.family = kind, family
        n, p = int(r.integers(25, 50)), int(r.integers(3, 16))
        X = r.standard_normal((n, p))
        if r.random() < .6:         # correlated columns: screening makes mistakes
            X = X * .4 + r.standard_normal((n, 1)) * r.choice([-1., 1.], p)
        if r.random() < .3:
            X[:, r.integers(0, p)] *= 3
        if r.random() < .3 and p > 3:
            X[:, 1] = X[:, 0] + .1 * r.standard_normal(n)
        b = r.standard_normal(p) * (r.random(p) < .4)
        eta = X.dot(b)
        if family == 'gaussian':
            y = eta + r.standard_normal(n)
        elif family == 'logistic':
            y = (r.random(n) < 1 / (1 + np.exp(-eta))) * 1.
            y[:2] = 0, 1
        else:
            y = r.poisson(np.exp(np.clip(eta, -2, 2))) * 1.
        self.X, self.y, self.p = X, y, p
        self.alpha = float(r.choice([1., .5, .9]))
        self.l1_alpha = float(r.choice([.2, .5, .95]))
        self.lasso_w = r.choice([.5, 1., 1., 2.], p)
        free = r.random(p) < r.choice([0., .25])
        if kind == 'lasso':
            free[r.integers(0, p)] = False
            self.lasso_w = np.where(free, 0, self.lasso_w)
            self.pen = ~free
        else:
            K = int(r.integers(2, 6))
            ids = r.choice(np.array([10, 3, 7, 1, 25, 4]), min(K, p), replace=False)
            g = r.choice(ids, p)
            g[:len(ids)] = ids
            self.groups = g
            self.group_w = {int(i): float(r.choice([.5, 1., 2.])) for i in ids}
            if r.random() < .4:
                k = int(r.choice(ids[1:]))
                self.group_w[k] = 0.
                self.lasso_w = np.where(g == k, 0, self.lasso_w)
            elif kind == 'sgl' and r.random() < .3:
                self.lasso_w = np.where(g == ids[0], 0, self.lasso_w)    # group term only
            self.pen = np.array([self.group_w[int(i)] > 0 for i in g])
        self.d = np.where(self.pen, r.choice([1., .5], p), 0) if r.random() < .7 else None
        if self.d is None:
            self.alpha = 1. if not self.pen.all() else self.alpha
        for k, v in (('X', X), ('y', y), ('alpha', self.alpha), ('l1_alpha', self.l1_alpha), ('lasso weights', self.lasso_w), ('ridge', self.d), ('family', family)):
            w._rec(k, v)
        if kind != 'lasso':
            w._rec('groups', self.groups)
            w._rec('group weights', self.group_w)

    def path(self):
        k = dict(elastic_net_param=None if self.d is None else self.d.copy(), alpha=self.alpha)
        if self.kind == 'lasso':
            return getattr(PL, self.family)(self.X, self.y, self.lasso_w, **k)
        if self.kind == 'group':
            return getattr(PG, self.family)(self.X, self.y, self.groups, weights=dict(self.group_w), **k)
        return getattr(PS, self.family)(self.X, self.y, self.groups, self.lasso_w, weights=dict(self.group_w), l1_alpha=self.l1_alpha, **k)

    def grad(self, b, X=None, y=None):
        X, y = (self.X, self.y) if X is None else (X, y)
        e = X.dot(b)
        mu = {'gaussian': lambda: e, 'logistic': lambda: 1 / (1 + np.exp(-e)), 'poisson': lambda: np.exp(e)}[self.family]()
        return X.T.dot(mu - y)

    def ridge(self, lam):
        d = np.ones(self.p) if self.d is None else self.d
        return (1 - self.alpha) * d * np.where(self.pen, lam, 1.)

    def blocks(self):
        """groups, their lasso weights and their norm weight"""
        if self.kind == 'lasso':
            return [(np.array([j]), self.lasso_w[[j]], 0.) for j in range(self.p)]
        a = 0. if self.kind == 'group' else self.l1_alpha
        return [(np.nonzero(self.groups == g)[0], self.lasso_w[self.groups == g] * a, v * (1 - a)) for g, v in self.group_w.items()]

    def kkt(self, b, lam, *data):
        """largest failure: of the discarded (relative to the penalty), of the others (relative to the null gradient)"""
        g = self.grad(b, *data) + self.ridge(lam) * b
        scale = np.fabs(self.grad(np.zeros(self.p), *data)).max()
        out, act = 0., 0.
        for c, lw, gw in self.blocks():
            lw, gw = lw * lam * self.alpha, gw * lam * self.alpha
            if not lw.any() and not gw:
                act = max(act, np.fabs(g[c]).max())
            elif np.fabs(b[c]).max() < 1e-10:
                rest = np.sqrt((np.maximum(np.fabs(g[c]) - lw * (1 + TOL), 0) ** 2).sum())
                size = max(gw, 1e-12) if gw else max(lw.max(), 1e-12)
                out = max(out, (rest - gw * (1 + TOL)) / size)
            else:
                u = g[c] + gw * b[c] / np.sqrt((b[c] ** 2).sum())
                f = np.where(b[c] != 0, np.fabs(u + lw * np.sign(b[c])), np.maximum(np.fabs(u) - lw, 0))
                act = max(act, f.max())
        return out, act / scale

    def maximal(self, g0):
        """the smallest level at which the penalised coefficients are zero"""
        best = 0.
        for c, lw, gw in self.blocks():
            if not lw.any() and not gw:
                continue
            lo, hi = 0., 1.
            ok = lambda t: np.sqrt((np.maximum(np.fabs(g0[c]) - t * lw, 0) ** 2).sum()) <= t * gw + (0 if gw else 1e-14)
            while not ok(hi):
                hi *= 2
            for _ in range(200):
                m = (lo + hi) / 2
                lo, hi = (lo, m) if ok(m) else (m, hi)
            best = max(best, hi)
        return best / self.alpha

def block_path(w, shape, l1, l2):
    from regreg.atoms.sparse_group_block import sparse_group_block
    if w.symbolic:
        P = object.__new__(PB.sparse_group_common_path)
    else:
        r = np.random.default_rng(shape[0])
        X = r.standard_normal((shape[0] + 3, shape[0]))
        P = PB.multiresponse_gaussian(X, r.standard_normal((shape[0] + 3, shape[1])) + 2, 1., 1.)
    P.penalty = sparse_group_block(shape, l1, l2, lagrange=1)
    return P


BLK = HERE + 'sparse_group_block.py:'


@contract('P17', 'block paths: strong set', [BLK + '_strong_set', BLK + 'sparse_group_common_path.strong_set'], cases=200, note='proved for up to two variables, any number of responses')
def bstrong(w):
    N, q = w.np, w.dim('q', 1, 4)
    K = w.choice('variables', [1, 2, 4], sym=[1, 2])
    l1, l2 = w.nonneg('l1 weight'), w.nonneg('l2 weight')
    cur, new = w.pos('current'), w.pos('new')
    G = w.mat('gradient', K, q)
    if w.symbolic:
        s = PB._strong_set(l1, l2, cur, new, G)
    else:
        S, s, V = block_path(w, (K, q), l1, l2).strong_set(cur, new, G)
        w.true('the same as positions', list(np.nonzero(s)[0]) == list(S) == list(V))
    t = 2 * new - cur
    e = 0 if w.symbolic else 1e-9
    for k in range(K):
        rest = N.linalg.norm(N.maximum(abs(G[k]) - t * l1, 0))
        lim = t * (l2 + 1e-5)
        w.true('a dropped variable has a thresholded gradient within the bound', (rest <= lim + e) | s[k])
        w.true('a kept variable has not', (rest > lim - e) | ~s[k] if w.symbolic else rest > lim - e or not s[k])


@contract('P17', 'block paths: KKT check', [BLK + '_check_KKT', BLK + 'sparse_group_common_path.check_KKT'], sym=False, cases=400, note='ranks by argsort')
def bcheck(w):
    N, q = w.np, w.dim('q', 1, 4)
    K = w.choice('variables', [1, 2, 4], sym=[1, 2])
    l1, l2 = w.nonneg('l1 weight'), w.pos('l2 weight')
    lam, G, x = w.pos('lagrange'), w.mat('gradient', K, q), w.mat('solution', K, q)
    for k in range(K):
        if w.rng.random() < .5:
            x[k] = 0
            # a gradient of size about the penalty
            G[k] *= w.rng.choice([.5, 1.005, 1.02, 3]) * lam / (_size(G[k], l1, l2) + 1e-300)
        else:
            x[k] *= w.rng.random(q) < .7
            if x[k].any():
                one, two = np.sign(x[k]), x[k] / np.linalg.norm(x[k])
                z = (x[k] == 0) * w.rng.uniform(-1, 1, q)
                G[k] = -lam * w.rng.choice([1., 1., 1.005, 1.02, .5]) * (l1 * (one + z) + l2 * two)
                if w.rng.random() < .3:
                    G[k] += w.rng.choice([1e-3, .1, 1.]) * lam * w.rng.standard_normal(q)
    w._rec('solution', x), w._rec('gradient', G)
    snap = w.snap(G, x)
    A, I = block_path(w, (K, q), l1, l2).check_KKT(G, x, lam)
    size = np.sqrt((x ** 2).sum(1))
    whole = max(size.sum(), 1)
    for k in range(K):
        v = _size(G[k], l1, l2)
        if size[k] > TOL * whole * (1 + 1e-9):
            w.true('an active variable is never reported as discarded', I[k] < 0)
            if A[k]:
                continue
            w.true('an active variable passes only with a gradient of the right size', abs(v - lam) <= TOL * lam * (1 + 1e-4))
            one = np.clip(-G[k], -v * l1, v * l1)
            two = -G[k] - one
            on = x[k] != 0
            w.true('and with the right lasso part', np.linalg.norm((one - l1 * np.sign(x[k]) * lam)[on]) <= TOL * max(1, size[k]) * (1 + 1e-4) + 1e-5 * lam)
            if np.linalg.norm(two) > 1e-3 * lam:
                away = np.linalg.norm(two / np.linalg.norm(two) - x[k] / size[k])
                w.true('and in the right direction', away <= TOL * (1 + 1e-2))
            exact = np.fabs(G[k] + lam * (l1 * np.sign(x[k]) + l2 * x[k] / size[k]))[on].max()
            w.true('within tolerance of its condition', exact <= 20 * TOL * (lam * (l1 + l2) + size[k] + 1))
        elif size[k] < TOL * whole * (1 - 1e-9):
            w.true('a small variable is reported when its gradient is too large', v <= (1 + TOL) * lam * (1 + 1e-4) or I[k] >= 0)
            w.true('and only then', v > (1 + TOL) * lam * (1 - 1e-4) or I[k] < 0)
    w.unchanged('arguments unchanged', snap)


def _size(g, l1, l2):
    """the smallest b with |soft(g, b l1)| <= b l2, by bisection"""
    out = lambda b: np.linalg.norm(np.maximum(np.fabs(g) - b * l1, 0)) > b * l2
    hi = 1.
    while out(hi):
        hi *= 2
        if hi > 1e12:
            return hi
    lo = 0.
    for _ in range(80):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if out(mid) else (lo, mid)
    return hi


class BlockProblem(object):
    """several responses, one row of coefficients per variable; oracle of its own"""

    def __init__(self, w, family):
        r = w.rng
        self.kind, self.family = 'block', family
        n, p, q = int(r.integers(25, 50)), int(r.integers(3, 12)), int(r.integers(2, 5))
        mixed = r.random() < .6
        one = lambda: r.standard_normal((n, p)) * (.4 if mixed else 1) + (r.standard_normal((n, 1)) * r.choice([-1., 1.], p) if mixed else 0)
        self.Xs = [one() for _ in range(q)] if family == 'stacked' else [one()] * q
        b = r.standard_normal((p, q)) * (r.random((p, 1)) < .4)
        self.sub = None
        eta = np.array([X.dot(c) for X, c in zip(self.Xs, b.T)]).T
        if family == 'stacked':
            self.one = w.choice('response', ['gaussian', 'logistic', 'poisson'])
        else:
            self.one = family
        if self.one == 'gaussian':
            self.y = eta + r.standard_normal((n, q))
        elif self.one == 'logistic':
            self.y = (r.random((n, q)) < 1 / (1 + np.exp(-eta))) * 1.
            self.y[:2] = [[0], [1]]
        elif self.one == 'poisson':
            self.y = r.poisson(np.exp(np.clip(eta, -2, 2))) * 1.
        else:
            e = np.exp(eta - eta.max(1)[:, None])
            self.y = np.array([r.multinomial(1, v) for v in e / e.sum(1)[:, None]]) * 1.
        self.n, self.p, self.q = n, p, q
        self.alpha = float(r.choice([1., .5, .9]))
        self.l1, self.l2 = [(1., 1.), (.5, 2.), (0., 1.), (1., 0.)][int(r.integers(0, 4))]
        self.l1_alpha = float(r.choice([.2, .5, .95])) if r.random() < .5 else None
        self.d = r.choice([1., .5], (p, q)) if r.random() < .7 else None
        self.pen = np.ones((p, q), bool)
        self.X, self.lasso_w = np.array(self.Xs), np.array([self.l1, self.l2])
        for k in ('X', 'y', 'alpha', 'l1_alpha', 'l1', 'l2', 'd', 'family'):
            w._rec(k, getattr(self, k))

    def path(self):
        k = dict(elastic_net_param=None if self.d is None else self.d.copy(), alpha=self.alpha, l1_alpha=self.l1_alpha)
        if self.family == 'gaussian':
            return PB.multiresponse_gaussian(self.Xs[0], self.y, self.l1, self.l2, **k)
        if self.family == 'multinomial':
            return PB.multinomial(self.Xs[0], self.y, self.l1, self.l2, **k)
        return getattr(PB, 'stacked_' + self.one)(self.Xs, list(self.y.T), self.l1, self.l2, **k)

    def grad(self, b, keep=None):
        e = np.array([X.dot(c) for X, c in zip(self.Xs, b.T)]).T
        y = self.y
        if self.one == 'multinomial':
            mu = np.exp(e - e.max(1)[:, None])
            mu = mu / mu.sum(1)[:, None] * y.sum(1)[:, None]
        else:
            mu = {'gaussian': lambda: e, 'logistic': lambda: 1 / (1 + np.exp(-e)), 'poisson': lambda: np.exp(e)}[self.one]()
        res = mu - y
        if keep is not None:
            res = res * (keep if keep.ndim == 2 else keep[:, None])
        return np.array([X.T.dot(v) for X, v in zip(self.Xs, res.T)]).T

    def ridge(self, lam):
        return (1 - self.alpha) * (np.ones((self.p, self.q)) if self.d is None else self.d) * lam

    def weights(self):
        if self.l1_alpha is None:
            return self.l1, self.l2
        return self.l1 * self.l1_alpha, self.l2 * (1 - self.l1_alpha)

    def kkt(self, b, lam, *data):
        g = self.grad(b, *data) + self.ridge(lam) * b
        scale = np.fabs(self.grad(np.zeros_like(b), *data)).max()
        out, act = 0., 0.
        lw, gw = [v * lam * self.alpha for v in self.weights()]
        for u, x in zip(g, b):
            if np.fabs(x).max() < 1e-10:
                rest = np.sqrt((np.maximum(np.fabs(u) - lw * (1 + TOL), 0) ** 2).sum())
                out = max(out, (rest - gw * (1 + TOL)) / (gw or lw))
            else:
                u = u + gw * x / np.sqrt((x ** 2).sum())
                act = max(act, np.where(x != 0, np.fabs(u + lw * np.sign(x)), np.maximum(np.fabs(u) - lw, 0)).max())
        return out, act / scale

    def maximal(self, g0):
        best = 0.
        lw, gw = self.weights()
        for u in g0:
            lo, hi = 0., 1.
            ok = lambda t: np.sqrt((np.maximum(np.fabs(u) - t * lw, 0) ** 2).sum()) <= t * gw + (0 if gw else 1e-14)
            while not ok(hi):
                hi *= 2
            for _ in range(200):
                m = (lo + hi) / 2
                lo, hi = (lo, m) if ok(m) else (m, hi)
            best = max(best, hi)
        return best / self.alpha


def run(w, how, kind):
    r = w.rng
    if kind == 'block':
        Q = BlockProblem(w, w.choice('family', ['gaussian', 'multinomial', 'stacked']))
    else:
        Q = Problem(w, kind, w.choice('family', ['gaussian', 'logistic', 'poisson']))
    snap = w.snap(Q.X, Q.y, Q.lasso_w)
    with swapped(*[(m, 'warn', lambda *a, **k: None) for m in (PL, PG, PS, PB)]):
        P = Q.path()
        data = ()
        if how == 'subsample':
            P, data, how = subsampled(w, P, Q)
    b0, g0 = P.solution.copy(), P.grad_solution.copy()
    w.true('null solution: penalised coefficients are zero', not b0[Q.pen].any())
    _, act = Q.kkt(b0, 1e9, *data)
    w.true('null solution: unpenalised coefficients are optimal (%.1e)' % act, act < 1e-2)
    w.eq('null gradient', g0, Q.grad(b0, *data) + Q.ridge(1.) * b0, tol=1e-6, scale=np.fabs(g0).max() + 1)
    steps, prop = int(r.choice([2, 3, 6, 12])), float(r.choice([.7, .3, .1]))
    seq = PA.default_lagrange_sequence(P.penalty, g0, nstep=steps, lagrange_proportion=prop, alpha=Q.alpha)
    w._rec('levels', seq)
    w.eq('the first level is the smallest with a zero solution', seq[0], Q.maximal(g0), tol=1e-4)
    w.eq('the last level is the requested proportion', seq[-1], prop * seq[0], tol=1e-9)
    w.true('levels decrease', len(seq) == steps and np.all(np.diff(seq) < 0))
    if kind == 'lasso' and r.random() < .3:        # any decreasing sequence from the first level on
        seq = seq[0] * np.sort(np.r_[1., r.uniform(prop, 1, steps)])[::-1]
    initial = (b0.copy(), g0.copy())
    tol = 1e-9 if how == 'strong' else 1e-12        # strong rules stop on the change of the coefficients
    warned = []
    with swapped((PA, 'warn', lambda *a, **k: warned.append(a)), (PA, 'gc', NOGC)):
        if how == 'strong':
            out = PA.strong_rules(P, seq, initial, inner_tol=tol)
            w.eq('levels reported', out['lagrange'], seq)
            B = out['beta']
        elif how == 'basil':
            B = BA.basil(P, seq, initial, inner_tol=tol, step_nvar=int(r.choice([1, 2, 50])), step_lagrange=int(r.choice([1, 2, 5])))
        else:
            out = PA.warm_start(P, seq, initial, inner_tol=tol)
            w.eq('levels reported', out['lagrange'], seq)
            B = out['beta']
    if warned:
        return
    w.true('one solution per level', B.shape == (len(seq),) + b0.T.shape)
    for lam, b in zip(seq, B):
        out, act = Q.kkt(b.T, lam, *data)
        w.true('level %.3g: no discarded variable violates the conditions (%.1e)' % (lam / seq[0], out), out <= 1e-6)
        w.true('level %.3g: the others satisfy them (%.1e)' % (lam / seq[0], act), act <= 1e-2)
    w.eq('initial solution unchanged', initial[0], b0)
    w.eq('initial gradient unchanged', initial[1], g0)
    w.unchanged('data unchanged', snap)


def subsampled(w, P, Q):
    """the path on some of the cases: the problem without the others"""
    n = len(Q.y)
    keep = w.rng.random(n) < w.rng.choice([.9, .6])
    keep[:4] = True
    if Q.kind == 'block' and Q.family == 'stacked':      # cases of the stacked responses
        keep = (w.rng.random((n, Q.q)) < .8)
        keep[:4] = True
        every = keep.T.reshape(-1)
    else:
        every = keep
    idx = every if w.choice('cases as', ['mask', 'positions']) == 'mask' else np.nonzero(every)[0]
    w._rec('cases', idx)
    S = P.subsample(idx)
    return S, ((keep,) if Q.kind == 'block' else (Q.X[keep], Q.y[keep])), w.choice('then', ['strong', 'basil', 'warm'])


def concrete_path(w, how):
    run(w, how, w.choice('penalty', ['lasso', 'group', 'sgl', 'block']))


@contract('P17', 'warm starts: whole runs', [HERE + '__init__.py:warm_start', GR + 'group_lasso_path.__init__', SG + 'sparse_group_lasso_path.__init__', BL + 'sparse_group_common_path.__init__', BL + 'sparse_group_block_path.subsample_columns'], sym=False, cases=60,
          note='bounded: random problems, each level against an oracle of the optimality conditions')
def wwarm(w):
    concrete_path(w, 'warm')


@contract('P17', 'subsampled paths: whole runs', [LA + 'lasso_path.subsample', GR + 'group_lasso_path.subsample', SG + 'sparse_group_lasso_path.subsample', BL + 'sparse_group_common_path.subsample', BL + 'sparse_group_block_path.subsample'], sym=False, cases=60,
          note='bounded: a subsampled path has the solutions of the problem without the other cases')
def wsub(w):
    concrete_path(w, 'subsample')


@contract('P17', 'losses of the path constructors', [m + f for m in (LA, GR, SG) for f in ('gaussian', 'logistic', 'probit', 'cloglog', 'poisson', 'cox', 'huber', 'huber_svm')] + [BL + 'stacked_' + f for f in ('gaussian', 'logistic', 'probit', 'cloglog', 'poisson', 'cox', 'huber', 'huber_svm')] + [BL + 'multiresponse_gaussian', BL + 'multinomial'], sym=False, cases=120,
          note='bounded: the loss of each constructor against the loss proved in P11')
def losses(w):
    from regreg.smooth import glm
    r = w.rng
    n, p, q = int(r.integers(6, 12)), int(r.integers(2, 4)), int(r.integers(2, 4))
    fam = w.choice('family', ['gaussian', 'logistic', 'probit', 'cloglog', 'poisson', 'cox', 'huber', 'huber_svm'])
    kind = w.choice('path', ['lasso', 'group', 'sgl', 'stacked'])
    t = float(r.uniform(.2, 1))

    def response():
        if fam in ('logistic', 'probit', 'cloglog', 'huber_svm'):
            y = (r.random(n) < .5) * 1.
            y[:2] = 0, 1
            return (y,)
        if fam == 'poisson':
            return (r.poisson(2, n) * 1.,)
        if fam == 'cox':
            return r.permutation(n) + 1., (r.random(n) < .7) * 1.
        return (r.standard_normal(n),)

    def loss(y):
        name = {'huber': 'huber_loss', 'huber_svm': 'huber_svm'}.get(fam, fam + '_loglike')
        return getattr(glm, name)((n,), *y, **({'smoothing_parameter': t} if fam.startswith('huber') else {}))
    extra = (t,) if fam.startswith('huber') else ()
    with swapped(*[(m, 'warn', lambda *a, **k: None) for m in (PL, PG, PS, PB)]):
        if kind == 'stacked':
            ys = [response() for _ in range(q)]
            Xs = [r.standard_normal((n, p)) for _ in ys]
            P = getattr(PB, 'stacked_' + fam)(Xs, *([list(v) for v in zip(*ys)] + list(extra)), 1., 1.)
            eta = r.standard_normal((n, q))
            want = [loss(y).smooth_objective(e) for y, e in zip(ys, eta.T)]
            value, grad, eta = sum(v for v, _ in want), np.array([g for _, g in want]).reshape(-1), eta.T.reshape(-1)
        else:
            y, X = response(), r.standard_normal((n, p))
            arg = {'lasso': (np.ones(p),), 'group': (np.arange(p),), 'sgl': (np.arange(p), np.ones(p))}[kind]
            P = getattr({'lasso': PL, 'group': PG, 'sgl': PS}[kind], fam)(X, *(y + extra + arg))
            eta = r.standard_normal(n)
            value, grad = loss(y).smooth_objective(eta)
    w.eq('value', P.saturated_loss.smooth_objective(eta, 'func'), value, tol=1e-9)
    w.eq('gradient', P.saturated_loss.smooth_objective(eta, 'grad'), grad, tol=1e-9)
