"""Contracts of the compiled kernels, as used by their callers in symbolic runs.

A caller is checked against these contracts, not against the kernel's body;
the kernels' own bodies are checked against the same contracts in P20."""
from . import expr as E
from . import sym as S
from . import shim
from .sym import ENG, SymArr, SymReal, Masked, to_arr, scal
from .expr import P


def fresh_real(hint, nonneg=True):
    ENG.fresh_count = getattr(ENG, 'fresh_count', 0) + 1
    p = E.var('%s#k%d' % (hint, ENG.fresh_count))
    if nonneg:
        E.NONNEG.add(E.the_factor(p))
    return SymReal(p)


def as_fun(norms):
    """(sum over selected entries of f(entry))"""
    if isinstance(norms, Masked):
        src, m = norms.src._num(), norms.mask

        def total(f):
            return shim.np_sum(SymArr.make(lambda idx: E.ite(m.get(idx), f(src.get(idx)), E.ZERO), src._shape), None)
        return total
    a = shim.unflat(to_arr(norms))._num().snapshot()
    return lambda f: shim.np_sum(SymArr.make(lambda idx: f(a.get(idx)), a._shape), None)


def memo(key, make):
    """the kernel is a function of its arguments: same arguments (under the array
    equations known on this path), same result"""
    tab = ENG.ghost.setdefault('memo', [])
    k = simp(key)
    for old, r in tab:
        if old == key or simp(old) == k:
            return r
    r = make()
    tab.append((key, r))
    return r


def key_of(x):
    if isinstance(x, Masked):
        return (x.mask_key(), key_of(x.src))
    if isinstance(x, SymArr):
        x = shim.unflat(x)
        idx = tuple(E.var('kk%d' % k, 'I') for k in range(x.ndim))
        return (x._num().get(idx), tuple(x._shape))
    if S.is_scalar(x):
        return scal(x).p
    return x


def simp(k):
    """rewritten by the array equations known on this path"""
    from . import engine as G
    rules = getattr(ENG.path, 'arr_rules', None) or []
    if isinstance(k, E.Poly):
        return G.arr_simplify(('eq', k - E.var('key probe')), rules) if rules else E.cmp_('eq', k - E.var('key probe'))
    if isinstance(k, tuple):
        if k and isinstance(k[0], str) and k[0] in ('ge', 'gt', 'eq', 'and', 'or', 'not'):
            return G.arr_simplify(k, rules) if rules else k
        return tuple(simp(x) for x in k)
    return k


def pos(p):
    return E.ite(E.cmp_('ge', p), p, E.ZERO)


def require(name, cond):
    """precondition of the kernel at this call site"""
    c = S.cond_of(cond)
    w = ENG.world
    w._prove('requires ' + name, c)


def pw_linear_c(b, slope, norms):
    """requires norms >= 0; ensures, when sum(norms) >= b: the returned cut is
    the t >= 0 with sum (norms-t)+ = slope*t + b (slope 1 and b < -max: t + b < 0);
    otherwise 0."""
    require('norms >= 0', shim.np_all(norms >= 0))
    cut = memo(('c', key_of(b), key_of(slope), key_of(norms)), lambda: _pw_linear_c(b, slope, norms))
    ENG.ghost.setdefault('cut', []).append(cut)
    total = as_fun(norms)
    ENG.ghost.setdefault('mass', []).append(total(lambda p: pos(p - scal(cut).p)))
    return cut


def _pw_linear_c(b, slope, norms):
    total = as_fun(norms)
    if total(lambda p: p) < b:
        cut = 0
    else:
        cut = fresh_real('cut')
        lhs = total(lambda p: pos(p - cut.p))
        if not isinstance(slope, SymReal) and slope == 0:
            require('b >= 0', b >= 0)
            ENG.path.add(S.cond_of(lhs == b))
        else:
            ENG.path.add(E.or_(S.cond_of(lhs == slope * cut + b), S.cond_of(cut + b < 0)))
    return cut


def pw_uncon(b, values):
    """ensures the returned t has sum (values-t)+ = b (b > 0)"""
    require('b > 0', b > 0)
    return memo(('u', key_of(b), key_of(values)), lambda: _pw_uncon(b, values))


def _pw_uncon(b, values):
    total = as_fun(values)
    cut = fresh_real('cut', False)
    ENG.path.add(S.cond_of(total(lambda p: pos(p - cut.p)) == b))
    ENG.ghost.setdefault('cut', []).append(cut)
    return cut


def pw_linear(b, slope, norms, weights):
    """weighted form: sum w (norms - w t)+ = slope*t + b"""
    require('norms >= 0', shim.np_all(norms >= 0))
    require('weights >= 0', shim.np_all(weights >= 0))
    def first():
        # same arguments written differently: the entries are proved equal
        for (b0, s0, n0, w0), cut in ENG.ghost.get('weighted calls', []):
            if b0 == key_of(b) and s0 == key_of(slope) and same_entries(n0, norms) and same_entries(w0, weights):
                ENG.ghost.setdefault('cut', []).append(cut)
                return cut
        cut = _pw_linear(b, slope, norms, weights)
        ENG.ghost.setdefault('weighted calls', []).append(((key_of(b), key_of(slope), norms, weights), cut))
        return cut
    return memo(('w', key_of(b), key_of(slope), key_of(norms), key_of(weights)), first)


def same_entries(x, y):
    """two arrays (or selections) with equal entries, proved at an arbitrary position"""
    if isinstance(x, Masked) != isinstance(y, Masked):
        return False
    a, c = (x.src, y.src) if isinstance(x, Masked) else (to_arr(x), to_arr(y))
    if tuple(a._shape) != tuple(c._shape):
        return False
    idx = tuple(E.fresh_int('eqv') for _ in a._shape)
    goal = E.cmp_('eq', a._num().get(idx) - c._num().get(idx))
    if isinstance(x, Masked):
        m, k = x.mask.get(idx), y.mask.get(idx)
        goal = E.and_(E.or_(E.neg(m), k), E.or_(E.neg(k), m), E.or_(E.neg(m), goal))
    from . import engine as G
    return G.with_facts(S.in_dom(idx, a._shape), lambda: G.prove(goal, 3.), sk=idx).ok


def _pw_linear(b, slope, norms, weights):
    if isinstance(norms, Masked) or isinstance(weights, Masked):
        if not (isinstance(norms, Masked) and isinstance(weights, Masked) and norms.mask_key() == weights.mask_key()):
            raise E.Unsupported('norms and weights of different selections')
        w, a, m = weights.src._num(), norms.src._num(), norms.mask
    else:
        w, a, m = to_arr(weights)._num().snapshot(), to_arr(norms)._num().snapshot(), None

    def total(f):
        if m is not None:
            return shim.np_sum(SymArr.make(lambda idx: E.ite(m.get(idx), f(a.get(idx), w.get(idx)), E.ZERO), a._shape), None)
        return shim.np_sum(SymArr.make(lambda idx: f(a.get(idx), w.get(idx)), a._shape), None)
    if total(lambda p, q: p * q) < b:
        cut = 0
    else:
        cut = fresh_real('cut')
        lhs = total(lambda p, q: q * pos(p - q * cut.p))
        if not isinstance(slope, SymReal) and slope == 0:
            require('b >= 0', b >= 0)
            ENG.path.add(S.cond_of(lhs == b))
        else:
            ENG.path.add(E.or_(S.cond_of(lhs == slope * cut + b), S.cond_of(cut + b < 0)))
    ENG.ghost.setdefault('cut', []).append(cut)
    ENG.ghost.setdefault('mass', []).append(total(lambda p, q: q * pos(p - q * scal(cut).p)))
    return cut


def soft(x, cut):
    def f(p):
        c = scal(cut).p
        return E.ite(E.cmp_('gt', p), E.ite(E.cmp_('ge', p - c), p - c, E.ZERO), E.ite(E.cmp_('ge', -p - c), p + c, E.ZERO))
    return x._num()._map(f)


def projl1(x, bound=1.):
    """ensures: soft thresholding of x at the cut of |x| for this bound"""
    x = x if isinstance(x, Masked) else to_arr(x)
    cut = pw_linear_c(bound, 0, abs(x))
    return soft(x.copy(), cut)


def projl1_epigraph(center):
    center = to_arr(center)
    x = center[:-1]
    t = center[-1]
    cut = pw_linear_c(t, 1, abs(x))
    r = shim.zeros(center.shape)
    if t + cut >= 0:
        r[-1] = t + cut
        r[:-1] = soft(x.copy(), cut)
    return r


# -- mixed lasso kernels, groups only ---------------------------------------

def group_masks(x, idx, groups, weights):
    if any(len(a) for a in idx):
        raise S.Unsupported('roles other than groups')
    w, out = ENG.world, []
    for k in range(weights.shape[0]):
        m = groups == k
        for lab, ids in ENG.ghost.get('group labels', []):
            if lab._shape == m._shape and len(ids) == weights.shape[0]:
                t = lab == ids[k]
                key, seen = (key_of(m), key_of(t)), ENG.ghost.setdefault('masks seen', set())
                if key not in seen:
                    w.lemma_all('index of a group', (m & t) | (~m & ~t))
                    seen.add(key)
                m = t
                break
        out.append((m, shim.norm(x[m])))
    return out


def group_work(weights, norms, factors=None, proj=None):
    seen = ENG.ghost.setdefault('masks seen', set())
    for what, a in (('work buffers are zero', norms), ('work buffers are zero', factors), ('work buffers are zero', proj), ('weights are nonnegative', weights)):
        if a is None:
            continue
        key = (what, key_of(a) if isinstance(a, SymArr) else id(a))
        if not isinstance(a, SymArr) or key not in seen:
            require(what, shim.np_all(a == 0 if a is not weights else a >= 0))
            seen.add(key)


def group_seminorm(x, l1, un, pp, nn, groups, weights, norms, check_feasibility=0, nntol=1e-5):
    group_work(weights, norms)
    return sum([v * weights[j] for j, (m, v) in enumerate(group_masks(x, (l1, un, pp, nn), groups, weights))], 0.)


def group_seminorm_dual(x, l1, un, pp, nn, groups, weights, norms, nntol=1e-5, check_feasibility=0):
    group_work(weights, norms)
    best, off = 0., False
    for j, (m, v) in enumerate(group_masks(x, (l1, un, pp, nn), groups, weights)):
        c = weights[j]
        if c > 0:
            best = shim.maximum(best, v / c)
        elif check_feasibility and v > nntol:
            off = True
    return float('inf') if off else best


def group_apply(x, parts, factor):
    """factor(norm, k) * entry on the entries of group k"""
    out, fs = shim.zeros(x.shape), []
    for k, (m, v) in enumerate(parts):
        fs.append(factor(v, k))
        out[m] = (x * fs[-1])[m]
    ENG.ghost.setdefault('factors', []).append(fs)
    return out


def group_shrink(x, parts, weights, b, dual=False):
    def factor(v, k):
        c = b * weights[k]
        if v > c:
            return c / v if dual else 1 - c / v
        return 1. if dual else 0.
    return group_apply(x, parts, factor)


def group_lagrange_prox(x, lagrange, lipschitz, l1, un, pp, nn, groups, weights, norms, factors, proj):
    group_work(weights, norms, factors, proj)
    return group_shrink(x, group_masks(x, (l1, un, pp, nn), groups, weights), weights, lagrange / lipschitz)


def group_dual_bound_prox(x, bound, l1, un, pp, nn, groups, weights, norms, factors, proj):
    group_work(weights, norms, factors, proj)
    return group_shrink(x, group_masks(x, (l1, un, pp, nn), groups, weights), weights, bound, dual=True)


def group_bound_prox(x, bound, l1, un, pp, nn, groups, weights, norms, factors, proj):
    require('bound is nonnegative', bound >= 0)
    group_work(weights, norms, factors, proj)
    parts = group_masks(x, (l1, un, pp, nn), groups, weights)
    total = sum([v * weights[k] for k, (m, v) in enumerate(parts)], 0.)
    if total < bound:
        cut = 0
    else:
        cut = memo(('group bound', key_of(x), key_of(bound), tuple(key_of(weights[k]) for k in range(len(parts)))), lambda: fresh_real('cut'))
    ENG.ghost.setdefault('cut', []).append(cut)
    if S.is_scalar(cut) and not isinstance(cut, int):
        left = 0
        for k, (m, v) in enumerate(parts):
            if v > cut * weights[k]:
                left = left + weights[k] * (v - cut * weights[k])
        ENG.path.add(S.cond_of(scal(left) == scal(bound)))
    return group_shrink(x, parts, weights, cut)


class Float(float):
    """float(x): the number itself for a real term"""
    def __new__(cls, x=0.):
        return x if S.is_scalar(x) and isinstance(x, SymReal) else float(x)


def group_kernels():
    m = 'regreg.atoms.group_lasso'
    return {(m, 'float'): Float, (m, 'seminorm_mixed_lasso'): group_seminorm, (m, 'seminorm_mixed_lasso_dual'): group_seminorm_dual, (m, 'mixed_lasso_lagrange_prox'): group_lagrange_prox,
            (m, 'mixed_lasso_dual_bound_prox'): group_dual_bound_prox, (m, 'mixed_lasso_bound_prox'): group_bound_prox}


def atom_stubs():
    m = 'regreg.atoms.'
    d = {}
    import sys
    names = {'find_solution_piecewise_linear_c': pw_linear_c, 'find_solution_piecewise_linear': pw_linear,
             'find_solution_piecewise_linear_uncon': pw_uncon, 'projl1': projl1, 'projl1_epigraph': projl1_epigraph}
    for mod in list(sys.modules):
        if mod.startswith('regreg.'):
            for k, f in names.items():
                if k in getattr(sys.modules[mod], '__dict__', {}):
                    d[(mod, k)] = f
    if 'regreg.atoms.group_lasso' in sys.modules:
        d.update(group_kernels())
    return d
