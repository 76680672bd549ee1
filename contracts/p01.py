"""P01: algebra of identity_quadratic"""
from pyvc.runner import contract
from regreg.identity_quadratic import identity_quadratic

F = 'regreg/identity_quadratic.py:identity_quadratic.'


def term(w, tag, n, pos=False):
    c = w.pos('coef' + tag) if pos else w.real('coef' + tag)
    kind = w.choice('coefkind' + tag, ['coef'] if pos else ['coef', 'None', 'zero'])
    if kind == 'None':
        c = None
    elif kind == 'zero':
        c = 0
    cen = w.vec('center' + tag, n) if w.choice('center?' + tag, [True, False]) else w.choice('nocenter' + tag, [None, 0])
    lin = w.vec('linear' + tag, n) if w.choice('linear?' + tag, [True, False]) else w.choice('nolinear' + tag, [None, 0])
    con = w.choice('const?' + tag, ['c', None])
    if con is not None:
        con = w.real('const' + tag)
    return c, cen, lin, con


def value(w, t, x):
    """spec: the function denoted by the four fields"""
    c, cen, lin, con = t
    v = 0
    if c is not None:
        d = x - (0 if cen is None else cen)
        v = v + c * (d * d).sum() / 2
    if lin is not None:
        v = v + (x * lin).sum()
    if con is not None:
        v = v + con
    return v


@contract('P01', 'objective', [F + 'objective', F + '__init__', F + 'get_center', F + 'get_coef'])
def objective(w):
    n = w.dim('n')
    t = term(w, '', n)
    x = w.vec('x', n)
    snap = w.snap(x, t[1], t[2])
    q = identity_quadratic(*t)
    w.eq('value', q.objective(x, 'func'), value(w, t, x))
    g = q.objective(x, 'grad')
    exp = 0 * x
    if t[0] is not None:
        exp = exp + t[0] * (x - (0 if t[1] is None else t[1]))
    if t[2] is not None:
        exp = exp + t[2]
    w.eq('gradient', g, exp)
    v, g2 = q.objective(x, 'both')
    w.eq('both: value', v, value(w, t, x))
    w.eq('both: gradient', g2, exp)
    w.unchanged('operands unchanged', snap)


@contract('P01', 'collapsed', [F + 'collapsed'])
def collapsed(w):
    n = w.dim('n')
    t = term(w, '', n)
    x = w.vec('x', n)
    snap = w.snap(x, t[1], t[2])
    q = identity_quadratic(*t)
    c = q.collapsed()
    w.eq('same function', c.objective(x, 'func'), value(w, t, x))
    w.eq('no center left', 0 if c.center is None else c.center, 0)
    w.unchanged('operands unchanged', snap)
    w.eq('original still the same', q.objective(x, 'func'), value(w, t, x))


@contract('P01', 'add', paths=3000, funcs=[F + '__add__', F + 'collapsed'])
def add(w):
    n = w.dim('n')
    t1, t2 = term(w, '1', n), term(w, '2', n)
    x = w.vec('x', n)
    snap = w.snap(x, t1[1], t1[2], t2[1], t2[2])
    q1, q2 = identity_quadratic(*t1), identity_quadratic(*t2)
    s = q1 + q2
    w.eq('sum of values', s.objective(x, 'func'), value(w, t1, x) + value(w, t2, x))
    w.unchanged('operands unchanged', snap)
    w.eq('left operand unchanged', q1.objective(x, 'func'), value(w, t1, x))
    w.eq('right operand unchanged', q2.objective(x, 'func'), value(w, t2, x))


@contract('P01', 'add nothing', [F + '__add__', F + 'collapsed'])
def add_none(w):
    n = w.dim('n')
    t = term(w, '', n)
    x = w.vec('x', n)
    q = identity_quadratic(*t)
    s = q + None
    w.eq('same function', s.objective(x, 'func'), value(w, t, x))


@contract('P01', 'recenter', [F + 'recenter'])
def recenter(w):
    n = w.dim('n')
    t = term(w, '', n)
    a = w.vec('a', n)
    x = w.vec('x', n)
    y = w.vec('y', n)
    snap = w.snap(x, a, t[1], t[2])
    q = identity_quadratic(*t)
    off, r = q.recenter(a)
    sh = 0 if off is None else off
    # x = z + off:  q(x) and r(z) differ by a constant
    d1 = r.objective(x - sh, 'func') - q.objective(x, 'func')
    d2 = r.objective(y - sh, 'func') - q.objective(y, 'func')
    w.eq('same function of x up to a constant', d1, d2, scale=value(w, t, x))
    w.eq('the shift is the offset', sh, a)
    w.unchanged('operands unchanged', snap)
    w.eq('original unchanged', q.objective(x, 'func'), value(w, t, x))


@contract('P01', 'recenter about nothing', [F + 'recenter'])
def recenter_none(w):
    n = w.dim('n')
    t = term(w, '', n)
    x = w.vec('x', n)
    y = w.vec('y', n)
    q = identity_quadratic(*t)
    off, r = q.recenter(None)
    w.true('no shift', off is None)
    d1 = r.objective(x, 'func') - q.objective(x, 'func')
    d2 = r.objective(y, 'func') - q.objective(y, 'func')
    w.eq('same function up to a constant', d1, d2, scale=value(w, t, x))


@contract('P01', 'conjugate', [F + 'get_conjugate'])
def conjugate(w):
    n = w.dim('n')
    t = term(w, '', n, pos=True)
    x = w.vec('x', n)
    q = identity_quadratic(*t)
    qc = q.conjugate
    # Fenchel-Young with equality exactly at u = grad q(x); any u below
    u = w.vec('u', n)
    w.ge('Fenchel inequality', q.objective(x, 'func') + qc.objective(u, 'func') - (u * x).sum(), 0, scale=[1])
    g = q.objective(x, 'grad')
    w.eq('equality at the gradient', q.objective(x, 'func') + qc.objective(g, 'func'), (g * x).sum(), scale=value(w, t, x))
    w.eq('original unchanged', q.objective(x, 'func'), value(w, t, x))


@contract('P01', 'iszero', [F + 'get_iszero'])
def iszero(w):
    n = w.dim('n')
    t = term(w, '', n)
    x = w.vec('x', n)
    q = identity_quadratic(*t)
    if q.iszero:
        w.eq('a term reported zero has zero gradient', q.objective(x, 'grad'), 0 * x)
        w.eq('a term reported zero has zero value', q.objective(x, 'func'), 0)


@contract('P01', 'noneify zeroify', [F + 'noneify', F + 'zeroify'])
def noneify(w):
    n = w.dim('n')
    t = term(w, '', n)
    x = w.vec('x', n)
    q = identity_quadratic(*t)
    if w.choice('which', ['noneify', 'zeroify']) == 'noneify':
        q.noneify()
    else:
        q.zeroify()
    w.eq('same function', q.objective(x, 'func'), value(w, t, x))


@contract('P01', 'restriction', [F + '__getitem__', F + 'get_shapes'])
def restriction(w):
    n1, n2 = w.dim('n1'), w.dim('n2')
    t = term(w, '', n1 + n2)
    x = w.vec('x', n1 + n2)
    q = identity_quadratic(*t)
    a, b = q[:n1], q[n1:]
    v = a.objective(x[:n1], 'func') + b.objective(x[n1:], 'func')
    w.eq('parts add up (without the constant)', v, value(w, t[:3] + (None,), x))


@contract('P01', 'true_center', [F + 'true_center'])
def true_center(w):
    n = w.dim('n')
    t = term(w, '', n, pos=True)
    if t[1] is None and (t[2] is None or t[2] is 0):
        raise_skip(w)
    q = identity_quadratic(*t)
    c = q.true_center
    w.eq('gradient vanishes there', q.objective(c, 'grad'), 0 * c)


def raise_skip(w):
    from pyvc.world import Skip
    raise Skip()


@contract('P01', 'copy', [F + '__copy__'])
def copy_(w):
    import copy
    n = w.dim('n')
    t = term(w, '', n)
    x = w.vec('x', n)
    q = identity_quadratic(*t)
    r = copy.copy(q)
    w.eq('copy is the same function', r.objective(x, 'func'), value(w, t, x))
    q.linear_term = None
    q.center = None
    w.eq('copy is independent', r.objective(x, 'func'), value(w, t, x))
