"""Linear and affine transforms with the matrix expression each one denotes.

The combinators are specified over *abstract* transforms: any object meeting
the affine_transform contract (linear_map = A x, adjoint_map = A' u,
affine_map = A x + c) for an arbitrary matrix A and offset c."""
import numpy as np
from scipy import sparse
import regreg.affine as AF
from regreg.affine import block_maps as BM, fused_lasso as FL, multiscale as MS, factored_matrix as FM, image2d as I2
from pyvc import expr as E, sym as S
from pyvc.world import Skip

FILE = 'regreg/affine/__init__.py:'


def tdot(w, A, x, k):
    """contraction of the last k axes of A with the first k axes of x"""
    if not w.symbolic:
        return np.tensordot(A, x, axes=k)
    A, x = S.to_arr(A).snapshot(), S.to_arr(x).snapshot()
    na = A.ndim - k
    dims = A._shape[na:]

    def f(idx):
        vs = [E.fresh_int('s') for _ in dims]
        return E.msum(list(zip(vs, dims)), A.get(tuple(idx[:na]) + tuple(vs)) * x.get(tuple(vs) + tuple(idx[na:])))
    shp = A._shape[:na] + x._shape[k:]
    if not shp:
        return S.SymReal(f(()))
    return S.SymArr.make(f, shp)


def tdotT(w, A, u, k):
    """contraction of the first k axes of A with those of u"""
    if not w.symbolic:
        return np.tensordot(A, u, axes=(list(range(k)), list(range(k))))
    A, u = S.to_arr(A).snapshot(), S.to_arr(u).snapshot()
    dims = A._shape[:k]
    rest = A._shape[k:]

    def f(idx):
        vs = [E.fresh_int('s') for _ in dims]
        return E.msum(list(zip(vs, dims)), A.get(tuple(vs) + tuple(idx[:len(rest)])) * u.get(tuple(vs) + tuple(idx[len(rest):])))
    return S.SymArr.make(f, rest + u._shape[k:])


class Abstract(AF.affine_transform):
    """a transform known only by its contract"""

    def __init__(self, w, name, ins, outs, off=None):
        self.w, self.input_shape, self.output_shape = w, ins, outs
        self.A = w.arr(name, outs + ins)
        self.c = None
        if off is None:
            off = w.choice(name + ' offset?', [True, False])
        if off:
            self.c = w.arr(name + '_c', outs)
        self.affine_offset = self.c
        self.linear_operator = None

    def linear_map(self, x):
        return tdot(self.w, self.A, x, len(self.input_shape))

    def adjoint_map(self, u):
        return tdotT(self.w, self.A, u, len(self.output_shape))

    def affine_map(self, x):
        v = self.linear_map(x)
        return v if self.c is None else v + (self.c if v.ndim == self.c.ndim else self.c[:, None])


class Spec(object):
    """transform T, its linear part lin, its offset off (None: zero), shapes; arrays it holds"""

    def __init__(self, T, lin, off, ins, outs, held=(), tol=1e-9, scale=1.):
        self.T, self.lin, self.off, self.ins, self.outs, self.held, self.tol, self.scale = T, lin, off, ins, outs, list(held), tol, scale


AFF = {}


def aff(name, where=None, sym=True, paths=600):
    def deco(f):
        f.sym, f.paths = sym, paths
        f.file = (FILE + (where or name)) if ':' not in (where or '') else where
        AFF[name] = f
        return f
    return deco


def offset(w, shape):
    return w.arr('offset', shape) if w.choice('offset?', [True, False]) else None


def held(*a):
    return [x for x in a if x is not None]


# -- affine_transform and linear_transform ---------------------------------

def _make(w, A, off, **k):
    if off is None and w.choice('class', ['linear', 'affine']) == 'linear':
        return AF.linear_transform(A, **k)
    return AF.affine_transform(A, off, **k)


@aff('matrix', 'affine_transform')
def _(w):
    n, p = w.dim('n'), w.dim('p')
    A, off = w.mat('A', n, p), offset(w, (n,))
    return Spec(_make(w, A, off), lambda x: w.np.dot(A, x), off, (p,), (n,), held(A, off))


@aff('one row', 'affine_transform')
def _(w):
    p = w.dim('p')
    A, off = w.vec('A', p), offset(w, (1,))
    return Spec(_make(w, A, off), lambda x: (A * x).sum() * w.np.ones(1), off, (p,), (1,), held(A, off))


@aff('matrix on a matrix', 'affine_transform')
def _(w):
    n, p, q = w.dim('n'), w.dim('p'), w.dim('q')
    A = w.mat('A', n, p)
    kind = w.choice('offset kind', ['none', 'full', 'column'])
    off = None if kind == 'none' else w.arr('offset', (n, q) if kind == 'full' else (n,))
    full = off if kind != 'column' else off[:, None] + w.np.zeros((n, q))
    return Spec(_make(w, A, off, input_shape=(p, q)), lambda x: w.np.dot(A, x), full, (p, q), (n, q), held(A, off))


@aff('diagonal', 'affine_transform')
def _(w):
    p = w.dim('p')
    A, off = w.vec('A', p), offset(w, (p,))
    return Spec(_make(w, A, off, diag=True), lambda x: A * x, off, (p,), (p,), held(A, off))


@aff('diagonal on a matrix', 'affine_transform')
def _(w):
    p, q = w.dim('p'), w.dim('q')
    A = w.vec('A', p)
    return Spec(AF.linear_transform(A, diag=True, input_shape=(p, q)), lambda x: A[:, None] * x, None, (p, q), (p, q), held(A))


@aff('offset only', 'affine_transform')
def _(w):
    shp = (w.dim('n'),) if w.choice('ndim', [1, 2]) == 1 else (w.dim('n'), w.dim('q'))
    off = w.arr('offset', shp)
    return Spec(AF.affine_transform(None, off), lambda x: x, off, shp, shp, held(off))


@aff('wrapped transform', 'affine_transform')
def _(w):
    n, p = w.dim('n'), w.dim('p')
    t = Abstract(w, 'T', (p,), (n,))
    off = offset(w, (n,))
    tot = t.c if off is None else off if t.c is None else t.c + off
    if off is None and w.choice('class', ['linear', 'affine']) == 'linear':
        T = AF.linear_transform(t)
    else:
        T = AF.affine_transform(t, off)
    return Spec(T, t.linear_map, tot, (p,), (n,), held(t.A, t.c, off))


@aff('sparse matrix', 'affine_transform', sym=False)
def _(w):
    n, p = w.dim('n'), w.dim('p')
    A, off = w.mat('A', n, p), offset(w, (n,))
    fmt = w.choice('format', ['csr', 'csc', 'coo', 'lil', 'dok'])
    M = getattr(sparse, fmt + '_matrix')(A)
    k = w.choice('q', [0, 1])
    if k:
        q = w.dim('q')
        return Spec(AF.linear_transform(M, input_shape=(p, q)), lambda x: A.dot(x), None, (p, q), (n, q), [])
    so = off
    if off is not None and w.choice('sparse offset', [False, True]):
        so = sparse.csr_matrix(off[:, None])
    T = AF.affine_transform(M, so) if off is not None else AF.linear_transform(M)
    return Spec(T, lambda x: A.dot(x), off, (p,), (n,), held(off, getattr(M, 'data', None) if fmt in ('csr', 'csc', 'coo') else None))


# -- selection, scaling, shape ---------------------------------------------

@aff('selector of a slice', 'selector')
def _(w):
    n = w.dim('n', lo=2, hi=7)
    a = w.integer('a', 0, n)
    ln = w.integer('len', 1, n - a + 1)
    sl = slice(a, a + ln)
    kind = w.choice('inner', ['none', 'transform'])
    if kind == 'none':
        return Spec(AF.selector(sl, (n,)), lambda x: x[sl], None, (n,), (ln,))
    m = w.dim('m')
    t = Abstract(w, 'T', (ln,), (m,))
    return Spec(AF.selector(sl, (n,), t), lambda x: t.linear_map(x[sl]), t.c, (n,), (m,), held(t.A, t.c))


@aff('selector of rows', 'selector')
def _(w):
    n, q = w.dim('n', lo=2, hi=6), w.dim('q')
    a = w.integer('a', 0, n)
    ln = w.integer('len', 1, n - a + 1)
    sl = slice(a, a + ln)
    which = w.choice('index', ['rows', 'one row', 'one column'])
    if which == 'rows':
        return Spec(AF.selector(sl, (n, q)), lambda x: x[sl], None, (n, q), (ln, q))
    if which == 'one row':
        return Spec(AF.selector(a, (n, q)), lambda x: x[a], None, (n, q), (q,))
    k = w.integer('col', 0, q)
    return Spec(AF.selector((slice(None), k), (n, q)), lambda x: x[:, k], None, (n, q), (n,))


@aff('selector of indices', 'selector', sym=False)
def _(w):
    n = w.dim('n', lo=1, hi=8)
    kind = w.choice('index', ['mask', 'empty mask', 'unique', 'repeated', 'negative', 'step'])
    idx = {'mask': lambda: w.rng.random(n) < .5, 'empty mask': lambda: np.zeros(n, bool),
           'unique': lambda: w.rng.permutation(n)[:w.rng.integers(1, n + 1)],
           'repeated': lambda: w.rng.integers(0, n, w.rng.integers(1, 2 * n + 1)),
           'negative': lambda: -1 - w.rng.permutation(n)[:w.rng.integers(1, n + 1)],
           'step': lambda: slice(int(w.rng.integers(0, n)), None, 2)}[kind]()
    w.record['index used'] = repr(idx)
    m = np.arange(n)[idx].shape[0]
    inner = w.choice('inner', ['none', 'transform'])
    if inner == 'none' or m == 0:
        return Spec(AF.selector(idx, (n,)), lambda x: x[idx], None, (n,), (m,), [] if isinstance(idx, slice) else [idx])
    t = Abstract(w, 'T', (m,), (w.dim('m'),))
    return Spec(AF.selector(idx, (n,), t), lambda x: t.linear_map(x[idx]), t.c, (n,), t.output_shape, held(t.A, t.c))


@aff('selector with a reshape', 'selector', sym=False)
def _(w):
    n, a, b = w.dim('n', lo=1, hi=4), w.dim('a', hi=3), w.dim('b', hi=3)
    idx = w.rng.permutation(n + a * b)[:a * b] if w.choice('index', ['unique', 'slice']) == 'unique' else slice(n, n + a * b)
    w.record['index used'] = repr(idx)
    if w.choice('inner', ['none', 'transform']) == 'none':
        return Spec(AF.selector(idx, (n + a * b,), reshape=(a, b)), lambda x: x[idx].reshape((a, b)), None, (n + a * b,), (a, b))
    t = Abstract(w, 'T', (a, b), (w.dim('m'),))
    return Spec(AF.selector(idx, (n + a * b,), t, reshape=(a, b)), lambda x: t.linear_map(x[idx].reshape((a, b))), t.c, (n + a * b,), t.output_shape, held(t.A, t.c))


@aff('scaler')
def _(w):
    shp = (w.dim('n'),) if w.choice('ndim', [1, 2]) == 1 else (w.dim('n'), w.dim('q'))
    s = w.arr('s', shp)
    T = AF.scaler(s)
    if w.choice('wrapped', [False, True]):
        T = AF.linear_transform(T)
    return Spec(T, lambda x: s * x, None, shp, shp, [s])


@aff('reshape', sym=False)
def _(w):
    n, q = w.dim('n'), w.dim('q')
    a, b = w.choice('shapes', [((n, q), (n * q,)), ((n * q,), (n, q)), ((n, q), (q, n))])
    T = AF.reshape(a, b)
    if w.choice('wrapped', [False, True]):
        T = AF.linear_transform(T)
    return Spec(T, lambda x: x.reshape(b), None, a, b)


# -- combinators over abstract transforms ----------------------------------

@aff('add_intercept')
def _(w):
    n, p = w.dim('n'), w.dim('p')
    t = Abstract(w, 'T', (p,), (n,))
    return Spec(AF.add_intercept(t), lambda x: x[0] + t.linear_map(x[1:]), t.c, (p + 1,), (n,), held(t.A, t.c))


@aff('centering')
def _(w):
    n = w.dim('n')
    shp = (n,) if w.choice('ndim', [1, 2]) == 1 else (n, w.dim('q'))
    return Spec(AF.centering(shp), lambda x: x - x.sum(0) / n, None, shp, shp)


@aff('identity')
def _(w):
    shp = (w.dim('n'),) if w.choice('ndim', [1, 2]) == 1 else (w.dim('n'), w.dim('q'))
    return Spec(AF.identity(shp), lambda x: x, None, shp, shp)


def total(w, offs, outs):
    """None when every offset is None"""
    return None if all(o is None for o in offs) else [w.np.zeros(s) if o is None else o for o, s in zip(offs, outs)]


def flat(x):
    return x if x.ndim == 1 else x.reshape(-1)


@aff('vstack')
def _(w):
    K = w.choice('K', [1, 2, 3], sym=[1, 2])
    p = w.dim('p')
    ins = (p,) if w.symbolic or w.choice('in', [1, 2]) == 1 else (p, w.dim('p2'))
    ts = [Abstract(w, 'T%d' % k, ins, (w.dim('n%d' % k),) if w.symbolic or w.choice('out', [1, 2]) == 1 else (w.dim('n%d' % k), w.dim('m%d' % k))) for k in range(K)]
    o = total(w, [t.c for t in ts], [t.output_shape for t in ts])
    cat = lambda l: w.np.hstack([flat(z) for z in l])
    n = sum(int(np.prod(t.output_shape)) for t in ts) if not w.symbolic else sum(t.output_shape[0] for t in ts)
    return Spec(AF.vstack(ts), lambda x: cat([t.linear_map(x) for t in ts]), None if o is None else cat(o), ins, (n,), [t.A for t in ts])


def parts(w, x, shapes):
    out, j = [], 0
    for s in shapes:
        m = s[0] if len(s) == 1 else s[0] * s[1]
        out.append(x[j:j + m] if len(s) == 1 else x[j:j + m].reshape(s))
        j = j + m
    return out


def size(s):
    return s[0] if len(s) == 1 else s[0] * s[1]


@aff('hstack')
def _(w):
    K = w.choice('K', [1, 2, 3], sym=[1, 2])
    outs = (w.dim('n'),) if w.symbolic or w.choice('out', [1, 2]) == 1 else (w.dim('n'), w.dim('n2'))
    ts = [Abstract(w, 'T%d' % k, (w.dim('p%d' % k),) if w.symbolic or w.choice('in', [1, 2]) == 1 else (w.dim('p%d' % k), w.dim('q%d' % k)), outs) for k in range(K)]
    o = total(w, [t.c for t in ts], [outs] * K)
    return Spec(AF.hstack(ts), lambda x: sum(t.linear_map(z) for t, z in zip(ts, parts(w, x, [t.input_shape for t in ts]))),
                None if o is None else sum(o), (sum(size(t.input_shape) for t in ts),), outs, [t.A for t in ts])


@aff('product')
def _(w):
    K = w.choice('K', [1, 2, 3], sym=[1, 2])
    ts = [Abstract(w, 'T%d' % k, (w.dim('p%d' % k),) if w.symbolic or w.choice('in', [1, 2]) == 1 else (w.dim('p%d' % k), w.dim('q%d' % k)),
                   (w.dim('n%d' % k),) if w.symbolic or w.choice('out', [1, 2]) == 1 else (w.dim('n%d' % k), w.dim('m%d' % k))) for k in range(K)]
    o = total(w, [t.c for t in ts], [t.output_shape for t in ts])
    cat = lambda l: w.np.hstack([flat(z) for z in l])
    return Spec(AF.product(ts), lambda x: cat([t.linear_map(z) for t, z in zip(ts, parts(w, x, [t.input_shape for t in ts]))]),
                None if o is None else cat(o), (sum(size(t.input_shape) for t in ts),), (sum(size(t.output_shape) for t in ts),), [t.A for t in ts])


def shapes(w, tag):
    """a one or two dimensional shape"""
    return (w.dim(tag),) if w.choice(tag + ' ndim', [1, 2]) == 1 else (w.dim(tag), w.dim(tag + '2'))


@aff('aslinear')
def _(w):
    t = Abstract(w, 'T', shapes(w, 'p'), shapes(w, 'n'))
    return Spec(AF.aslinear(t), t.linear_map, None, t.input_shape, t.output_shape, held(t.A, t.c))


@aff('adjoint')
def _(w):
    t = Abstract(w, 'T', shapes(w, 'p'), shapes(w, 'n'))
    how = w.choice('how', ['adjoint', 'T', 'adjoint of the adjoint'])
    T = AF.adjoint(t) if how == 'adjoint' else t.T
    if how == 'adjoint of the adjoint':
        return Spec(AF.adjoint(T), t.linear_map, None, t.input_shape, t.output_shape, held(t.A, t.c))
    return Spec(T, t.adjoint_map, None, t.output_shape, t.input_shape, held(t.A, t.c))


@aff('tensorize')
def _(w):
    t = Abstract(w, 'T', (w.dim('p'),), (w.dim('n'),))
    q = w.dim('q')
    return Spec(AF.tensorize(t, q), t.linear_map, None if t.c is None else t.c[:, None] + w.np.zeros((t.output_shape[0], q)),
                t.input_shape + (q,), t.output_shape + (q,), held(t.A, t.c))


@aff('residual')
def _(w):
    s = shapes(w, 'p')
    t = Abstract(w, 'T', s, s)
    return Spec(AF.residual(t), lambda x: x - t.linear_map(x), None if t.c is None else -1 * t.c, s, s, held(t.A, t.c))


@aff('composition', paths=3000)
def _(w):
    K = w.choice('K', [1, 2, 3], sym=[1, 2, 3])
    shp = [shapes(w, 'd%d' % k) if not w.symbolic else (w.dim('d%d' % k),) for k in range(K + 1)]
    ts = [Abstract(w, 'T%d' % k, shp[k + 1], shp[k]) for k in range(K)]
    how = w.choice('how', ['composition', 'dot']) if K == 2 else 'composition'
    T = AF.composition(*ts) if how == 'composition' else ts[0].dot(ts[1])

    def lin(x):
        for t in ts[::-1]:
            x = t.linear_map(x)
        return x
    off = None
    for t in ts[::-1]:
        off = t.c if off is None else t.linear_map(off) if t.c is None else t.linear_map(off) + t.c
    return Spec(T, lin, off, shp[-1], shp[0], [t.A for t in ts], tol=1e-8)


@aff('affine_sum', paths=3000)
def _(w):
    K = w.choice('K', [1, 2, 3], sym=[1, 2, 3])
    ins, outs = shapes(w, 'p'), shapes(w, 'n')
    ts = [Abstract(w, 'T%d' % k, ins, outs) for k in range(K)]
    kind = w.choice('weights', ['none', 'list', 'array'], sym=['none', 'list'])
    wt = None if kind == 'none' else [w.real('w%d' % k) for k in range(K)]
    if kind == 'array':
        wt = np.array(wt)
    c = [1] * K if wt is None else wt
    o = total(w, [t.c for t in ts], [outs] * K)
    return Spec(AF.affine_sum(ts, wt), lambda x: sum(k * t.linear_map(x) for k, t in zip(c, ts)), None if o is None else sum(k * z for k, z in zip(c, o)),
                ins, outs, [t.A for t in ts] + ([wt] if kind == 'array' else []))


@aff('scalar_multiply')
def _(w):
    t = Abstract(w, 'T', shapes(w, 'p'), shapes(w, 'n'))
    k = w.real('scalar') if w.choice('one?', [False, True]) is False else 1.
    return Spec(AF.scalar_multiply(t, k), lambda x: k * t.linear_map(x), None if t.c is None else k * t.c, t.input_shape, t.output_shape, held(t.A, t.c))


@aff('posneg')
def _(w):
    t = Abstract(w, 'T', (w.dim('p'),), shapes(w, 'n'), off=False)
    return Spec(AF.posneg(t), lambda x: t.linear_map(x[0]) - t.linear_map(x[1]), None, (2,) + t.input_shape, t.output_shape, held(t.A))


@aff('block_columns', 'regreg/affine/block_maps.py:block_columns', paths=2000)
def _(w):
    K = w.choice('K', [1, 2, 3], sym=[1, 2])
    p = w.dim('p')
    ts = [Abstract(w, 'T%d' % k, (p,), (w.dim('n%d' % k),)) for k in range(K)]
    o = total(w, [t.c for t in ts], [t.output_shape for t in ts])
    return Spec(BM.block_columns(ts), lambda x: w.np.hstack([t.linear_map(x[:, k]) for k, t in enumerate(ts)]),
                None if o is None else w.np.hstack(o), (p, K), (sum(t.output_shape[0] for t in ts),), [t.A for t in ts])


@aff('block_rows', 'regreg/affine/block_maps.py:block_rows', paths=2000)
def _(w):
    K = w.choice('K', [1, 2, 3], sym=[1, 2])
    n = w.dim('n')
    ts = [Abstract(w, 'T%d' % k, (w.dim('p%d' % k),), (n,)) for k in range(K)]
    o = total(w, [t.c for t in ts], [t.output_shape for t in ts])
    col = lambda l: w.np.vstack([z[None, :] for z in l]).T
    return Spec(BM.block_rows(ts), lambda x: col([t.linear_map(z) for t, z in zip(ts, parts(w, x, [t.input_shape for t in ts]))]),
                None if o is None else col(o), (sum(t.input_shape[0] for t in ts),), (n, K), [t.A for t in ts])


# -- normalisation ---------------------------------------------------------

@aff('normalize', paths=2000)
def _(w):
    n, p = w.dim('n', lo=3, hi=7), w.dim('p', hi=4)
    M = w.mat('M', n, p)
    center, scale, icept = w.choice('center', [True, False]), w.choice('scale', [True, False]), w.choice('intercept', [False, True])
    value = w.pos('value') if scale and w.choice('value?', [True, False]) else 1
    ddof = w.choice('ddof', [1, 0])
    kind = 'dense' if w.symbolic else w.choice('kind', ['dense', 'csr', 'csc'])
    arg = M if kind == 'dense' else getattr(sparse, kind + '_matrix')(M)
    T = AF.normalize(arg, center=center, scale=scale, intercept=icept, ddof=ddof, value=value)
    mean = M.sum(0) / n
    C = M - mean if center else M
    den = (n - ddof) if center else n - ddof + 1
    if scale:
        # the columns have standard deviation `value` (about zero when they are not centered)
        ss = (C * C).sum(0) / den
        if w.symbolic:
            from pyvc import shim
            d = shim.np_sum(M ** 2, 0) - n * (M.sum(0) / n) ** 2 if center else (M ** 2).sum(0)
            sd = w.np.sqrt(d / den)
            w.eq('documented standard deviation', d / den, ss)
            inv = w.np.where(sd > 0, 1 / sd, 0 * sd)
        else:
            big = np.fabs(M).max(0) + 1e-300
            w.assume(not np.any((np.sqrt(ss) > 0) & (np.sqrt(ss) < 1e-5 * big)))
            inv = np.where(np.sqrt(ss) > 0, 1 / np.where(ss > 0, np.sqrt(ss), 1), 0)
        lin0 = lambda x: w.np.dot(C, value * inv * x)
    else:
        lin0 = lambda x: w.np.dot(C, x)
    lin = (lambda x: x[0] + lin0(x[1:])) if icept else lin0
    return Spec(T, lin, None, (p + 1,) if icept else (p,), (n,), [M] if kind == 'dense' else [arg.data], tol=1e-7)


# -- difference operators --------------------------------------------------

def knots(w, n):
    k = np.cumsum(.1 + np.fabs(w.arr('steps', (n,)))) + w.real('start')
    w.assume(np.fabs(k).max() < 1e3)
    order = w.choice('knots', ['sorted', 'shuffled', 'integers'])
    if order == 'integers':
        k = np.cumsum(w.rng.integers(1, 4, n))
    if order == 'shuffled':
        k = w.rng.permutation(k)
    w.record['knots used'] = k.tolist()
    return k


def dmatrix(k, order):
    """divided differences of the sorted knots"""
    k = np.sort(np.asarray(k, float))
    D = np.eye(k.shape[0])
    for j in range(1, order + 1):
        D = (D[1:] - D[:-1]) / (k[j:] - k[:-j])[:, None]
    return D


@aff('trend_filter', 'regreg/affine/fused_lasso.py:trend_filter', sym=False)
def _(w):
    order = w.choice('order', [1, 2, 3])
    n = w.dim('n', lo=order + 1, hi=8)
    if w.choice('grid', [False, True]):
        k, T = np.arange(n), FL.trend_filter.grid(n, order=order)
    else:
        k = knots(w, n)
        how = w.choice('how', ['class', 'transform', 'sparse'])
        if how == 'class':
            T = FL.trend_filter(k, order=order)
        elif how == 'transform':
            T = FL.difference_transform(k, order=order, transform=True)
        else:
            T = AF.linear_transform(FL.difference_transform(k, order=order))
    D = dmatrix(k, order)
    return Spec(T, lambda x: D.dot(x), None, (n,), (n - order,), [k], scale=np.fabs(D).max())


@aff('trend_filter_inverse', 'regreg/affine/fused_lasso.py:trend_filter_inverse', sym=False)
def _(w):
    n = w.dim('n', lo=2, hi=8)
    if w.choice('grid', [False, True]):
        k, T = np.arange(n), FL.trend_filter_inverse.grid(n)
    else:
        k = knots(w, n)
        T = FL.trend_filter_inverse(k)
    D = np.linalg.pinv(dmatrix(k, 1))
    # matrix arguments are accepted: q columns
    if w.choice('matrix', [False, True]):
        q = w.dim('q')
        s = Spec(T, lambda x: D.dot(x), None, (n - 1, q), (n, q), [k], tol=1e-8, scale=1 + np.fabs(D).max())
        s.extra = True
        return s
    return Spec(T, lambda x: D.dot(x), None, (n - 1,), (n,), [k], tol=1e-8, scale=1 + np.fabs(D).max())


@aff('multiscale', 'regreg/affine/multiscale.py:multiscale', sym=False)
def _(w):
    p = w.dim('p', lo=3, hi=9)
    kind = w.choice('kind', ['all', 'all minsize', 'slices', 'updated', 'updated rows', 'copy'])
    minsize = None
    if kind == 'all minsize':
        minsize = w.integer('minsize', 1, p - 1)
        T = MS.multiscale(p, minsize=minsize)
    else:
        T = MS.multiscale(p)
    if kind in ('slices', 'updated', 'updated rows', 'copy'):
        m = w.integer('m', 1, 6)
        sl = []
        for _ in range(m):
            i = int(w.rng.integers(0, p))
            sl.append((i, int(w.rng.integers(i + 1, p + 1))))
        w.record['slices used'] = sl
        if kind in ('slices', 'copy'):
            T = MS.multiscale(p, slices=sl)
        elif kind == 'updated':
            T.update_slices(np.array(sl, MS.multiscale.dtype))
        else:
            T.update_slices(np.array(sl))
        if kind == 'copy':
            import copy
            T = copy.copy(T)
    else:
        ms = minsize or int(np.around(p ** (1 / 3.)))
        sl = [(i, j) for i in range(p) for j in range(p) if j - i >= ms]
        w.assume(len(sl) > 0)
    if w.choice('scaling', [False, True]):
        T.scaling = np.sqrt(T.sizes)
    c = np.ones(len(sl)) if T.scaling is None else np.sqrt([j - i for i, j in sl])
    A = np.array([[((i <= t < j) * 1. / (j - i) - 1. / p) * ck for t in range(p)] for (i, j), ck in zip(sl, c)])
    return Spec(T, lambda x: A.dot(x), None, (p,), (len(sl),), [T.slices.copy() * 0 if False else T.sizes] + held(T.scaling), tol=1e-8)


# -- low rank --------------------------------------------------------------

@aff('factored_matrix', 'regreg/affine/factored_matrix.py:factored_matrix')
def _(w):
    n, p = w.dim('n'), w.dim('p')
    r = w.choice('rank', [1, 2, 3], sym=[1, 2]) if not w.symbolic or w.choice('rank one', [True, False]) else w.dim('r', lo=2)
    U, D, V = w.mat('U', n, r), w.vec('D', r), w.mat('V', r, p)
    off = offset(w, (n,))
    T = FM.factored_matrix([U, D, V], affine_offset=off)
    if w.choice('wrapped', [False, True]):
        T = AF.linear_transform(T) if off is None else AF.affine_transform(T, None)
    return Spec(T, lambda x: w.np.dot(U, D * w.np.dot(V, x)), off, (p,), (n,), held(U, D, V, off), tol=1e-8)


@aff('factored_matrix of a matrix', 'regreg/affine/factored_matrix.py:compute_iterative_svd', sym=False)
def _(w):
    n, p = w.dim('n', hi=8), w.dim('p', hi=8)
    r = w.integer('rank', 1, 4)
    A = w.rng.standard_normal((n, r)).dot(w.rng.standard_normal((r, p)))
    if w.choice('generic', [True, False]):
        A = w.mat('A', n, p)
    w.assume(np.fabs(A).max() > 1e-3)
    w.record['matrix used'] = A.tolist()
    T = FM.factored_matrix(A, tol=1e-12)
    return Spec(T, lambda x: A.dot(x), None, (p,), (n,), [A], tol=1e-5, scale=np.fabs(A).sum())


# -- images ----------------------------------------------------------------

@aff('image2d_differences', 'regreg/affine/image2d.py:image2d_differences', sym=False)
def _(w):
    m, n = w.dim('m', lo=2, hi=5), w.dim('n', lo=2, hi=5)
    off = offset(w, (m * n - 1, 2))
    T = I2.image2d_differences((m, n), affine_offset=off)

    def lin(x):
        v = (x[:-1, :-1] - x[1:, :-1]).reshape(-1)
        last = x[-1, :-1] - x[-1, 1:]
        col = x[:-1, -1] - x[1:, -1]
        h = (x[:-1, :-1] - x[:-1, 1:]).reshape(-1)
        full = np.zeros(2 * (m * n - 1))
        z = np.hstack([v, last, col, h])
        full[:z.size] = z
        return full.reshape((2, m * n - 1)).T
    return Spec(T, lin, off, (m, n), (m * n - 1, 2), held(off))
