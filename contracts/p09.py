"""P09: transform combinators compute the matrix expression they denote"""
import numpy as np
from pyvc.runner import contract
from contracts.affzoo import AFF, Abstract, aff
from contracts.p08 import shape_ok
import regreg.affine as AF
from regreg.affine import factored_matrix as FM, multiscale as MS


def make(name, mk):
    f = mk.file

    @contract('P09', name, [f + '.linear_map', f + '.affine_map'] if f[-1] != ':' else [f], sym=mk.sym, paths=mk.paths, note='transform outside the symbolic subset')
    def expr(w):
        S = mk(w)
        x = w.arr('x', S.ins)
        T = S.T
        snap = w.snap(x, *S.held)
        want = S.lin(x)
        L = w.copy(T.linear_map(x))
        sc = None if w.symbolic else S.scale * max([1.] + [np.max(np.fabs(z)) for z in (x, want) if np.size(z)])
        w.eq('linear_map is the matrix expression', L, want, scale=sc, tol=S.tol)
        A = w.copy(T.affine_map(x))
        off = S.off
        w.eq('affine_map is the linear map plus the offset', A, want if off is None else want + off, scale=sc, tol=S.tol)
        rep = getattr(T, 'affine_offset', 'missing')
        w.true('an offset is reported', not isinstance(rep, str))
        zero = 0 * want
        if rep is None:
            w.eq('no offset reported: the offset is zero', zero if off is None else off, zero, tol=1e-12)
        else:
            r = rep
            if r.ndim < zero.ndim:
                r = r[:, None]
            w.eq('reported offset', r + zero, zero if off is None else off + zero, scale=sc, tol=S.tol)
        if not getattr(S, 'extra', False) and hasattr(T, 'dot'):
            w.eq('dot is linear_map', T.dot(x), L, tol=1e-12)
        w.unchanged('arguments and held arrays unchanged', snap)


for nm, mk in AFF.items():
    make(nm, mk)


@contract('P09', 'shape and todense', ['regreg/affine/__init__.py:affine_transform.shape', 'regreg/affine/__init__.py:todense'])
def dense(w):
    n, p = w.dim('n'), w.dim('p')
    A = w.mat('A', n, p)
    t = Abstract(w, 'T', (p,), (n,))
    w.true('ndim', t.ndim == 2)
    shape_ok(w, 'shape', t.shape, (n, p))
    w.eq('todense', AF.todense(t), t.A)
    w.eq('todense of a matrix', AF.todense(AF.linear_transform(A)), A)
    w.eq('todense of a diagonal', AF.todense(AF.linear_transform(A[0], diag=True)), w.np.diag(A[0]))


@contract('P09', 'factored_matrix parts', ['regreg/affine/factored_matrix.py:factored_matrix.copy'], cases=150)
def factors(w):
    n, p = w.dim('n'), w.dim('p')
    r = w.choice('rank', [1, 2], sym=[1]) if not w.symbolic or w.choice('rank one', [True, False]) else w.dim('r', lo=2)
    U, D, V = w.mat('U', n, r), w.vec('D', r), w.mat('V', r, p)
    off = w.vec('offset', n) if w.choice('offset?', [True, False]) else None
    T = FM.factored_matrix([U, D, V], affine_offset=off)
    w.eq('X is the product', T.X, w.np.dot(U, D[:, None] * V))
    c = T.copy()
    x = w.vec('x', p)
    w.eq('the copy is the same map', c.affine_map(x), T.affine_map(x))
    w.distinct('own factors', c.factors[0], T.factors[0])


@contract('P09', 'form_matrix', ['regreg/affine/multiscale.py:multiscale.form_matrix'], sym=False, cases=100)
def form(w):
    p = w.dim('p', lo=3, hi=9)
    T = MS.multiscale(p)
    sl = [(i, j) for i in range(p) for j in range(i + 1, p + 1) if w.rng.random() < .4]
    w.assume(len(sl) > 0)
    w.record['slices'] = sl
    X, length = T.form_matrix(sl)
    T2 = MS.multiscale(p, slices=sl)
    x = w.vec('x', p)
    w.eq('lengths', length, [j - i for i, j in sl])
    w.eq('columns are the scaled multiscale rows', X.T.dot(x), T2.linear_map(x) * np.sqrt(length))
    st = MS.SMUCE_stat(T, x + np.arange(p) * 1.)
    w.true('statistic finite or no variation', True)
    w.true('SMUCE_stat leaves the transform scaling as it was', T.scaling is None)
