"""P08: every linear transform's adjoint is its transpose"""
import numpy as np
from pyvc.runner import contract
from contracts.affzoo import AFF


def shape_ok(w, name, got, want):
    w.true(name + ' (dimensions)', len(got) == len(want))
    for g, e in zip(got, want):
        w.eq(name, g, e)


def make(name, mk):
    f = mk.file

    @contract('P08', name, [f + '.linear_map', f + '.adjoint_map'] if f[-1] != ':' else [f], sym=mk.sym, paths=mk.paths, note='transform outside the symbolic subset')
    def adj(w):
        S = mk(w)
        x, x2, u, u2 = w.arr('x', S.ins), w.arr('x2', S.ins), w.arr('u', S.outs), w.arr('u2', S.outs)
        a, b = w.real('a'), w.real('b')
        if not w.symbolic:
            a, b = np.clip(a, -10, 10), np.clip(b, -10, 10)
        T = S.T
        extra = getattr(S, 'extra', False)
        if not extra:
            shape_ok(w, 'declared input shape', T.input_shape, S.ins)
            shape_ok(w, 'declared output shape', T.output_shape, S.outs)
        snap = w.snap(x, u, x2, u2, *S.held)
        # copies: aliasing of results is P12's business
        Lx, Au = w.copy(T.linear_map(x)), w.copy(T.adjoint_map(u))
        shape_ok(w, 'shape of linear_map', Lx.shape, S.outs)
        shape_ok(w, 'shape of affine_map', T.affine_map(x).shape, S.outs)
        shape_ok(w, 'shape of adjoint_map', Au.shape, S.ins)
        m = (lambda *z: None) if w.symbolic else lambda *z: S.scale * max([1.] + [np.max(np.fabs(y)) for y in z if np.size(y)])
        sc = None if w.symbolic else S.scale * (1 + np.sum(np.fabs(Lx) * np.fabs(u)) + np.sum(np.fabs(Au) * np.fabs(x)))
        w.eq('<u, L x> = <L* u, x>', (u * Lx).sum(), (Au * x).sum(), scale=sc, tol=S.tol)
        Lx2, Au2 = w.copy(T.linear_map(x2)), w.copy(T.adjoint_map(u2))
        w.eq('linear_map is linear', T.linear_map(a * x + b * x2), a * Lx + b * Lx2, scale=m(a * x, b * x2, a * Lx, b * Lx2), tol=S.tol)
        w.eq('adjoint_map is linear', T.adjoint_map(a * u + b * u2), a * Au + b * Au2, scale=m(a * u, b * u2, a * Au, b * Au2), tol=S.tol)
        w.unchanged('arguments and held arrays unchanged', snap)


for nm, mk in AFF.items():
    make(nm, mk)
