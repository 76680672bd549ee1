"""P06: cone projections are exact and split with their polars"""
import numpy as np
from pyvc.runner import contract
from pyvc import kernels
from contracts import zoo


def cut_lemmas(w, cut):
    pass


def make(name, mk):
    kw = dict(stubs=kernels.atom_stubs, sym=mk.sym, note='cone outside the symbolic subset')

    @contract('P06', name, [mk.file + '.cone_prox'], **kw)
    def proj(w):
        F = mk(w)
        v = w.arr('v', F.shape)
        snap = w.snap(v)
        a = F.make()
        u = a.cone_prox(v)
        w.true('shape of the argument', tuple(u.shape) == tuple(v.shape))
        w.finite('finite entries', u)
        hints(w, name, v, u)
        zoo.certificate(w, F, u, v - u, None if w.symbolic else v)
        w.unchanged('argument unchanged', snap)

    @contract('P06', name + ' polar splits', [mk.file + '.cone_prox', mk.file + '.get_conjugate'], **kw)
    def split(w):
        F = mk(w)
        v = w.arr('v', F.shape)
        a = F.make()
        c = a.conjugate
        w.eq('projection + projection on the polar', a.cone_prox(v) + c.cone_prox(v), v, scale=None if w.symbolic else abs(v), tol=F.tol)
        w.true('polar of the polar', type(c.conjugate) is type(a))

    @contract('P06', name + ' feasible fixed', [mk.file + '.cone_prox'], **kw)
    def fixed(w):
        F = mk(w)
        v = w.arr('v', F.shape)
        a = F.make()
        if not w.symbolic:
            # move into the cone: raise/lower the last coordinate, or project coordinates
            v = np.array(v)
            ine = F.ineq(v)
            for d in F.eq(np.arange(v.size, dtype=float)):
                v[d.astype(int)] = 0
            if 'epigraph' in name:
                s = -1 if 'polar' in name else 1
                k = s * v[-1] - float(np.min(F.ineq(v)[0]))     # the norm
                v[-1] = s * (k + (0 if w.choice('boundary', [True, False]) else w.nonneg('slack')))
            elif ine:
                v = v * np.sign(ine[0]) * np.sign(v) if name == 'nonnegative' else v
                v = np.fabs(v) if name == 'nonnegative' else -np.fabs(v)
        else:
            for d in F.ineq(v):
                w.assume(d >= 0) if not hasattr(d, '_shape') or d.ndim == 0 else w.assume(w.np.all(d >= 0))
            for d in F.eq(v):
                w.assume(w.np.all(d == 0))
        u = a.cone_prox(v)
        hints(w, name, v, u, True)
        w.eq('points of the cone are fixed', u, v, scale=None if w.symbolic else abs(v), tol=F.tol)


def hints(w, name, v, u, inside=False):
    if not w.symbolic or 'cut' not in w.ghost:
        return


for nm, mk in zoo.CONES.items():
    make(nm, mk)
