"""P03: penalised proximal maps return the exact minimiser"""
import numpy as np
from pyvc.runner import contract
from pyvc import spec, kernels
from regreg.atoms import seminorms as SN
from regreg.identity_quadratic import identity_quadratic

F = 'regreg/atoms/seminorms.py:'


def cut_hint(restrict, residual):
    """lemmas for maps that subtract the projection on an l1-type ball:
    v - u = sign(v) (|v| - cut)+ on the restricted part"""
    def hint(w, u, v, L, lam):
        if not w.symbolic or 'cut' not in w.ghost:
            return
        cut = w.ghost['cut'][-1]
        a = restrict(w, v)
        r = spec.pos(w, a - cut)
        w.lemma('mass', r.sum() == w.ghost['mass'][-1])
        w.lemma('residual mass', residual(w, L * (v - u)).sum() == L * r.sum())
        w.lemma('alignment', ((v - u) * u).sum() == cut * r.sum())
        if lam == 0:
            return
        if not (isinstance(cut, int) and cut == 0):
            i = w.witness_pos('some coordinate exceeds the cut', r)
            w.lemma('at the witness', abs(u)[i] == cut)
    return hint


HINTS = {'supnorm': cut_hint(lambda w, v: abs(v), lambda w, g: abs(g)),
         'max_positive_part': cut_hint(spec.pos, spec.pos),
         'constrained_max': cut_hint(spec.pos, spec.pos)}


def make(name):
    cls = getattr(SN, name)

    @contract('P03', name, [F + name + '.lagrange_prox', F + 'seminorm.lagrange_prox', F + 'seminorm.get_lagrange'], stubs=kernels.atom_stubs)
    def c(w):
        n = w.dim('n')
        L = w.pos('L')
        lam = w.nonneg('lam')
        v = w.vec('v', n)
        snap = w.snap(v)
        atom = cls(3, lagrange=lam) if w.symbolic else cls(n, lagrange=lam)
        u = atom.lagrange_prox(v, lipschitz=L)
        h = HINTS.get(name)
        spec.kkt_lagrange(w, name, u, v, L, lam, hint=h and (lambda w, u, v: h(w, u, v, L, lam)))
        w.true('shape of the argument', tuple(u.shape) == tuple(v.shape))
        w.finite('finite entries', u)
        w.unchanged('argument unchanged', snap)
        u2 = atom.lagrange_prox(v, lipschitz=L, lagrange=lam)
        w.eq('explicit lagrange is the same map', u2, u, scale=abs(v))
        w.check_div()
    return c


for nm in spec.PEN:
    make(nm)

# -- the remaining penalties (zoo.py) --------------------------------------
from contracts import zoo


def make_zoo(name, mk):
    @contract('P03', name, [mk.file + '.lagrange_prox', mk.file + '.get_lagrange'], stubs=kernels.atom_stubs, sym=mk.sym, note='penalty outside the symbolic subset')
    def c(w):
        P = mk(w)
        if 'l' not in P.caps:
            raise Exception('no lagrange form')
        L = w.pos('L')
        lam = w.nonneg('lam')
        v = w.arr('v', P.shape)
        snap = w.snap(v)
        atom = P.make(lagrange=lam)
        u = atom.lagrange_prox(v, lipschitz=L)
        w.true('shape of the argument', tuple(u.shape) == tuple(v.shape))
        w.finite('finite entries', u)
        zoo.kkt_lagrange(w, P, u, v, L, lam)
        w.unchanged('argument unchanged', snap)
        u2 = atom.lagrange_prox(v, lipschitz=L, lagrange=lam)
        w.eq('explicit lagrange is the same map', u2, u, scale=abs(v))
    return c


for nm, mk in zoo.ALL.items():
    if nm not in spec.PEN and nm not in ('block_max', 'slope_conjugate', 'sparse_group_lasso_dual', 'sparse_group_block_dual'):
        make_zoo(nm, mk)
