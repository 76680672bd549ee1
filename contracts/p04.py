"""P04: constrained proximal maps return the nearest feasible point"""
from pyvc.runner import contract
from pyvc import spec, kernels
from regreg.atoms import seminorms as SN
from regreg.identity_quadratic import identity_quadratic

F = 'regreg/atoms/seminorms.py:'


def cut_hint(restrict):
    def hint(w, u, v, b):
        if not w.symbolic or 'cut' not in w.ghost:
            return
        cut = w.ghost['cut'][-1]
        r = spec.pos(w, restrict(w, v) - cut)
        w.lemma('mass', r.sum() == w.ghost['mass'][-1])
        w.lemma('projection mass', abs(spec.pos(w, u) if restrict is spec.pos else u).sum() == r.sum())
        w.lemma('alignment', ((v - u) * u).sum() == cut * r.sum())
        if b == 0:
            return
        if not (isinstance(cut, int) and cut == 0):
            i = w.witness_pos('some coordinate exceeds the cut', r)
            w.lemma('at the witness', abs(v - u)[i] == cut)
    return hint


HINTS = {'l1norm': cut_hint(lambda w, v: abs(v)), 'positive_part': cut_hint(spec.pos), 'constrained_positive_part': cut_hint(spec.pos)}


def make(name):
    cls = getattr(SN, name)

    @contract('P04', name, [F + name + '.bound_prox', F + 'seminorm.bound_prox', F + 'seminorm.get_bound'], stubs=kernels.atom_stubs)
    def c(w):
        n = w.dim('n')
        b = w.nonneg('b')
        v = w.vec('v', n)
        snap = w.snap(v)
        atom = cls(3, bound=b) if w.symbolic else cls(n, bound=b)
        u = atom.bound_prox(v)
        h = HINTS.get(name)
        spec.kkt_bound(w, name, u, v, b, hint=h and (lambda w, u, v: h(w, u, v, b)))
        w.true('shape of the argument', tuple(u.shape) == tuple(v.shape))
        w.finite('finite entries', u)
        w.unchanged('argument unchanged', snap)
        u2 = atom.bound_prox(v, bound=b)
        w.eq('explicit bound is the same map', u2, u, scale=abs(v))
        w.check_div()
    return c


def inside(name):
    cls = getattr(SN, name)

    @contract('P04', name + ' feasible fixed', [F + name + '.bound_prox'], stubs=kernels.atom_stubs)
    def c(w):
        n = w.dim('n')
        b = w.nonneg('b')
        v = w.vec('v', n)
        val, dom, _ = spec.PEN[name]
        if dom is not None:
            v = abs(v)
        if not w.symbolic:
            k = val(w, v)
            if k > b:
                v = v * (b / k) * .999
        w.assume(val(w, v) <= b)
        atom = cls(3, bound=b) if w.symbolic else cls(n, bound=b)
        u = atom.bound_prox(v)
        if w.symbolic and name in HINTS:
            cut = w.ghost['cut'][-1] if 'cut' in w.ghost else 0
            if not isinstance(cut, int):
                x = spec.pos(w, v) if name != 'l1norm' else abs(v)
                m = w.np.minimum(x, cut).sum()
                w.lemma('mass splits', m == x.sum() - w.ghost['mass'][-1])
                w.lemma('no mass removed', m == 0)
        w.eq('feasible points are fixed', u, v)
    return c


for nm in spec.PEN:
    make(nm)
    inside(nm)

# -- the remaining penalties (zoo.py) --------------------------------------
from contracts import zoo


def make_zoo(name, mk):
    @contract('P04', name, [mk.file + '.bound_prox', mk.file + '.get_bound'], stubs=kernels.atom_stubs, sym=mk.sym, note='penalty outside the symbolic subset')
    def c(w):
        P = mk(w)
        b = w.nonneg('b')
        v = w.arr('v', P.shape)
        snap = w.snap(v)
        atom = P.make(bound=b)
        u = atom.bound_prox(v)
        w.true('shape of the argument', tuple(u.shape) == tuple(v.shape))
        w.finite('finite entries', u)
        zoo.kkt_bound(w, P, u, v, b)
        w.unchanged('argument unchanged', snap)
        u2 = atom.bound_prox(v, bound=b)
        w.eq('explicit bound is the same map', u2, u, scale=abs(v))
        k = P.val(u)
        u3 = atom.bound_prox(u)
        if w.symbolic and hasattr(P.hint_b, 'again'):
            P.hint_b.again(w, u, u3)
        w.eq('feasible points are fixed', u3, u, tol=1e-5, scale=abs(v))
    return c


for nm, mk in zoo.ALL.items():
    if nm not in spec.PEN and nm not in ('block_sum', 'slope', 'sparse_group_lasso', 'sparse_group_block'):
        make_zoo(nm, mk)
