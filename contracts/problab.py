"""Parts of problems known only by their contract.

AnySmooth: some smooth function: one value and one gradient per point.
AnyAtom: some penalty: one value per point, one proximal answer per quadratic
(remembering the quadratics it was asked for).  Nothing else is known about
them, so what is proved of a problem assembled from them holds for all parts."""
import contextlib
import copy
import numpy as np
from pyvc import kernels
from regreg.smooth import smooth_atom
from regreg.atoms import atom
from regreg.identity_quadratic import identity_quadratic as iq
from contracts.p07 import quad


def table(w):
    if w.symbolic:
        return None
    if not hasattr(w, '_calls'):
        w._calls = {}
    return w._calls


def fun(w, name, shape, *args):
    """an unknown function of its arguments: same arguments, same value"""
    mk = (lambda: w.real(name)) if shape is None else (lambda: w.arr(name, shape))
    if w.symbolic:
        r = kernels.memo((name,) + tuple(kernels.key_of(a) for a in args), mk)
        return r if shape is None else w.copy(r)
    t = table(w)
    k = (name,) + tuple((np.asarray(a, float) + 0.).tobytes() for a in args)
    if k not in t:
        t[k] = mk()
    return t[k] if shape is None else t[k].copy()


class AnySmooth(smooth_atom):

    def __init__(self, w, name, shape, quadratic=None):
        smooth_atom.__init__(self, shape, quadratic=quadratic, coef=1.)
        self.w, self.name, self.calls = w, name, []

    def val(self, x):
        return fun(self.w, self.name + '_value', None, x)

    def grad(self, x):
        return fun(self.w, self.name + '_gradient', self.shape, x)

    def smooth_objective(self, x, mode='both', check_feasibility=False):
        self.calls.append((self.w.copy(x), mode))
        if mode == 'func':
            return self.val(x)
        if mode == 'grad':
            return self.grad(x)
        if mode == 'both':
            return self.val(x), self.grad(x)
        raise ValueError('mode')


class AnyAtom(atom):

    def __init__(self, w, name, shape, conj=True):
        atom.__init__(self, shape)
        self.w, self.name, self.asked, self.checked = w, name, [], []
        if conj:
            self.conj = AnyAtom(w, name + '*', shape, False)
            self.conj.conj = self

    conjugate = property(lambda s: s.conj)
    dual = property(lambda s: (s.linear_transform, s.conj))

    def val(self, x):
        return fun(self.w, self.name + '_penalty', None, x)

    def nonsmooth_objective(self, x, check_feasibility=False):
        self.checked.append(check_feasibility)
        return self.val(x)

    def answer(self, q):
        t = q.collapsed()
        return fun(self.w, self.name + '_prox', self.shape, t.coef, t.linear_term + self.w.np.zeros(self.shape))

    def proximal(self, q, prox_control=None):
        self.asked.append(copy.copy(q))     # callers may change theirs later
        return self.answer(q)

    def seminorm(self, x, lagrange=None, check_feasibility=False):
        return fun(self.w, self.name + '_norm', None, x)

    def constraint(self, x, bound=None):
        return fun(self.w, self.name + '_constraint', None, x)


def noquad():
    return None, lambda x: 0 * x, lambda x: 0., ()


def somequad(w, name, shape, sym=('array',), curved=(True, False), present=(True, False)):
    """a quadratic, possibly absent: (object or None, gradient, value, arrays)"""
    if not w.choice(name + '?', [True, False], sym=list(present)):
        return noquad()
    return quad(w, name, shape, w.nonneg(name + '_coef') if not w.symbolic or w.choice(name + ' curved?', list(curved)) else 0, sym=list(sym))


@contextlib.contextmanager
def swapped(*places):
    """modules' names bound to stand-ins: (object, attribute, stand-in)"""
    gone = object()
    old = [(o, a, getattr(o, a, gone)) for o, a, _ in places]
    try:
        for o, a, v in places:
            setattr(o, a, v)
        yield
    finally:
        for o, a, v in old:
            if v is gone:
                delattr(o, a)
            else:
                setattr(o, a, v)


def asked_for(w, name, got, want_grad, z, tol=1e-9):
    """the quadratic asked for is the wanted one, up to a constant"""
    w.eq(name, got.objective(z, 'grad') + 0 * z, want_grad(z), tol=tol, scale=None if w.symbolic else 1 + float(np.abs(want_grad(z)).max()))


def sc(w, *a):
    return None if w.symbolic else 1 + max(float(np.max(np.abs(x))) for x in a)
