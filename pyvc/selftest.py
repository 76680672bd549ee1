"""False statements the engine must refuse, and true ones it must accept (run by hand:
/opt/venv/bin/python -W ignore -m pyvc.selftest).  Each statement is a contract with
a symbolic length; false ones must leave at least one obligation open."""
import time
from . import runner, kernels
from .runner import contract

FALSE, TRUE = [], []


def bad(f):
    FALSE.append(f.__name__)
    contract('SELF', f.__name__, [])(f)
    return f


def good(f):
    TRUE.append(f.__name__)
    contract('SELF', f.__name__, [])(f)
    return f


@bad
def sum_of_squares_is_square_of_sum(w):
    x = w.vec('x', w.dim('n'))
    w.eq('x', (x * x).sum(), x.sum() ** 2)


@bad
def abs_is_identity(w):
    x = w.vec('x', w.dim('n'))
    w.eq('x', abs(x), x)


@bad
def triangle_is_equality(w):
    n = w.dim('n')
    x, y = w.vec('x', n), w.vec('y', n)
    w.eq('x', abs(x + y).sum(), abs(x).sum() + abs(y).sum())


@bad
def triangle_reversed(w):
    n = w.dim('n')
    x, y = w.vec('x', n), w.vec('y', n)
    w.ge('x', abs(x + y).sum(), abs(x).sum() + abs(y).sum())


@bad
def cauchy_reversed(w):
    n = w.dim('n')
    x, y = w.vec('x', n), w.vec('y', n)
    w.ge('x', x.dot(y), w.np.linalg.norm(x) * w.np.linalg.norm(y))


@bad
def max_is_sum(w):
    x = w.vec('x', w.dim('n'), sign='nonneg')
    w.eq('x', x.max(), x.sum())


@bad
def max_negative(w):
    x = w.vec('x', w.dim('n'))
    w.ge('x', x.max(), 0)


@bad
def all_from_one(w):
    n = w.dim('n')
    x = w.vec('x', n)
    w.assume(x[w.index('i', n)] > 0)
    w.true('x', w.np.all(x > 0))


@bad
def empty_masks(w):
    n = w.dim('n')
    x, m = w.vec('x', n), w.mask('m', n)
    w.eq('x', x[m].sum(), x.sum())


@bad
def nonzero_mask_has_entries(w):
    n = w.dim('n')
    m = w.mask('m', n)
    w.true('x', w.np.any(m))


@bad
def wrong_transpose(w):
    n = w.dim('n')
    A, x = w.mat('A', n, n), w.vec('x', n)
    w.eq('x', A.dot(x), A.T.dot(x))


@bad
def matrices_commute(w):
    n = w.dim('n')
    A, B, x = w.mat('A', n, n), w.mat('B', n, n), w.vec('x', n)
    w.eq('x', A.dot(B.dot(x)), B.dot(A.dot(x)))


@bad
def exp_is_linear(w):
    a, b = w.real('a'), w.real('b')
    w.eq('x', w.np.exp(a + b), w.np.exp(a) + w.np.exp(b))


@bad
def log_positive(w):
    w.ge('x', w.np.log(w.pos('a')), 0)


@bad
def sqrt_below(w):
    a = w.pos('a')
    w.ge('x', a, w.np.sqrt(a))


@bad
def soft_threshold_is_hard(w):
    n = w.dim('n')
    x, t = w.vec('x', n), w.pos('t')
    N = w.np
    w.eq('x', N.sign(x) * N.maximum(abs(x) - t, 0), x * (abs(x) > t))


@bad
def off_by_a_factor(w):
    n = w.dim('n')
    x = w.vec('x', n)
    w.eq('x', w.grad((x * x).sum(), x), x)


@bad
def slices_overlap(w):
    n = w.dim('n')
    x = w.vec('x', n + 1)
    w.eq('x', x[1:], x[:-1])


@bad
def view_is_copy(w):
    n = w.dim('n')
    x = w.vec('x', n)
    y = x[:]
    old = x.copy()
    y[:] = y + 1
    w.eq('x', x, old)


@bad
def where_forgets(w):
    n = w.dim('n')
    x = w.vec('x', n)
    w.eq('x', w.np.where(x > 0, x, 0), x)


@bad
def labels_one_group(w):
    n = w.dim('n')
    g = w.labels('g', n, 2)
    w.true('x', w.np.all(g == 0))


@bad
def strict(w):
    a = w.nonneg('a')
    w.true('x', a > 0)


@bad
def false_lemma(w):
    x = w.vec('x', w.dim('n'))
    w.lemma_all('wrong', x > 0)
    w.ge('x', x.sum(), 0)


@bad
def false_sum_lemma(w):
    x = w.vec('x', w.dim('n'))
    w.lemma_sum('wrong', x >= 0) if False else w.lemma('wrong', x.sum() >= 0)


@bad
def orthonormal_columns(w):
    n, k = w.dim('n'), w.dim('k')
    Q = w.orthonormal('Q', k, n)
    x = w.vec('x', n)
    w.eq('x', Q.T.dot(Q.dot(x)), x)


@good
def telescoped(w):
    n = w.dim('n')
    x, y = w.vec('x', n), w.vec('y', n)
    w.eq('x', ((x + y) ** 2).sum(), (x * x).sum() + 2 * x.dot(y) + (y * y).sum())


@good
def triangle(w):
    n = w.dim('n')
    x, y = w.vec('x', n), w.vec('y', n)
    w.lemma_all('each', abs(x + y) <= abs(x) + abs(y))
    w.lemma_sum('sum', abs(x) + abs(y) - abs(x + y)) if hasattr(w, 'lemma_sum') else None
    w.ge('x', abs(x).sum() + abs(y).sum(), abs(x + y).sum())


@good
def cauchy(w):
    n = w.dim('n')
    x, y = w.vec('x', n), w.vec('y', n)
    w.ge('x', w.np.linalg.norm(x) * w.np.linalg.norm(y), x.dot(y))


@good
def gradient(w):
    x = w.vec('x', w.dim('n'))
    w.eq('x', w.grad((x * x).sum(), x), 2 * x)


@good
def adjoint(w):
    n, p = w.dim('n'), w.dim('p')
    A, x, u = w.mat('A', n, p), w.vec('x', p), w.vec('u', n)
    w.eq('x', u.dot(A.dot(x)), A.T.dot(u).dot(x))


def main():
    fails = 0
    for c in runner.CONTRACTS['SELF']:
        out = runner.run_symbolic(c, time.time() + 60)
        proved = not out['fails'] and not out['unsupported'] and out['total'] > 0
        ok = proved if c.name in TRUE else not proved
        if c.name in FALSE and out['unsupported'] and not out['fails']:
            ok = None
        fails += ok is False
        print('%-40s %s %s' % (c.name, 'ok' if ok else 'UNSUPPORTED' if ok is None else 'WRONG', '' if ok else (out['unsupported'][:1], out['fails'][:1])))
    print('%d wrong' % fails)
    return fails


if __name__ == '__main__':
    raise SystemExit(main())
