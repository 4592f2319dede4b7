"""Square roots of sparse Hessians as preconditioners."""
import autograd
import autograd.numpy as anp
import numpy as np
import scipy.sparse as sp
from autograd.differential_operators import make_jvp

import paragami
from paragami import sparse_preconditioners_lib as spl

from .c23 import unsorted, untidy

RULE = ('Random sparse positive definite matrices (diagonal, banded, arrow, '
        'blocks, random patterns under permutation, dense ones stored sparsely; '
        'dimension 1 to 60, several storage formats): the returned functions '
        'must be mutually inverse, linear, a square root of the matrix, '
        'differentiable both ways, and as a preconditioner give a unit Hessian. '
        'Distinct by kind, dimension and format.')
REQUIRED = {'square-root': 300, 'mutually-inverse': 300, 'derivative': 300,
            'unit-hessian': 100}


def explicit(m):
    """With zeros stored."""
    i, j = np.indices(m.shape).reshape(2, -1)
    return sp.csc_matrix((m.reshape(-1), (i, j)), shape=m.shape)


STORED = {'csc': sp.csc_matrix, 'csr': sp.csr_matrix, 'coo': sp.coo_matrix,
          'bsr': sp.bsr_matrix, 'dia': sp.dia_matrix, 'lil': sp.lil_matrix,
          'dok': sp.dok_matrix, 'untidy': untidy, 'unsorted': unsorted,
          'explicit zeros': explicit, 'csc array': sp.csc_array,
          'csr array': sp.csr_array,
          'integers': lambda m: sp.csc_matrix(m.astype(int))}


def matrix(ctx, n):
    rng = ctx.rng
    kind = ctx.pick(['diag', 'band', 'arrow', 'arrow-up', 'block', 'random',
                     'dense', 'grid'])
    m = np.zeros((n, n))
    if kind == 'band':
        for k in (1, 2):
            for i in range(n - k):
                m[i, i + k] = rng.normal()
    elif kind == 'arrow':
        m[0, 1:] = rng.normal(size=n - 1)
    elif kind == 'arrow-up':
        m[:-1, -1] = rng.normal(size=n - 1)
    elif kind == 'block':
        i = 0
        while i < n:
            k = int(rng.integers(1, 5))
            m[i:i + k, i:i + k] = rng.normal(size=m[i:i + k, i:i + k].shape)
            i += k
    elif kind == 'random':
        m = rng.normal(size=(n, n)) * (rng.random((n, n)) < 3.0 / n)
    elif kind == 'dense':
        m = rng.normal(size=(n, n))
    elif kind == 'grid':
        k = max(1, int(np.sqrt(n)))
        for i in range(n):
            for j in (i + 1, i + k):
                if j < n:
                    m[i, j] = rng.normal()
    m = m + m.T
    np.fill_diagonal(m, 0)
    np.fill_diagonal(m, np.sum(np.abs(m), axis=1) + rng.uniform(0.3, 2, n))
    s = 10.0 ** rng.uniform(-1.5, 1.5, n) if ctx.chance(0.5) else np.ones(n)
    if ctx.chance(0.2):         # most entries far below the diagonal
        m = np.where(np.eye(n) > 0, m, m * 10.0 ** -rng.uniform(1, 5))
    m = m * s * s[:, None]
    if ctx.chance(0.3):
        m = m * 10.0 ** rng.integers(-9, 10)
    if ctx.chance(0.5):
        p = rng.permutation(n)
        m = m[p][:, p]
    return kind, m


def main(ctx):
    n = ctx.rint(1, 12) if ctx.chance(0.8) else ctx.rint(13, 60)
    kind, m = matrix(ctx, n)
    fmt = ctx.pick(sorted(STORED))
    if fmt == 'integers':
        m = np.round(m * 4)
        m = m + np.diag(2.0 + np.sum(np.abs(m), axis=1) - np.abs(np.diag(m)))
    h = STORED[fmt](m)
    keep = h.toarray()
    ctx.notes.update(kind=kind, n=n, fmt=fmt)
    res = ctx.call('get_sym_matrix_inv_sqrt_funcs',
                   spl.get_sym_matrix_inv_sqrt_funcs, h)
    ctx.check('form', isinstance(res, tuple) and len(res) == 2 and
              callable(res[0]) and callable(res[1]), 'two functions expected')
    root, iroot = res
    eye = np.eye(n)
    S = np.stack([ctx.call('sqrt', root, eye[i]) for i in range(n)], axis=1)
    R = np.stack([ctx.call('inv sqrt', iroot, eye[i]) for i in range(n)],
                 axis=1)
    cond = np.linalg.cond(m)
    tol = 1e-10 * cond
    sd = np.sqrt(np.diag(m))        # rounding is relative to the diagonal
    ctx.close('square-root', S.T @ S, m, 1e-12 * n * sd * sd[:, None],
              'S\' S and the matrix')
    ctx.close('square-root', R.T @ m @ R, eye, tol * n, 'R\' H R')
    ctx.close('mutually-inverse', S @ R, eye, tol * n)
    ctx.close('mutually-inverse', R @ S, eye, tol * n)
    for _ in range(3):
        v, w = ctx.rng.normal(size=n), ctx.rng.normal(size=n)
        a = float(ctx.rng.normal())
        sv = ctx.call('sqrt', root, v)
        ctx.close('mutually-inverse', ctx.call('inv sqrt', iroot, sv), v,
                  tol * (1 + np.max(np.abs(v))) * n)
        ctx.close('mutually-inverse', ctx.call('sqrt', root, iroot(v)), v,
                  tol * (1 + np.max(np.abs(v))) * n)
        ctx.close('linear', root(a * v + w), a * sv + root(w),
                  1e-10 * (1 + np.sum(np.abs(S))))
        for name, fn, mat in (('sqrt', root, S), ('inv sqrt', iroot, R)):
            c = ctx.rng.normal(size=n)
            t = tol * n * (1 + np.max(np.abs(mat)) * np.sum(np.abs(c)))
            g = ctx.call('grad ' + name, autograd.grad(
                lambda z: anp.sum(c * fn(z))), v)
            ctx.close('derivative', g, mat.T @ c, t, name + ' reverse')
            val, jv = ctx.call('jvp ' + name, lambda: make_jvp(fn)(v)(w))
            ctx.close('derivative', jv, mat @ w, tol * n * (
                1 + np.max(np.abs(mat))) * (1 + np.max(np.abs(w))),
                name + ' forward')
            if n <= 8:
                H = ctx.call('hessian ' + name, autograd.hessian(
                    lambda z: anp.sum(c * fn(z) ** 3)), v)
                want = mat.T @ np.diag(6 * c * (mat @ v)) @ mat
                ctx.close('derivative', H, want, tol * n * (
                    1 + np.max(np.abs(mat))) ** 3 * (1 + np.max(np.abs(v)))
                    * (1 + np.max(np.abs(c))) * 10, name + ' second')
    # As a preconditioner.
    if n <= 12:
        c = ctx.rng.normal(size=n)

        def f(x):
            return 0.5 * anp.dot(x, anp.dot(m, x)) + anp.dot(c, x)
        pf = paragami.PreconditionedFunction(f)
        ctx.call('set_preconditioner_functions',
                 pf.set_preconditioner_functions, iroot, root)
        x = ctx.rng.normal(size=n)
        hc = ctx.call('hessian', autograd.hessian(pf), x)
        ctx.close('unit-hessian', hc, eye, tol * n)
        ctx.close('unit-hessian', ctx.call('value', pf, pf.precondition(x)),
                  f(x), tol * n * (1 + abs(f(x)) + np.sum(np.abs(m))))
    ctx.exact('argument-intact', h.toarray(), keep)
    ctx.sig(kind, n, fmt)


def large(ctx):
    """Larger matrices, few vectors."""
    n = ctx.rint(60, 400)
    kind, m = matrix(ctx, n)
    fmt = ctx.pick(['csc', 'csr', 'coo'])
    root, iroot = ctx.call('get_sym_matrix_inv_sqrt_funcs',
                           spl.get_sym_matrix_inv_sqrt_funcs, STORED[fmt](m))
    tol = 1e-10 * n * np.linalg.cond(m)
    for _ in range(3):
        v, w = ctx.rng.normal(size=n), ctx.rng.normal(size=n)
        a, b = ctx.call('sqrt', root, v), ctx.call('sqrt', root, w)
        ctx.close('square-root', a @ b, v @ m @ w,
                  1e-11 * n * (np.abs(v) @ np.abs(m) @ np.abs(w)))
        ctx.close('mutually-inverse', ctx.call('inv sqrt', iroot, a), v, tol)
        ctx.close('mutually-inverse', ctx.call('sqrt', root, iroot(v)), v, tol)
        g = ctx.call('grad', autograd.grad(lambda z: anp.dot(a, root(z))), w)
        ctx.close('derivative', g, m @ v, 1e-10 * n * (
            1 + np.abs(m) @ np.abs(v)), 'S\' S v')
    ctx.sig('large', kind, n, fmt)


def two(ctx):
    """Two preconditioners at once keep apart."""
    n = ctx.rint(1, 8)
    ms = [matrix(ctx, n)[1] for _ in range(3)]
    fs = [ctx.call('funcs', spl.get_sym_matrix_inv_sqrt_funcs,
                   sp.csc_matrix(m)) for m in ms]
    for m, (root, iroot) in zip(ms, fs):
        S = np.stack([root(e) for e in np.eye(n)], axis=1)
        R = np.stack([iroot(e) for e in np.eye(n)], axis=1)
        sd = np.sqrt(np.diag(m))
        ctx.close('square-root', S.T @ S, m, 1e-12 * n * sd * sd[:, None])
        ctx.close('mutually-inverse', S @ R, np.eye(n),
                  1e-10 * np.linalg.cond(m) * n)
    ctx.sig('two', n, ms[0][0, 0])


def refused(ctx):
    n = ctx.rint(1, 8)
    _, m = matrix(ctx, n)
    ctx.must_raise('dense-refused', ValueError, 'dense',
                   spl.get_sym_matrix_inv_sqrt_funcs, m)
    i = ctx.rint(0, n - 1)
    m[i, i] = -abs(m[i, i])
    ctx.must_raise('indefinite-refused', Exception, 'indefinite',
                   spl.get_sym_matrix_inv_sqrt_funcs, sp.csc_matrix(m))
    ctx.sig('refused', n, i)


WORKLOADS = [('main', 40, main), ('two', 10, two), ('large', 1, large),
             ('refused', 10, refused)]
QUICK = 7200
THOROUGH = 60000
