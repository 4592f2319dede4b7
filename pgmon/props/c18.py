"""Preconditioning is a change of variables."""
import warnings

import autograd
import autograd.numpy as anp
import numpy as np
import scipy.sparse as sp

import paragami
from paragami.autograd_supplement_lib import get_sparse_product

from ..rt import KnownFinding, Violation

RULE = ('Histories of setting preconditioners (identity, dense and sparse '
        'matrices, not symmetric, with and without a given inverse, functions, '
        'Hessian square roots, and settings which are refused) on one or several functions, with the map, its '
        'inverse, the value, gradient and Hessian of the preconditioned '
        'function checked against a model after every step.  Distinct by '
        'sequence of settings and dimension.')
REQUIRED = {'change-of-variables': 500, 'inverse': 500, 'chain-rule': 300}


def function(ctx, n):
    """A smooth function with its gradient and Hessian in closed form."""
    b = ctx.rng.normal(size=(n, n))
    q = b @ b.T + np.eye(n)
    c = ctx.rng.normal(size=n)
    k = ctx.rng.normal(size=n)
    calls = []

    def f(x):
        if isinstance(x, np.ndarray):
            calls.append(np.array(x))
        return 0.5 * anp.dot(x, anp.dot(q, x)) + anp.dot(c, x) + \
            anp.sum(anp.sin(k * x))

    def grad(x):
        return q @ x + c + k * np.cos(k * x)

    def hess(x):
        return q - np.diag(k ** 2 * np.sin(k * x))
    return f, grad, hess, calls, q


def matrix(ctx, n):
    """Well conditioned, in general not symmetric."""
    kind = ctx.rint(0, 4)
    if kind == 0:
        a = np.diag(ctx.rng.choice([-1, 1], n) * ctx.rng.uniform(0.3, 3, n))
    elif kind == 1:
        a = np.eye(n)[ctx.rng.permutation(n)] * ctx.rng.uniform(0.5, 2)
    elif kind == 2:
        a = np.triu(ctx.rng.normal(size=(n, n)) * 0.4 * min(1, 7 / n), 1) + \
            np.diag(ctx.rng.uniform(0.5, 2, n))
    else:
        u, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
        v, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
        a = (u * 10.0 ** ctx.rng.uniform(-1, 1, n)) @ v
    return a


def sparse_matrix(ctx, n):
    a = np.diag(ctx.rng.choice([-1, 1], n) * ctx.rng.uniform(0.5, 3, n))
    off = ctx.rng.normal(size=(n, n)) * 0.3 * (
        ctx.rng.random((n, n)) < min(0.3, 2 / n))
    a = a + np.triu(off, 1)
    p = ctx.rng.permutation(n)
    q = ctx.rng.permutation(n)
    return a[p][:, q]


def sparsify(ctx, a):
    return ctx.pick([sp.csc_matrix, sp.csr_matrix, sp.coo_matrix,
                     sp.csc_array])(a)


def verify(ctx, pf, n, A, Ainv, f, grad, hess, calls):
    rng = ctx.rng
    sA, sI = 1 + np.linalg.norm(A, 2), 1 + np.linalg.norm(Ainv, 2)
    t = (1e-11 if n > 7 else 1e-9) * sA * sI
    # Often the same arrays, filled anew, as optimizers do.
    bufs = ctx.__dict__.setdefault('bufs', (np.empty(n), np.empty(n)))
    x, y = bufs if ctx.chance(0.6) else (np.empty(n), np.empty(n))
    x[:], y[:] = rng.normal(size=n), rng.normal(size=n)
    xt = ctx.call('unprecondition', pf.unprecondition, x)
    ctx.close('map', xt, A @ x, t, 'unprecondition')
    ctx.close('map', ctx.call('precondition', pf.precondition, y), Ainv @ y, t,
              'precondition')
    ctx.close('inverse', ctx.call('precondition', pf.precondition, xt), x,
              t * sA * sI, 'precondition(unprecondition(x))')
    ctx.close('inverse', ctx.call('unprecondition', pf.unprecondition,
                                  pf.precondition(y)), y, t * sA * sI,
              'unprecondition(precondition(y))')
    ctx.close('map', ctx.call('get_preconditioner', pf.get_preconditioner, n),
              A, t, 'matrix')
    ctx.close('map', ctx.call('get_preconditioner_inv',
                              pf.get_preconditioner_inv, n), Ainv, t,
              'inverse matrix')
    ctx.call('check_preconditioner', pf.check_preconditioner, y, tol=1e-6)
    del calls[:]
    v = ctx.call('preconditioned function', pf, x)
    ctx.check('called-once', len(calls) == 1, '{} calls'.format(len(calls)))
    ctx.close('change-of-variables', calls[0], A @ x, t, 'argument')
    sc = 1 + abs(f(A @ x)) + np.sum(np.abs(grad(A @ x))) * sA
    ctx.close('change-of-variables', v, f(A @ x), 1e-8 * sc * sA, 'value')
    if ctx.chance(0.5):
        x[:] = rng.normal(size=n)
        sc = 1 + abs(f(A @ x)) + np.sum(np.abs(grad(A @ x))) * sA
        ctx.close('change-of-variables', ctx.call('preconditioned function',
                                                  pf, x), f(A @ x),
                  1e-8 * sc * sA, 'value at an array filled anew')
        ctx.close('map', ctx.call('unprecondition', pf.unprecondition, x),
                  A @ x, t, 'unprecondition')
    ctx.close('change-of-variables', ctx.call(
        'preconditioned function', pf, pf.precondition(y)), f(y),
        1e-7 * (1 + abs(f(y)) + np.sum(np.abs(grad(y)))) * sA * sI, 'value')
    g = ctx.call('grad', autograd.grad(pf), x)
    want = A.T @ grad(A @ x)
    ctx.close('chain-rule', g, want, 1e-8 * sA * sI * (1 + np.max(np.abs(
        want)) + np.max(np.abs(grad(A @ x)))), 'gradient')
    H = ctx.call('hessian', autograd.hessian(pf), x)
    want = A.T @ hess(A @ x) @ A
    ctx.close('chain-rule', H, want, 1e-8 * sA ** 2 * sI * (
        1 + np.max(np.abs(hess(A @ x)))), 'Hessian')


def setting(ctx, pf, n, q):
    """Perform one random setting; returns what it should mean."""
    op = ctx.pick(['identity', 'dense', 'dense', 'dense-inv', 'sparse',
                   'sparse-inv', 'functions', 'sparse-functions', 'deprecated',
                   'hessian', 'views', 'involution'])
    if op == 'identity':
        ctx.call('set identity', pf.set_identitity_preconditioner)
        return op, np.eye(n), np.eye(n)
    if op == 'views':      # which hand back what they were given
        sl = ctx.pick([slice(None), slice(None, None, -1)])
        ctx.call('set functions', pf.set_preconditioner_functions,
                 lambda v: v[sl], lambda v: v[sl])
        return op, np.eye(n)[sl], np.eye(n)[sl]
    if op == 'involution':   # which one function undoes
        u = ctx.rng.normal(size=n)
        a = np.eye(n) - 2 * np.outer(u, u) / np.dot(u, u)

        def reflect(v):
            return anp.dot(a, v)
        ctx.call('set functions', pf.set_preconditioner_functions,
                 reflect, reflect)
        return op, a, a
    if op.startswith('sparse'):
        a = sparse_matrix(ctx, n)
    else:
        a = matrix(ctx, n)
    ai = np.linalg.inv(a)
    if op == 'dense':
        ctx.call('set matrix', pf.set_preconditioner_matrix, a)
    elif op == 'dense-inv':
        ctx.call('set matrix', pf.set_preconditioner_matrix, a, ai)
    elif op == 'sparse':
        ctx.call('set sparse', pf.set_preconditioner_matrix, sparsify(ctx, a))
    elif op == 'sparse-inv':
        ctx.call('set sparse', pf.set_preconditioner_matrix, sparsify(ctx, a),
                 a_inv=sparsify(ctx, ai))
    elif op == 'functions':
        ctx.call('set functions', pf.set_preconditioner_functions,
                 lambda v: anp.dot(a, v), lambda v: anp.dot(ai, v))
    elif op == 'sparse-functions':
        ctx.call('set functions', pf.set_preconditioner_functions,
                 get_sparse_product(sparsify(ctx, a))[0],
                 get_sparse_product(sparsify(ctx, ai))[0])
    elif op == 'deprecated':
        ctx.call('set_preconditioner', pf.set_preconditioner, a,
                 *([ai] if ctx.chance(0.5) else []))
    elif op == 'hessian':
        ctx.call('set hessian', pf.set_preconditioner_with_hessian, hessian=q)
        w, u = np.linalg.eigh(q)
        return op, (u / np.sqrt(w)) @ u.T, (u * np.sqrt(w)) @ u.T
    return op, a, ai


def refused(ctx, pf, n):
    """A setting which is refused, and so must change nothing."""
    op = ctx.pick(['singular', 'oblong', 'both', 'neither', 'sparse hessian'])
    if op == 'singular':
        a = ctx.rng.normal(size=(n, n))
        a[ctx.rint(0, n - 1)] = 0
        ctx.must_raise('refused', np.linalg.LinAlgError, 'set matrix',
                       pf.set_preconditioner_matrix, a)
    elif op == 'oblong':
        a = ctx.rng.normal(size=(n, n + 1))
        ctx.must_raise('refused', np.linalg.LinAlgError, 'set matrix',
                       pf.set_preconditioner_matrix, a)
    elif op == 'both':
        ctx.must_raise('refused', ValueError, 'set hessian',
                       pf.set_preconditioner_with_hessian,
                       x=ctx.rng.normal(size=n), hessian=np.eye(n))
    elif op == 'neither':
        ctx.must_raise('refused', ValueError, 'set hessian',
                       pf.set_preconditioner_with_hessian, ev_min=1.0)
    else:
        ctx.must_raise('refused', NotImplementedError, 'set hessian',
                       pf.set_preconditioner_with_hessian,
                       hessian=sp.csc_matrix(2 * np.eye(n)))
    return op


def history(ctx):
    n = ctx.rint(1, 7) if ctx.chance(0.96) else ctx.rint(12, 50)
    f, grad, hess, calls, q = function(ctx, n)
    pf = ctx.call('PreconditionedFunction', paragami.PreconditionedFunction, f)
    verify(ctx, pf, n, np.eye(n), np.eye(n), f, grad, hess, calls)
    trace = []
    for _ in range(ctx.rint(1, 5)):
        op, A, Ai = setting(ctx, pf, n, q)
        trace.append(op)
        for _ in range(ctx.rint(1, 2)):
            verify(ctx, pf, n, A, Ai, f, grad, hess, calls)
            if ctx.chance(0.3):
                trace.append(refused(ctx, pf, n))
                verify(ctx, pf, n, A, Ai, f, grad, hess, calls)
    ctx.sig(n, trace)


def two(ctx):
    """Settings of one function do not reach another; and they nest."""
    n = ctx.rint(1, 5)
    f, grad, hess, calls, q = function(ctx, n)
    one = paragami.PreconditionedFunction(f)
    other = paragami.PreconditionedFunction(f)
    nest = paragami.PreconditionedFunction(one)
    states = {0: (np.eye(n),) * 2, 1: (np.eye(n),) * 2, 2: (np.eye(n),) * 2}
    trace = []
    for _ in range(ctx.rint(2, 5)):
        i = ctx.rint(0, 2)
        op, A, Ai = setting(ctx, (one, other, nest)[i], n, q)
        states[i] = (A, Ai)
        trace.append((i, op))
        verify(ctx, one, n, *states[0], f, grad, hess, calls)
        verify(ctx, other, n, *states[1], f, grad, hess, calls)
        x = ctx.rng.normal(size=n)
        want = f(states[0][0] @ states[2][0] @ x)
        ctx.close('change-of-variables', ctx.call('nested', nest, x), want,
                  1e-7 * (1 + abs(want)), 'nested')
        if op != 'hessian' or i != 2:
            B = states[0][0] @ states[2][0]
            g = ctx.call('grad nested', autograd.grad(nest), x)
            want = B.T @ grad(B @ x)
            ctx.close('chain-rule', g, want, 1e-7 * (1 + np.max(np.abs(
                grad(B @ x)))) * (1 + np.linalg.norm(B)), 'nested gradient')
    ctx.sig(n, trace)


def numbers(ctx):
    """Points and matrices of integers, or of single precision."""
    n = ctx.rint(1, 6)
    rng = ctx.rng
    seen = []

    def f(x):
        seen.append(np.array(x, dtype=float))
        return float(np.sum(np.asarray(x, dtype=float) ** 2))
    pf = ctx.call('PreconditionedFunction', paragami.PreconditionedFunction, f)
    how = ctx.pick(['dense', 'sparse', 'functions', 'hessian', 'identity'])
    whole = ctx.chance(0.4)          # the matrix is of integers
    a = sparse_matrix(ctx, n) if how == 'sparse' else matrix(ctx, n)
    if whole:
        a = np.triu(rng.integers(-2, 3, (n, n)), 1) + np.diag(
            rng.choice([-2, -1, 1, 2, 3], n))
    ai = np.linalg.inv(a)
    if how == 'identity':
        a = ai = np.eye(n)
    elif how == 'dense':
        ctx.call('set matrix', pf.set_preconditioner_matrix, a,
                 *([ai] if ctx.chance(0.4) else []))
    elif how == 'sparse':
        ctx.call('set sparse', pf.set_preconditioner_matrix,
                 sp.csc_matrix(a))
    elif how == 'functions':
        ctx.call('set functions', pf.set_preconditioner_functions,
                 lambda v: a @ v, lambda v: ai @ v)
    else:
        h = a @ a.T + 2 * np.eye(n, dtype=int if whole else float)
        ctx.call('set hessian', pf.set_preconditioner_with_hessian, hessian=h)
        w, u = np.linalg.eigh(np.array(h, dtype=float))
        a, ai = (u / np.sqrt(w)) @ u.T, (u * np.sqrt(w)) @ u.T
    x = rng.integers(-5, 6, n).astype(ctx.pick(
        [np.int64, np.int64, np.int32, np.int8, np.float32]))
    real = x.astype(float)
    e = 1e-12 if x.dtype != np.float32 else 1e-5
    s = e * (1 + np.linalg.norm(a, 2)) * (1 + np.linalg.norm(ai, 2)) * 10
    ctx.close('map', ctx.call('unprecondition', pf.unprecondition, x),
              a @ real, s, 'unprecondition of {}'.format(x.dtype))
    ctx.close('map', ctx.call('precondition', pf.precondition, x),
              ai @ real, s, 'precondition of {}'.format(x.dtype))
    v = ctx.call('preconditioned function', pf, x)
    ctx.check('called-once', len(seen) == 1, '{} calls'.format(len(seen)))
    ctx.close('change-of-variables', seen[0], a @ real, s, 'argument')
    ctx.close('change-of-variables', v, np.sum((a @ real) ** 2),
              s * 10 * (1 + np.linalg.norm(a, 2)), 'value')
    ctx.close('map', ctx.call('get_preconditioner', pf.get_preconditioner, n),
              a, s, 'matrix')
    ctx.close('map', ctx.call('get_preconditioner_inv',
                              pf.get_preconditioner_inv, n), ai, s, 'inverse')
    ctx.sig('numbers', n, how, whole, str(x.dtype))


def inconsistent(ctx):
    """check_preconditioner tells a wrong inverse; a given inverse is used."""
    n = ctx.rint(1, 6)
    pf = paragami.PreconditionedFunction(lambda x: anp.sum(x ** 2))
    a = matrix(ctx, n)
    ai = np.linalg.inv(a)
    bad = ai + ctx.rng.normal(size=(n, n)) * 0.1
    y = ctx.rng.normal(size=n)
    how = ctx.rint(0, 3)
    if how == 3:
        ctx.call('set', pf.set_preconditioner, a, bad)
    elif how == 0:
        ctx.call('set', pf.set_preconditioner_matrix, a, bad)
    elif how == 1:
        ctx.call('set', pf.set_preconditioner_matrix, sp.csc_matrix(a),
                 sp.csc_matrix(bad))
    else:
        ctx.call('set', pf.set_preconditioner_functions, lambda v: a @ v,
                 lambda v: bad @ v)
    ctx.close('given-inverse-used', ctx.call('precondition', pf.precondition,
                                             y), bad @ y, 1e-12 *
              (1 + np.sum(np.abs(bad))) * (1 + np.max(np.abs(y))))
    err = np.linalg.norm(y - a @ (bad @ y))
    if err > 1e-6:
        ctx.must_raise('inconsistency-detected', ValueError,
                       'check_preconditioner', pf.check_preconditioner, y)
        ctx.must_raise('inconsistency-detected', ValueError,
                       'check_preconditioner', pf.check_preconditioner, y,
                       tol=err * 0.9)
        ctx.call('check_preconditioner', pf.check_preconditioner, y,
                 tol=err * 1.1)
    ctx.sig(n, how, 'inconsistent')


def undefined(ctx):
    """Preconditioners which give nan or infinite results are never
    consistent."""
    n = ctx.rint(1, 5)
    pf = paragami.PreconditionedFunction(lambda x: anp.sum(x ** 2))
    y = ctx.rng.normal(size=n)
    how = ctx.pick(['root of a negative', 'nan matrix', 'infinite',
                    'nan function'])
    a = matrix(ctx, n)
    bad = np.linalg.inv(a)
    if how == 'root of a negative':
        # Without truncation, the square root of the Hessian does not exist.
        with np.errstate(all='ignore'):
            h = a + a.T
            h = h - np.eye(n) * (np.linalg.eigvalsh(h)[0] + 1)
            ctx.call('set', pf.set_preconditioner_with_hessian, hessian=h)
    elif how == 'nan matrix':
        bad[ctx.rint(0, n - 1), ctx.rint(0, n - 1)] = np.nan
        ctx.call('set', pf.set_preconditioner_matrix, a, bad)
    elif how == 'infinite':
        bad[ctx.rint(0, n - 1), ctx.rint(0, n - 1)] = np.inf
        ctx.call('set', pf.set_preconditioner_matrix, a, bad)
    else:
        ctx.call('set', pf.set_preconditioner_functions, lambda v: a @ v,
                 lambda v: v * np.nan)
    with np.errstate(all='ignore'):
        ctx.must_raise('inconsistency-detected', ValueError,
                       'check_preconditioner', pf.check_preconditioner, y)
    ctx.sig(n, how)


def valued(ctx):
    """Functions whose values are not numbers."""
    n = ctx.rint(1, 4)
    v = ctx.pick([
        lambda: np.ones((1, 1)), lambda: ctx.rng.normal(size=1),
        lambda: np.array(2.5), lambda: ctx.rng.normal(size=n),
        lambda: ctx.rng.normal(size=(n, 2)), lambda: (1.0, np.ones(2)),
        lambda: None, lambda: 'text', lambda: {'a': 1}, lambda: [1.0],
        lambda: 3, lambda: True, lambda: np.float32(0.1),
        lambda: np.zeros((0, 2)), lambda: 1.5 + 2j, lambda: (2.0,)])()
    at = []

    def fun(x):
        at.append(np.array(x))
        return v
    pf = ctx.call('PreconditionedFunction', paragami.PreconditionedFunction,
                  fun)
    q = np.diag(ctx.rng.uniform(1, 2, n))
    op, A, _ = setting(ctx, pf, n, q)
    x = ctx.rng.normal(size=n)
    got = ctx.call('preconditioned function', pf, x)
    ctx.check('value-kept', type(got) is type(v) and
              np.shape(got) == np.shape(v) if not isinstance(v, (tuple, list))
              else type(got) is type(v) and len(got) == len(v),
              'a value {!r} was returned as {!r}'.format(v, got))
    if isinstance(v, np.ndarray):
        ctx.exact('value-kept', got, v, 'value')
    ctx.check('called-once', len(at) == 1, '{} calls'.format(len(at)))
    ctx.close('change-of-variables', at[0], A @ x, 1e-9 * (
        1 + np.sum(np.abs(A)) * np.max(np.abs(x))) * (1 + np.linalg.cond(A)),
        'argument')
    ctx.sig('valued', op, type(v).__name__, np.shape(v)
            if isinstance(v, np.ndarray) else ())


WORKLOADS = [('history', 4, history), ('two', 1, two),
             ('inconsistent', 1, inconsistent), ('undefined', 1, undefined),
             ('numbers', 1, numbers), ('valued', 1, valued)]
QUICK = 4000
THOROUGH = 60000
