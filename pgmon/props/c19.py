"""Hessian preconditioners, eigenvalue truncation, eigenspace transforms."""
import autograd
import autograd.numpy as anp
import numpy as np
import scipy.sparse as sp

import paragami
from paragami.optimization_lib import transform_eigenspace, truncate_eigenvalues

from .c18 import function

RULE = ('Random symmetric matrices (definite, indefinite, repeated and widely '
        'spread eigenvalues, not quite symmetric) and truncation bounds (none, '
        'zero of any kind, infinite, lower, upper, both; tight, equal to '
        'eigenvalues), given as matrix or through the point of evaluation; partial '
        'eigenspaces.  The '
        'preconditioner is compared with an inverse square root built here.  '
        'Distinct by dimension, bounds and spectrum.')
REQUIRED = {'inverse-square-root': 200, 'truncation': 500, 'eigenspace': 200,
            'unit-hessian': 100}


def clip(ev, lo, hi):
    out = np.array(ev, dtype=float)
    if lo is not None:
        out = np.where(out < lo, lo, out)
    if hi is not None:
        out = np.where(out > hi, hi, out)
    return out


def bounds(ctx, ev):
    srt = np.sort(ev)
    a, b = np.sort(ctx.rng.uniform(0.05, 6, 2))
    pick = [None, a, float(srt[0]), float(srt[len(srt) // 2]), 0.5]
    lo = ctx.pick(pick)
    hi = ctx.pick([None, b, float(srt[-1]), 2.0 * abs(float(srt[-1])) + 1])
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    return lo, hi


def special_bounds(ctx, ev):
    """Zero of every kind, equal, negative and enclosing bounds."""
    zero = ctx.pick([0, 0.0, -0.0, np.float64(0), np.array(0.0), False])
    m = float(np.max(np.abs(ev))) + 1
    return ctx.pick([
        (zero, None), (None, zero), (zero, zero), (-1.0, zero), (zero, m),
        (1.5, 1.5), (-m, -0.5), (-m, m), (-2, None), (None, -3),
        (float(ev[0]), float(ev[0])), (m, None), (None, -m),
        (-np.inf, 1.0), (1.0, np.inf), (-np.inf, np.inf),
        (float(ev[-1]), m)])


def truncation(ctx):
    n = ctx.rint(1, 12) if ctx.chance(0.9) else ctx.rint(13, 400)
    ev = ctx.rng.normal(size=n) * 10.0 ** ctx.rng.uniform(-3, 4)
    kind = ctx.rint(0, 3)
    if kind == 0:
        ev = np.repeat(ev[:1], n)
    elif kind == 1:
        ev = ctx.rng.integers(-5, 6, n)
    elif kind == 2:
        ev = np.sort(ev)
    if ctx.chance(0.2):
        ev = np.array(ev, dtype=float)
        ev[ctx.rint(0, n - 1)] = ctx.pick([np.inf, -np.inf])
        if ctx.chance(0.5):
            ev[ctx.rint(0, n - 1)] = ctx.pick([np.inf, -np.inf, -0.0, 5e-324,
                                               1.7e308])
    for _ in range(6):
        lo, hi = bounds(ctx, ev) if ctx.chance(0.5) else \
            special_bounds(ctx, ev)
        if ctx.chance(0.3) and type(lo) is float and abs(lo) < 1e30:
            lo = ctx.pick([int(np.floor(lo)), np.float32(lo), np.array(lo)])
        given = np.array(ev)
        if ctx.chance(0.3):
            given.flags.writeable = False
        got = ctx.call('truncate_eigenvalues', truncate_eigenvalues, given,
                       ev_min=lo, ev_max=hi)
        lo_, hi_ = (None if b is None else float(b) for b in (lo, hi))
        ctx.exact('truncation', got, clip(ev, lo_, hi_), 'bounds {} {}'.format(
            lo, hi))
        ctx.exact('argument-intact', given, ev, 'the argument was changed')
        ctx.check('argument-intact', not np.shares_memory(given, got),
                  'the argument was returned')
        ctx.sig('trunc', n, kind, str(np.sign(lo_ or 0)), lo is None,
                str(np.sign(hi_ or 0)), hi is None,
                int(np.sum(got == lo_)), int(np.sum(got == hi_)))
    for kw in ({'ev_min': 1j}, {'ev_max': 2 + 1j}):
        ctx.must_raise('complex-bound-refused', ValueError,
                       'truncate_eigenvalues', truncate_eigenvalues, ev, **kw)


def spectrum(ctx, n, definite):
    kind = ctx.rint(0, 3)
    if kind == 0:
        ev = np.exp(ctx.rng.normal(size=n))
    elif kind == 1:
        ev = np.repeat(np.exp(ctx.rng.normal(size=1)), n)
        ev[: n // 2] *= 3
    elif kind == 2:
        ev = 10.0 ** ctx.rng.uniform(-2, 2, n)
    else:
        ev = np.arange(1, n + 1) * 0.7
    if not definite:
        ev = ev * ctx.rng.choice([-1, 1, 1], n)
    u, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
    if ctx.chance(0.2):
        u = np.eye(n)
    h = (u * ev) @ u.T
    return 0.5 * (h + h.T), ev, u


def verify(ctx, pf, ht, msg):
    """pf is preconditioned with the inverse symmetric square root of ht."""
    n = len(ht)
    w, u = np.linalg.eigh(ht)
    root, iroot = (u * np.sqrt(w)) @ u.T, (u / np.sqrt(w)) @ u.T
    k = 1e-11 * (1 + n) * (w[-1] / w[0])
    A = ctx.call('get_preconditioner', pf.get_preconditioner, n)
    B = ctx.call('get_preconditioner_inv', pf.get_preconditioner_inv, n)
    ctx.close('inverse-square-root', A, iroot, k * np.max(np.abs(iroot)), msg)
    ctx.close('inverse-square-root', B, root, k * np.max(np.abs(root)), msg)
    ctx.close('inverse-square-root', A.T @ ht @ A, np.eye(n), k * n,
              msg + ': A\' H A')
    x = ctx.rng.normal(size=n)
    ctx.close('inverse-square-root', ctx.call('unprecondition',
                                              pf.unprecondition, x), iroot @ x,
              k * np.max(np.abs(iroot)) * n, msg)
    ctx.close('inverse-square-root', ctx.call('precondition', pf.precondition,
                                              x), root @ x,
              k * np.max(np.abs(root)) * n, msg)


def given_hessian(ctx):
    n = ctx.rint(1, 8) if ctx.chance(0.9) else ctx.rint(9, 50)
    definite = ctx.chance(0.5)
    h, ev, u = spectrum(ctx, n, definite)
    f = function(ctx, n)[0]
    pf = paragami.PreconditionedFunction(f)
    for _ in range(3):
        lo, hi = bounds(ctx, ev)
        if np.min(ev) <= 0 or (lo is not None and lo <= 0):
            lo = ctx.pick([0.1, 1.0, 2.5])
        if hi is not None and hi <= lo if lo is not None else False:
            hi = lo + 1.0
        if hi is not None and hi <= 0:
            hi = None
        t = clip(ev, lo, hi)
        if np.min(t) <= 0:
            continue
        given = np.array(h)
        if ctx.chance(0.3):        # rounding in a Hessian is symmetrized
            a = ctx.rng.normal(size=(n, n)) * 1e-3
            given = given + a - a.T
        keep = np.array(given)
        ctx.call('set_preconditioner_with_hessian',
                 pf.set_preconditioner_with_hessian, hessian=given,
                 ev_min=lo, ev_max=hi)
        ctx.exact('argument-intact', given, keep, 'the Hessian was changed')
        verify(ctx, pf, (u * t) @ u.T, 'bounds {} {}'.format(lo, hi))
        ctx.sig(n, definite, lo is None, hi is None, int(np.sum(t != ev)))
        # Another matrix, which is like this one in all but its directions.
        k = ctx.rint(0, 3)
        if k == 0:
            u = u[:, ctx.rng.permutation(n)]
        elif k == 1:
            u = u[ctx.rng.permutation(n)]
        elif k == 2:
            u = u * ctx.rng.choice([-1.0, 1.0], n)[:, None]
        h = (u * ev) @ u.T
        h = 0.5 * (h + h.T)
        if ctx.chance(0.3):
            pf = paragami.PreconditionedFunction(f)


def diagonal(ctx):
    """Diagonal matrices, where every entry can be told apart by its size."""
    n = ctx.rint(1, 6) if ctx.chance(0.7) else ctx.rint(7, 60)
    d = 10.0 ** ctx.rng.uniform(-6, 6, n)
    if ctx.chance(0.3):
        d = d * 10.0 ** ctx.rng.uniform(-80, 80)
    lo, hi = None, None
    if ctx.chance(0.4):
        lo = float(10.0 ** ctx.rng.uniform(-4, 0) * np.median(d))
    if ctx.chance(0.4):
        hi = float(10.0 ** ctx.rng.uniform(0, 4) * np.median(d))
    t = clip(d, lo, hi)
    pf = paragami.PreconditionedFunction(lambda x: anp.sum(x ** 2))
    ctx.call('set_preconditioner_with_hessian',
             pf.set_preconditioner_with_hessian, hessian=np.diag(d),
             ev_min=lo, ev_max=hi)
    for name, get, want in (
            ('get_preconditioner', pf.get_preconditioner, 1 / np.sqrt(t)),
            ('get_preconditioner_inv', pf.get_preconditioner_inv, np.sqrt(t))):
        m = ctx.call(name, get, n)
        ctx.close('inverse-square-root', np.diag(m), want, 1e-12 * (1 + want),
                  name + ' of a diagonal matrix')
        ctx.close('inverse-square-root', m - np.diag(np.diag(m)),
                  np.zeros((n, n)), 1e-13 * (1 + np.max(want)),
                  'away from the diagonal')
    ctx.sig('diagonal', n, lo is None, hi is None, int(np.sum(t != d)))


def integer_hessian(ctx):
    """Matrices of whole numbers, with a symmetric part that may not be."""
    n = ctx.rint(1, 6)
    m = ctx.rng.integers(-4, 5, (n, n))
    sym = m + m.T
    lo = None
    if ctx.chance(0.5):
        sym = sym + np.diag(ctx.rng.integers(0, 3, n) + 8 * n)
    else:
        lo = ctx.pick([1, 0.5, 3])
    given = sym.astype(ctx.pick(['int64', 'int32', 'float64']))
    if ctx.chance(0.5):          # one unit more in the upper triangle
        given = given + np.triu(ctx.rng.integers(0, 2, (n, n)), 1).astype(
            given.dtype)
    if ctx.chance(0.3):
        given = np.asfortranarray(given)
    s = 0.5 * (given.astype(float) + given.T.astype(float))
    w, u = np.linalg.eigh(s)
    hi = ctx.pick([None, float(np.ceil(max(w[-1], 4))) - 1, 100])
    t = clip(w, lo, hi)
    if lo is not None and hi is not None and lo > hi or np.min(t) <= 0.1:
        return
    pf = paragami.PreconditionedFunction(function(ctx, n)[0])
    keep = np.array(given)
    ctx.call('set_preconditioner_with_hessian',
             pf.set_preconditioner_with_hessian, hessian=given, ev_min=lo,
             ev_max=hi)
    ctx.exact('argument-intact', given, keep, 'the Hessian was changed')
    verify(ctx, pf, (u * t) @ u.T, 'whole numbers of {}'.format(given.dtype))
    ctx.sig('integer', n, str(given.dtype), lo, hi is None)


def at_point(ctx):
    """The Hessian of the preconditioned function is the identity there."""
    n = ctx.rint(1, 6)
    b = ctx.rng.normal(size=(n, n))
    q = b @ b.T + np.eye(n)
    k = ctx.rng.normal(size=n) * 0.5

    def f(x):
        return 0.5 * anp.dot(x, anp.dot(q, x)) + anp.sum(anp.exp(k * x)) + \
            anp.sum(x) * 0.3 + 0.05 * anp.sum(x ** 4)

    def hess(x):
        return q + np.diag(k ** 2 * np.exp(k * x) + 0.6 * x ** 2)
    pf = paragami.PreconditionedFunction(f)
    for _ in range(2):
        x = ctx.rng.normal(size=n)
        h = hess(x)
        w, u = np.linalg.eigh(h)
        lo, hi = (None, None) if ctx.chance(0.5) else bounds(ctx, w)
        if lo is not None and lo <= 0:
            lo = 0.3
        t = clip(w, lo, hi)
        # The function may be preconditioned otherwise at this time.
        if ctx.chance(0.5):
            pf.set_preconditioner_matrix(np.diag(ctx.rng.uniform(1, 2, n)))
        ctx.call('set_preconditioner_with_hessian',
                 pf.set_preconditioner_with_hessian, x=np.array(x),
                 ev_min=lo, ev_max=hi)
        verify(ctx, pf, (u * t) @ u.T, 'at a point')
        if np.array_equal(t, w):
            hc = ctx.call('hessian', autograd.hessian(pf), pf.precondition(x))
            ctx.close('unit-hessian', hc, np.eye(n), 1e-7 * w[-1] / w[0])
        ctx.sig('point', n, lo is None, hi is None)
    M = 'ambiguous-refused'
    ctx.must_raise(M, ValueError, 'both', pf.set_preconditioner_with_hessian,
                   x=x, hessian=h)
    ctx.must_raise(M, ValueError, 'neither', pf.set_preconditioner_with_hessian)
    ctx.must_raise(M, NotImplementedError, 'sparse',
                   pf.set_preconditioner_with_hessian,
                   hessian=sp.csc_matrix(h))
    verify(ctx, pf, (u * t) @ u.T, 'after refused settings')


def moving(ctx):
    """Close points, between which the Hessian changes."""
    n = ctx.rint(1, 4)
    size = 10.0 ** ctx.rng.uniform(-2, 3)
    step = size * 10.0 ** ctx.rng.uniform(-6, -1)
    r, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
    a = size * ctx.rng.normal(size=n)
    k = 1.0 / step

    def f(x):
        return anp.sum(anp.exp(k * (anp.dot(r, x) - a)))
    pf = paragami.PreconditionedFunction(f)
    for i in range(3):
        x = r.T @ (a + step * ctx.rng.normal(size=n))
        e = np.exp(k * (r @ x - a))
        ctx.call('set_preconditioner_with_hessian',
                 pf.set_preconditioner_with_hessian, x=np.array(x))
        A = ctx.call('get_preconditioner', pf.get_preconditioner, n)
        want = (r.T / np.sqrt(k * k * e)) @ r
        ctx.close('inverse-square-root', A, want,
                  1e-6 * np.max(np.abs(want)) * np.max(e) / np.min(e),
                  'at point {} of close ones'.format(i))
    ctx.sig('moving', n, np.log10(step / size))


def eigenspace(ctx):
    n = ctx.rint(1, 9) if ctx.chance(0.9) else ctx.rint(10, 60)
    k = ctx.rint(1, n)
    u, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
    vec, ev = u[:, :k], np.exp(ctx.rng.normal(size=k))
    name, fn = ctx.pick([('sqrt', np.sqrt), ('inv', lambda v: 1 / v),
                         ('zero', lambda v: 0 * v), ('same', lambda v: v),
                         ('one', np.ones_like), ('neg', lambda v: -v),
                         ('order', lambda v: np.arange(len(v)) + 2.0)])
    seen = []

    def wrapped(v):
        seen.append(np.array(v))
        return fn(v)
    mult = ctx.call('transform_eigenspace', transform_eigenspace, vec, ev,
                    wrapped)
    want = np.eye(n) + (vec * (fn(ev) - 1)) @ vec.T
    for _ in range(3):
        x = ctx.rng.normal(size=n) * 10.0 ** (
            ctx.rng.uniform(-2, 2) if ctx.chance(0.6) else
            ctx.rng.uniform(-200, 200))
        keep = np.array(x)
        ctx.close('eigenspace', ctx.call('multiply', mult, x), want @ x,
                  1e-11 * (1 + np.max(np.abs(want))) * np.max(np.abs(x))
                  * n, name)
        ctx.exact('argument-intact', x, keep)
    for j in range(n):
        got = ctx.call('multiply', mult, u[:, j])
        ctx.close('eigenspace', got, (fn(ev)[j] if j < k else 1.0) * u[:, j],
                  1e-11 * (1 + np.max(np.abs(fn(ev)))) * n, 'eigenvector')
    for s in seen:
        ctx.close('eigenspace', s, ev, 0)
    M = 'bad-eigenspace-refused'
    ctx.must_raise(M, ValueError, '1d', transform_eigenspace, vec[:, 0], ev, fn)
    ctx.must_raise(M, ValueError, '2d', transform_eigenspace, vec, ev[:, None],
                   fn)
    ctx.must_raise(M, ValueError, 'length', transform_eigenspace, vec,
                   np.append(ev, 1.0), fn)
    # Differentiable, as it is used inside of objectives.
    x = ctx.rng.normal(size=n) * 10.0 ** ctx.rng.uniform(-2, 2)
    c = ctx.rng.normal(size=n)
    g = ctx.call('grad', autograd.grad(lambda z: anp.sum(c * anp.sin(mult(z)))),
                 x)
    ctx.close('eigenspace', g, want.T @ (c * np.cos(want @ x)),
              1e-9 * n * (1 + np.max(np.abs(want))) ** 2 *
              (1 + np.max(np.abs(x))), 'gradient')
    ctx.sig(n, k, name)


WORKLOADS = [('truncation', 2, truncation), ('given', 2, given_hessian),
             ('integer', 1, integer_hessian), ('diagonal', 1, diagonal),
             ('at-point', 1, at_point), ('moving', 1, moving), ('eigenspace', 2, eigenspace)]
QUICK = 16000
THOROUGH = 120000
