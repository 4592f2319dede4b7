"""Sparse products and differentiable solvers."""
import autograd
import autograd.numpy as anp
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spla
from autograd.differential_operators import make_jvp

import paragami
from paragami.autograd_supplement_lib import (
    get_differentiable_solver, get_sparse_product)

from ..common import snapshot

RULE = ('Random dense and sparse matrices (all formats, rectangular, empty '
        'rows and columns, integer entries) and random solvers, applied to '
        'vectors and matrices; values, forward and reverse derivatives of '
        'first and second order of the products and solves and of random '
        'programs of several of them against dense linear algebra.  Distinct '
        'by format, shapes and composition.')
REQUIRED = {'product': 400, 'product-derivative': 400, 'solve': 200,
            'solve-derivative': 200, 'program': 200}

def untidy(z):
    """Stored with explicit zeros and entries in several parts."""
    i, j = np.indices(z.shape).reshape(2, -1)
    i, j = np.hstack([i, i[::-1]]), np.hstack([j, j[::-1]])
    v = z.reshape(-1)
    return sp.coo_matrix((np.hstack([v / 2, v[::-1] / 2]), (i, j)),
                         shape=z.shape)


def unsorted(z):
    m = untidy(z).tocsr()
    m.sum_duplicates()
    for k in range(m.shape[0]):
        s = slice(m.indptr[k], m.indptr[k + 1])
        m.indices[s] = m.indices[s][::-1]
        m.data[s] = m.data[s][::-1]
    m.has_sorted_indices = False
    return m


def typed(z):
    """With as small a type as holds the entries."""
    for t in (np.int8, np.int32, np.float32):
        with np.errstate(all='ignore'):
            if np.array_equal(z.astype(t), z):
                return sp.csc_matrix(z.astype(t))
    return sp.csc_matrix(z)


FORMATS = {'untidy': untidy, 'unsorted': unsorted, 'typed': typed,
           'csc': sp.csc_matrix, 'csr': sp.csr_matrix, 'coo': sp.coo_matrix,
           'bsr': sp.bsr_matrix, 'dia': sp.dia_matrix, 'lil': sp.lil_matrix,
           'dok': sp.dok_matrix, 'csc_array': sp.csc_array,
           'csr_array': sp.csr_array, 'dense': np.array,
           'fortran': np.asfortranarray}


def rect(ctx, n, m):
    z = ctx.rng.normal(size=(n, m)) * (ctx.rng.random((n, m)) < ctx.pick(
        [0.2, 0.5, 1.0]))
    if ctx.chance(0.2):
        z = np.round(3 * z)
    if ctx.chance(0.2):
        # No entry is negligible next to what it may be multiplied with.
        return z * 10.0 ** ctx.rint(-60, 60)
    if ctx.chance(0.15):
        # Rows of very different size.
        return z * 10.0 ** ctx.rng.integers(-25, 3, size=(n, 1))
    return z * 10.0 ** ctx.rint(-2, 2)


def arg(ctx, rows):
    b = ctx.rng.normal(size=rows) if ctx.chance(0.5) else \
        ctx.rng.normal(size=(rows, ctx.pick([1, 2, 3, rows])))
    if ctx.chance(0.1):
        # Derivatives do not depend on the point, which may have zeros.
        b = b * (ctx.rng.random(b.shape) < ctx.pick([0.0, 0.5]))
    return b


def linear(ctx, kind, f, dense, b):
    """f is the linear map b -> dense @ b in every respect."""
    s = np.max(np.abs(dense), initial=0)

    def size(m, v):
        # Products are accurate row by row, solutions as a whole.
        e = 1e-12 * max(dense.shape) * (10 + np.max(np.abs(v)))
        if kind == 'solve':
            return e * s
        r = e * np.max(np.abs(m), axis=1, initial=0)
        return r if b.ndim == 1 else r[:, None]
    t = size(dense, b)
    before = snapshot(b)
    ctx.close(kind, ctx.call(kind, f, b), dense @ b, t, 'value')
    if kind == 'product' and ctx.chance(0.3):
        bi = np.round(3 * b).astype(ctx.pick(['int64', 'int32']))
        ctx.close(kind, ctx.call(kind, f, bi), dense @ bi.astype(float),
                  size(dense, bi),
                  'argument of type {}'.format(bi.dtype))
    if kind == 'product' and ctx.chance(0.2):
        bi = ctx.rng.normal(size=b.shape)
        got = ctx.call(kind, f, b + 1j * bi)
        ctx.check(kind, np.iscomplexobj(got), 'a complex product is real')
        ctx.close(kind, np.real(got), dense @ b, t, 'real part')
        ctx.close(kind, np.imag(got), dense @ bi, size(dense, bi),
                  'imaginary part')
    # A buffer which the caller fills again.
    buf = np.array(b)
    ctx.call(kind, f, buf)
    buf[...] = np.roll(b, 1, axis=0)
    ctx.close(kind, ctx.call(kind, f, buf), dense @ buf, t, 'buffer')
    g = ctx.rng.normal(size=b.shape)
    tg = size(dense, g)
    val, d = ctx.call('forward mode ' + kind, lambda: make_jvp(f)(b)(g))
    ctx.close(kind, val, dense @ b, t, 'value under forward mode')
    ctx.close(kind + '-derivative', d, dense @ g, tg, 'forward mode')
    w = ctx.rng.normal(size=(dense.shape[0],) + b.shape[1:])
    r = ctx.call('reverse mode ' + kind, autograd.grad(
        lambda x: anp.sum(w * f(x))), b)
    ctx.close(kind + '-derivative', r, dense.T @ w,
              size(dense.T, w), 'reverse mode')
    # Second order, through something that is not linear.
    h = lambda x: anp.sum(w * anp.sin(f(x)))             # noqa: E731
    y = dense @ b
    gr = dense.T @ (w * np.cos(y))
    hv = dense.T @ (-w * np.sin(y) * (dense @ g))
    sc = 1e-11 * (1 + s) ** 3 * dense.size * (1 + np.max(np.abs(w))) * \
        (1 + np.max(np.abs(g))) * (1 + np.max(np.abs(b)))
    ctx.close(kind + '-derivative', ctx.call('grad', autograd.grad(h), b), gr,
              sc, 'gradient of a program')
    for how, op in (
            ('forward over reverse', lambda: make_jvp(autograd.grad(h))(b)(g)[1]),
            ('reverse over reverse', lambda: autograd.grad(
                lambda x: anp.sum(autograd.grad(h)(x) * g))(b)),
            ('reverse over forward', lambda: autograd.grad(
                lambda x: make_jvp(h)(x)(g)[1])(b))):
        ctx.close(kind + '-derivative', ctx.call(how, op), hv, sc, how)
    ctx.check(kind, snapshot(b) == before, 'the argument was changed')


def product(ctx):
    n, m = ctx.rint(1, 7), ctx.rint(1, 7)
    if ctx.chance(0.03):
        n, m = ctx.rint(8, 60), ctx.rint(8, 60)
    z = rect(ctx, n, m)
    fmt = ctx.pick(sorted(FORMATS))
    mat = FORMATS[fmt](z)
    mult, tmult = ctx.call('get_sparse_product', get_sparse_product, mat)
    # A second product must not disturb the first.
    z2 = rect(ctx, m, n)
    mult2, _ = get_sparse_product(sp.csr_matrix(z2))
    linear(ctx, 'product', mult, z, arg(ctx, m))
    linear(ctx, 'product', tmult, z.T, arg(ctx, n))
    b = ctx.rng.normal(size=m)
    want = z2 @ (z @ b)
    ctx.close('product', ctx.call('composed', lambda x: mult2(mult(x)), b),
              want, 1e-11 * (1 + np.sum(np.abs(z)) * np.sum(np.abs(z2))) *
              (1 + np.max(np.abs(b))), 'two products composed')
    jac = ctx.call('jacobian', autograd.jacobian(lambda x: tmult(mult(x))), b)
    ctx.close('product-derivative', jac, z.T @ z, 1e-11 * (
        1 + np.sum(np.abs(z)) ** 2), 'Jacobian of Z^T Z b')
    ctx.sig('product', fmt, n, m, int(np.sum(z != 0)))


def refused(ctx):
    n, m = ctx.rint(1, 4), ctx.rint(1, 4)
    z = rect(ctx, n, m)
    bad = ctx.rng.normal(size=ctx.pick([(), (n,), (n, m, 2), (1, n, m)]))
    ctx.must_raise('refused', ValueError, 'get_sparse_product',
                   get_sparse_product, bad)
    fmt = ctx.pick(sorted(FORMATS))
    mult, tmult = get_sparse_product(FORMATS[fmt](z))
    for f, rows in ((mult, m), (tmult, n)):
        ctx.must_raise('refused', ValueError, 'product', f, ctx.rng.normal(
            size=(ctx.pick([1, 2]), rows, ctx.rint(1, 2))))
        ctx.must_raise('refused', ValueError, 'product', f, ctx.rng.normal(
            size=rows + ctx.rint(1, 2)))
    ctx.sig('refused', bad.shape, fmt, n, m)


def system(ctx, n):
    a = rect(ctx, n, n)
    a = a / max(1.0, np.sum(np.abs(a))) * 0.5
    d = ctx.rng.choice([-1, 1], n) * ctx.rng.uniform(0.7, 2, n)
    p = ctx.rng.permutation(n)
    return (a + np.diag(d))[p]


def solver(ctx, a):
    kind = ctx.pick(['factorized', 'splu', 'dense', 'spsolve'])
    s = sp.csc_matrix(a)
    if kind == 'factorized':
        return kind, spla.factorized(s), spla.factorized(sp.csc_matrix(a.T))
    if kind == 'splu':
        lu = spla.splu(s)
        return kind, lu.solve, lambda b: lu.solve(b, 'T')
    if kind == 'spsolve':
        return kind, lambda b: spla.spsolve(s, b), \
            lambda b: spla.spsolve(sp.csc_matrix(s.T), b)
    return kind, lambda b: np.linalg.solve(a, b), \
        lambda b: np.linalg.solve(a.T, b)


def solve(ctx):
    n = ctx.rint(1, 6) if ctx.chance(0.97) else ctx.rint(7, 60)
    a = system(ctx, n)
    ai = np.linalg.inv(a)
    kind, s, st = solver(ctx, a)
    sad, stad = ctx.call('get_differentiable_solver',
                         get_differentiable_solver, s, st)
    b = ctx.rng.normal(size=n)
    if ctx.chance(0.1):
        b = b * (ctx.rng.random(n) < ctx.pick([0.0, 0.5]))
    linear(ctx, 'solve', sad, ai, b)
    linear(ctx, 'solve', stad, ai.T, ctx.rng.normal(size=n) *
           (0.0 if ctx.chance(0.05) else 1.0))
    if kind in ('dense', 'splu') and ctx.chance(0.6):
        # Several right sides at once, where the solver takes them.
        for f, d in ((sad, ai), (stad, ai.T)):
            linear(ctx, 'solve', f, d, ctx.rng.normal(
                size=(n, ctx.pick([1, 2, n, n + 1]))))
    jac = ctx.call('jacobian', autograd.jacobian(lambda x: stad(sad(x))), b)
    ctx.close('solve-derivative', jac, ai.T @ ai, 1e-10 * (
        1 + np.sum(ai ** 2)), 'Jacobian of composed solves')
    ctx.sig('solve', kind, n, int(np.sum(a != 0)))


def program(ctx):
    """Products and solves of several matrices in one program."""
    n = ctx.rint(2, 5)
    ops, dense, names = [], [], []
    for _ in range(ctx.rint(2, 5)):
        k = ctx.pick(['mult', 'tmult', 'solve', 'tsolve', 'sin'])
        names.append(k)
        if k in ('mult', 'tmult'):
            z = rect(ctx, n, n)
            z = z / max(1.0, np.max(np.abs(z)))
            fs = get_sparse_product(FORMATS[ctx.pick(sorted(FORMATS))](z))
            ops.append(fs[k == 'tmult'])
            dense.append(z if k == 'mult' else z.T)
        elif k in ('solve', 'tsolve'):
            a = system(ctx, n)
            fs = get_differentiable_solver(*solver(ctx, a)[1:])
            ops.append(fs[k == 'tsolve'])
            ai = np.linalg.inv(a)
            dense.append(ai if k == 'solve' else ai.T)
        else:
            ops.append(anp.sin)
            dense.append(None)

    def f(x):
        for op in ops:
            x = op(x) + 0.1 * anp.cos(x)
        return x

    def ref(x):
        for d in dense:
            x = (anp.sin(x) if d is None else anp.dot(d, x)) + 0.1 * anp.cos(x)
        return x
    x, v, w = (ctx.rng.normal(size=n) for _ in range(3))
    J = autograd.jacobian(ref)(x)
    sc = 1 + np.sum(np.abs(J)) * 10 + np.max(np.abs(ref(x)))
    ctx.close('program', ctx.call('program', f, x), ref(x), 1e-10 * sc, 'value')
    ctx.close('program', ctx.call('jacobian', autograd.jacobian(f), x), J,
              1e-10 * sc, 'reverse mode')
    ctx.close('program', ctx.call('forward mode', lambda: make_jvp(f)(x)(v)[1]),
              J @ v, 1e-10 * sc * (1 + np.max(np.abs(v))), 'forward mode')
    s, r = (lambda t: anp.sum(w * f(t))), (lambda t: anp.sum(w * ref(t)))
    H = autograd.hessian(r)(x)
    hs = 1 + np.sum(np.abs(H)) + sc ** 2
    ctx.close('program', ctx.call('hessian', autograd.hessian(s), x), H,
              1e-9 * hs, 'Hessian')
    ctx.close('program', ctx.call('forward over reverse', lambda: make_jvp(
        autograd.grad(s))(x)(v)[1]), H @ v, 1e-9 * hs * (1 + np.max(np.abs(v))),
        'forward over reverse')
    ctx.sig('program', n, names)


WORKLOADS = [('product', 3, product), ('solve', 2, solve),
             ('program', 2, program), ('refused', 1, refused)]
QUICK = 15000
THOROUGH = 100000
