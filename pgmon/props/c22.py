"""Forward-mode derivatives of linear algebra and special functions."""
import autograd
import autograd.numpy as anp
import autograd.scipy.special as asp
import numpy as np
import scipy.special as sps
from autograd.differential_operators import make_jvp

import paragami                                          # noqa: F401
import paragami.autograd_supplement_lib                  # noqa: F401

from ..common import dir_fd

RULE = ('Each supported function at random arguments (single and batched '
        'matrices, vector and matrix right hand sides, one and both arguments '
        'varying, positive and negative arguments of the gamma family, all '
        'shapes), and random programs composed of them: forward mode against '
        'closed forms computed without automatic differentiation, against '
        'reverse mode and against differences, first and second order.  '
        'Distinct by function, shapes and composition.')
REQUIRED = {'closed-form': 400, 'forward-vs-reverse': 400,
            'forward-vs-differences': 300, 'second-order': 200}


def jvp(ctx, name, f, x, v):
    val, d = ctx.call('forward mode ' + name, lambda: make_jvp(f)(x)(v))
    want = np.asarray(f(x), dtype=float)
    # Not exactly: the kernels depend on the alignment of the memory.
    ctx.close('value-unchanged', np.asarray(val, dtype=float), want, 1e-9 * (
        np.max(np.abs(want), initial=0)) + 1e-12, name)
    return np.asarray(d, dtype=float)


def well(ctx, n, batch=()):
    """A well conditioned matrix (or a batch), mostly not symmetric."""
    if ctx.chance(0.2):
        s = ctx.rng.uniform(0.5, 2.0, size=batch + (1, n))
        s = s * ctx.rng.choice([-1.0, 1.0], size=s.shape)
        how = ctx.pick(['diagonal', 'symmetric', 'definite', 'triangular'])
        if how == 'diagonal':
            return np.eye(n) * s
        if how == 'triangular':
            a = np.eye(n) * s + ctx.pick([np.tril, np.triu])(
                ctx.rng.uniform(-0.4, 0.4, size=batch + (n, n)))
            return a + np.eye(n) * np.sign(s)
        u = np.linalg.qr(ctx.rng.normal(size=batch + (n, n)))[0]
        a = (u * (np.abs(s) if how == 'definite' else s)) @ \
            np.swapaxes(u, -1, -2)
        return 0.5 * (a + np.swapaxes(a, -1, -2))
    u = np.linalg.qr(ctx.rng.normal(size=batch + (n, n)))[0]
    w = np.linalg.qr(ctx.rng.normal(size=batch + (n, n)))[0]
    s = ctx.rng.uniform(0.5, 2.0, size=batch + (1, n))
    s = s * ctx.rng.choice([-1.0, 1.0], size=s.shape)   # either determinant
    return (u * s) @ w * 10.0 ** ctx.rint(-2, 2)


def special(ctx):
    """Closed forms of the gamma family, on any shape."""
    shape = ctx.pick([(), (1,), (3,), (2, 3), (2, 1, 2)])
    kind = ctx.rint(0, 2)
    if kind == 0:
        x = ctx.rng.uniform(0.05, 6, size=shape)
    elif kind == 1:                      # away from the poles
        x = -ctx.rng.integers(0, 5, size=shape) - ctx.rng.uniform(
            0.1, 0.9, size=shape)
    else:
        x = 10.0 ** ctx.rng.uniform(-2, 1.9, size=shape) if \
            ctx.chance(0.5) else 10.0 ** ctx.rng.uniform(-8, 9, size=shape)
    x = np.asarray(x) if shape else float(x)
    v = ctx.rng.normal(size=shape) if shape else float(ctx.rng.normal())
    name = ctx.pick(['psi', 'digamma', 'gamma', 'gammaln', 'rgamma',
                     'polygamma', 'gammasgn'])
    if name in ('gamma', 'rgamma') and np.any(x > 80):      # overflow
        name = 'gammaln'
    n = 0
    if name == 'polygamma':
        n = ctx.rint(0, 4)
        if shape and ctx.chance(0.3):           # an order for each entry
            n = ctx.rng.integers(0, 5, size=shape)
        if kind == 1:
            x = np.abs(x)
        f = lambda t: asp.polygamma(n, t)                # noqa: E731
        d = sps.polygamma(n + 1, x)
    else:
        g = getattr(asp, name)
        f = lambda t: g(t)                               # noqa: E731
        d = {'psi': lambda: sps.polygamma(1, x),
             'digamma': lambda: sps.polygamma(1, x),
             'gamma': lambda: sps.gamma(x) * sps.psi(x),
             'gammaln': lambda: sps.psi(x),
             'rgamma': lambda: -sps.psi(x) * sps.rgamma(x),
             'gammasgn': lambda: np.zeros(shape)}[name]()
        if name in ('psi', 'digamma') and kind == 1:
            # polygamma is for positive arguments only: reflect.
            d = -sps.polygamma(1, 1 - x) + np.pi ** 2 / np.sin(
                np.pi * x) ** 2
            if not np.all(np.isclose(d, sps.polygamma(1, x), rtol=1e-9)):
                ctx.log('reflection not available')
                d = sps.polygamma(1, x)
    got = jvp(ctx, name, f, x, v)
    want = d * v
    ctx.close('closed-form', got, want, 1e-11 * np.abs(want) + 1e-300, name,
              x=x, n=n)
    # A program around it, second order.
    if name != 'gammasgn' and kind == 0 and np.ndim(n) == 0:
        h = lambda t: anp.sum(anp.sin(0.1 * f(t)) * t)   # noqa: E731
        xs = np.asarray(x, dtype=float).reshape(-1)
        vs = np.asarray(v, dtype=float).reshape(-1)
        gr = autograd.grad(h)
        fwd = jvp(ctx, name, h, xs, vs)
        rev = np.dot(ctx.call('reverse mode', gr, xs), vs)
        ctx.close('forward-vs-reverse', fwd, rev, 1e-9 * (
            1 + np.sum(np.abs(gr(xs) * vs))), name)
        hv = jvp(ctx, 'gradient of ' + name, gr, xs, vs)
        hr = ctx.call('hessian', autograd.hessian(h), xs)
        ctx.close('second-order', hv, hr @ vs, 1e-8 * (
            1 + np.max(np.abs(hr))) * (1 + np.sum(np.abs(vs))), name)
    ctx.sig(name, kind, shape, np.ndim(n) == 0 and n)


def check_all(ctx, name, f, x, v, second=True, scale=1.0):
    """Forward against reverse and differences; x flat, f scalar or array."""
    d = jvp(ctx, name, f, x, v)
    out = np.asarray(f(x))
    jac = np.asarray(ctx.call('reverse mode', autograd.jacobian(f), x))
    want = jac.reshape(out.shape + (x.size,)) @ v
    tol = 1e-9 * (1e-8 + np.sum(np.abs(jac)) * np.max(np.abs(v)) +
                  np.max(np.abs(out), initial=0))
    ctx.close('forward-vs-reverse', d, want, tol, name)
    num = dir_fd(f, x, v, h=1e-3 * scale)
    ctx.close('forward-vs-differences', d, num, 1e-6 * (
        1e-8 + np.max(np.abs(num), initial=0) + np.max(
            np.abs(out), initial=0) + np.max(np.abs(d), initial=0)), name)
    if second:
        w = ctx.rng.normal(size=out.shape)
        s = lambda t: anp.sum(w * f(t))                  # noqa: E731
        g = autograd.grad(s)
        hv = jvp(ctx, 'gradient of ' + name, g, x, v)
        num = dir_fd(g, x, v, h=1e-3 * scale)
        gg = g(x)
        ctx.close('second-order', hv, num, 2e-6 * (
            1e-8 + np.max(np.abs(num)) + np.max(np.abs(gg)) / scale), name)
        # Forward over forward.
        u = ctx.rng.normal(size=x.size)
        ff = jvp(ctx, 'forward over forward ' + name,
                 lambda t: make_jvp(s)(t)(v)[1], x, u)
        ctx.close('second-order', ff, np.dot(hv, u), 1e-7 * (
            1e-8 + np.sum(np.abs(hv * u)) + np.max(np.abs(gg)) / scale), name)


def linalg_inv(ctx):
    n = ctx.rint(1, 4)
    batch = ctx.pick([(), (), (2,), (3,), (2, 2)])
    a, g = well(ctx, n, batch), ctx.rng.normal(size=batch + (n, n))
    ai = np.linalg.inv(a)
    d = jvp(ctx, 'inv', anp.linalg.inv, a, g)
    want = -ai @ g @ ai
    ctx.close('closed-form', d, want, 1e-11 * (1 + np.max(np.abs(g))) *
              np.max(np.abs(ai)) ** 2 * n * n, 'inverse')
    sc = np.max(np.abs(a))
    check_all(ctx, 'inv', lambda t: anp.linalg.inv(
        anp.reshape(t, a.shape)), a.reshape(-1), g.reshape(-1) * sc,
        second=not batch, scale=0.2)
    ctx.sig('inv', n, batch)


def linalg_solve(ctx):
    n, m = ctx.rint(1, 4), ctx.rint(1, 3)
    batch = ctx.pick([(), (), (2,), (3,)])
    vec = ctx.chance(0.4)
    a, ga = well(ctx, n, batch), ctx.rng.normal(size=batch + (n, n))
    shape = batch + ((n,) if vec else (n, m))
    b, gb = ctx.rng.normal(size=shape), ctx.rng.normal(size=shape)
    ai = np.linalg.inv(a)

    def mul(p, q):
        return (p @ q[..., None])[..., 0] if vec else p @ q
    x = mul(ai, b)
    tol = 1e-11 * n * n * (1 + np.max(np.abs(ga)) * np.max(np.abs(ai))) * \
        (np.max(np.abs(ai)) * (np.max(np.abs(gb)) + np.max(np.abs(b))) +
         np.max(np.abs(x)))
    da = jvp(ctx, 'solve by matrix', lambda t: anp.linalg.solve(t, b), a, ga)
    ctx.close('closed-form', da, -mul(ai, mul(ga, x)), tol, 'solve by matrix')
    db = jvp(ctx, 'solve by right side', lambda t: anp.linalg.solve(a, t), b,
             gb)
    ctx.close('closed-form', db, mul(ai, gb), tol, 'solve by right side')
    if not batch:
        z = np.hstack([a.reshape(-1), b.reshape(-1)])
        v = np.hstack([ga.reshape(-1) * np.max(np.abs(a)), gb.reshape(-1)])
        check_all(ctx, 'solve', lambda t: anp.linalg.solve(
            anp.reshape(t[:n * n], (n, n)), anp.reshape(t[n * n:], shape)),
            z, v, scale=0.2)
    ctx.sig('solve', n, m, batch, vec)


def linalg_slogdet(ctx):
    n = ctx.rint(1, 5)
    a, g = well(ctx, n), ctx.rng.normal(size=(n, n))
    d = jvp(ctx, 'slogdet', lambda t: anp.linalg.slogdet(t)[1], a, g)
    ai = np.linalg.inv(a)
    ctx.close('closed-form', d, np.trace(ai @ g), 1e-11 * n * n *
              np.max(np.abs(ai)) * np.max(np.abs(g)), 'log determinant')
    d0 = jvp(ctx, 'slogdet sign', lambda t: 1.0 * anp.linalg.slogdet(t)[0], a,
             g)
    ctx.close('closed-form', d0, 0.0, 0.0, 'sign')
    check_all(ctx, 'slogdet', lambda t: anp.linalg.slogdet(
        anp.reshape(t, (n, n)))[1], a.reshape(-1),
        g.reshape(-1) * np.max(np.abs(a)), scale=0.2)
    if ctx.chance(0.3):
        bad = well(ctx, n, (2,))
        ctx.must_raise('batched-refused', ValueError, 'slogdet of a batch',
                       lambda: make_jvp(lambda t: anp.linalg.slogdet(t)[1])(
                           bad)(np.ones(bad.shape)))
    ctx.sig('slogdet', n)


def extreme(ctx):
    """Large matrices, and entries far from one: closed forms only."""
    n = ctx.rint(1, 6) if ctx.chance(0.6) else ctx.rint(7, 30)
    s = 10.0 ** (ctx.rng.choice([-1, 1]) * ctx.rng.uniform(0, 100))
    t = 10.0 ** ctx.rng.uniform(-30, 30)
    u, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
    w, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
    a0 = (u * (ctx.rng.uniform(0.5, 2, n) * ctx.rng.choice([-1, 1], n))) @ w
    a, g = a0 * s, ctx.rng.normal(size=(n, n))
    ai = np.linalg.inv(a0)              # of a up to 1 / s
    e = 1e-12 * (n + 3) ** 2
    batch = ctx.chance(0.3)
    name = ctx.pick(['inv', 'solve', 'slogdet'])
    if name == 'inv':
        f, x, v = anp.linalg.inv, a, g * s
        want = -ai @ g @ ai / s
        size = 1 / s
    elif name == 'solve':
        b = ctx.rng.normal(size=(n, ctx.rint(1, 3)))
        if ctx.chance(0.5):
            f, x, v = lambda y: anp.linalg.solve(y, b * t), a, g * s
            want = -ai @ g @ ai @ b * (t / s)
        else:
            f, x, v = lambda y: anp.linalg.solve(a, y), b * t, b[::-1] * t
            want = ai @ b[::-1] * (t / s)
        size = t / s
        batch = False
    else:
        f, x, v = lambda y: anp.linalg.slogdet(y)[1], a, g * s
        want = np.trace(ai @ g)
        size = 1.0
        batch = False
    if batch:
        x, v, want = (np.stack([m, 2 * m if i < 2 else m / 2])
                      for i, m in enumerate((x, v, want)))
    val, d = ctx.call('forward mode ' + name, lambda: make_jvp(f)(x)(v))
    ctx.close('closed-form', d, want, e * size * 10, name + ' of extremes',
              n=n, scale=s)
    ctx.sig('extreme', name, n, batch, round(np.log10(s)))


def program(ctx):
    """Random programs using several of them."""
    n = ctx.rint(2, 4)
    base = well(ctx, n)
    base = base / np.max(np.abs(base)) + 2 * np.eye(n)
    mats = ctx.rng.normal(size=(n, n, n)) * 0.15
    c = ctx.rng.normal(size=n)
    steps = [ctx.pick(['inv', 'solve', 'slogdet', 'gammaln', 'psi', 'poly',
                       'gamma', 'rgamma', 'lin'])
             for _ in range(ctx.rint(2, 5))]

    def mat(t):
        m = base + 0
        for i in range(n):
            m = m + mats[i] * anp.tanh(t[i])
        return m

    sizes = []

    def f(t):
        y = t
        for s in steps:
            if type(y) is np.ndarray:
                sizes.append(np.max(np.abs(y)))
            pos = 0.5 + anp.log(1 + anp.exp(y))
            if s == 'inv':
                y = anp.dot(anp.linalg.inv(mat(y)), y + c)
            elif s == 'solve':
                y = anp.linalg.solve(mat(y).T, c) + 0.5 * y
            elif s == 'slogdet':
                y = y * anp.cos(anp.linalg.slogdet(mat(y))[1]) + c
            elif s == 'gammaln':
                y = 0.3 * asp.gammaln(pos) + y
            elif s == 'psi':
                y = asp.psi(pos) + asp.digamma(pos + 1) * c
            elif s == 'poly':
                y = anp.tanh(asp.polygamma(1, pos)) + 0.2 * y
            elif s == 'gamma':
                u = 0.2 * asp.gamma(pos)
                y = u / (1 + u * u) + 0.2 * y
            elif s == 'rgamma':
                y = asp.rgamma(pos) + y
            else:
                y = anp.dot(base, y) * 0.3 + anp.sin(y)
        return y
    x, v = ctx.rng.normal(size=n), ctx.rng.normal(size=n)
    # Beyond this, autograd's own derivative of tanh overflows.
    if not np.all(np.isfinite(f(x))) or not max(sizes) < 7 or np.max(np.abs(autograd.jacobian(f)(
            x))) > 1e3:
        ctx.log('skipped: ill conditioned')
        return
    d = jvp(ctx, 'program', f, x, v)
    jac = ctx.call('reverse mode', autograd.jacobian(f), x)
    ctx.close('forward-vs-reverse', d, jac @ v, 1e-8 * (
        1 + np.sum(np.abs(jac)) * np.max(np.abs(v))), 'program')
    s = lambda t: anp.sum(f(t) * c)                      # noqa: E731
    # Reverse mode is not the package's, it tells whether this is regular.
    H = ctx.call('hessian', autograd.hessian(s), x)
    if not np.all(np.isfinite(H)):
        ctx.log('skipped: second derivatives overflow')
        return
    hv = jvp(ctx, 'gradient of program', autograd.grad(s), x, v)
    ctx.close('second-order', hv, H @ v, 1e-7 * (
        1 + np.sum(np.abs(H)) * np.max(np.abs(v))), 'program')
    ctx.sig('program', n, steps)


WORKLOADS = [('special', 3, special), ('inv', 2, linalg_inv),
             ('solve', 2, linalg_solve), ('slogdet', 2, linalg_slogdet),
             ('program', 2, program), ('extreme', 1, extreme)]
QUICK = 24000
THOROUGH = 60000
