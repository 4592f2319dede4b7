"""Grouped sums and index replacement, with their derivatives."""
import autograd
import autograd.numpy as anp
import numpy as np
from autograd.differential_operators import make_jvp

import paragami                                          # noqa: F401
from paragami.autograd_supplement_lib import grouped_sum, replace

from ..common import snapshot

RULE = ('Random arrays of any dimension with random group assignments '
        '(unsorted, groups without members, a single group, more groups than '
        'used) and random replacements; values against a direct sum per group '
        'or element by element, derivatives of both orders in both modes '
        'against the linear map they are.  Distinct by shapes, groups and '
        'indices.')
REQUIRED = {'grouped-value': 400, 'grouped-derivative': 400,
            'replace-value': 400, 'replace-derivative': 400, 'refused': 300}


def second(ctx, mon, f, lin, adj, x, tol):
    """Derivatives of programs around the linear map f (adjoint adj)."""
    g = ctx.rng.normal(size=x.shape)
    val, d = ctx.call('forward mode', lambda: make_jvp(f)(x)(g))
    ctx.close(mon, d, lin(g), tol * (1 + np.max(np.abs(g))), 'forward mode')
    y = f(x)
    w = ctx.rng.normal(size=y.shape)
    ctx.close(mon, ctx.call('reverse mode', autograd.grad(
        lambda t: anp.sum(w * f(t))), x), adj(w),
        tol * (1 + np.max(np.abs(w), initial=0)), 'reverse mode')
    h = lambda t: anp.sum(w * anp.sin(f(t)))             # noqa: E731
    ctx.close(mon, ctx.call('grad', autograd.grad(h), x), adj(w * np.cos(y)),
              tol * 10, 'gradient of a program')
    hv = adj(-w * np.sin(y) * lin(g))
    for how, op in (
            ('forward over reverse', lambda: make_jvp(autograd.grad(h))(x)(g)[1]),
            ('reverse over reverse', lambda: autograd.grad(
                lambda t: anp.sum(autograd.grad(h)(t) * g))(x)),
            ('reverse over forward', lambda: autograd.grad(
                lambda t: make_jvp(h)(t)(g)[1])(x))):
        ctx.close(mon, ctx.call(how, op), hv, tol * 100, how)


def grouped(ctx):
    n = ctx.rint(1, 9)
    tail = ctx.pick([(), (), (2,), (3,), (2, 2), (1, 3, 2)])
    x = ctx.rng.normal(size=(n,) + tail) * 10.0 ** ctx.rint(-2, 2)
    top = ctx.rint(1, 6)
    if ctx.chance(0.25):       # more of them; few members, wide gaps
        n = ctx.rint(9, 40)
        x = ctx.rng.normal(size=(n,) + tail) * 10.0 ** ctx.rint(-2, 2)
        top = ctx.pick([3, n, 3 * n, 120])
        if ctx.chance(0.1):
            n = int(10 ** ctx.rng.uniform(1.5, 3.5))
            tail = ctx.pick([(), (2,)])
            x = ctx.rng.normal(size=(n,) + tail)
            top = ctx.pick([5, 100, n, 2000, 40000])
    groups = ctx.rng.integers(0, top, size=n)
    if ctx.chance(0.2):
        groups = np.sort(groups)
    if ctx.chance(0.15):
        groups = np.zeros(n, dtype=int)
    if ctx.chance(0.15):
        groups[:] = ctx.rng.permutation(max(top, n))[:n]
    most = int(np.max(groups)) + 1
    kw, count = {}, most
    k = ctx.rint(0, 3)
    if k == 1:
        count = most + ctx.rint(0, 3)
        kw['num_groups'] = count
    elif k == 2:
        kw['num_groups'] = None
    gform = ctx.pick(['array', 'array', 'list', 'int32', 'tuple', 'int8',
                      'uint8', 'uint64', 'readonly', 'strided'])
    if top > 120 and '8' in gform or n > 120:
        gform = ctx.pick(['array', 'int32', 'readonly', 'list'])
    gs = {'array': groups, 'list': [int(g) for g in groups],
          'int32': groups.astype('int32'), 'int8': groups.astype('int8'),
          'uint8': groups.astype('uint8'), 'uint64': groups.astype('uint64'),
          'readonly': np.array(groups), 'strided': np.repeat(groups, 2)[::2],
          'tuple': tuple(int(g) for g in groups)}[gform]
    direct = gform in ('list', 'tuple')
    if gform == 'readonly':
        gs.flags.writeable = False

    def lin(v):
        if count > 150:
            out = np.zeros((count,) + tail)
            np.add.at(out, groups, v)
            return out
        return np.stack([np.sum(v[groups == g], axis=0)
                         if np.any(groups == g) else np.zeros(tail)
                         for g in range(count)])

    def adj(w):
        return w[groups]
    if ctx.chance(0.2):        # groups, or entries, of very different size
        s = 10.0 ** ctx.rng.uniform(-20, 20, count)
        x = x * s[groups].reshape((-1,) + (1,) * len(tail)) * (
            10.0 ** ctx.rng.integers(-3, 4, x.shape) if ctx.chance(0.3) else 1)
    before = snapshot(x), snapshot(gs)
    # As accurate as each group by itself.
    tol = 1e-13 * (n + 10) * lin(np.abs(x))
    got = ctx.call('grouped_sum', grouped_sum, x, gs, **kw)
    ctx.close('grouped-value', got, lin(x), tol, 'sums')
    if ctx.chance(0.25):
        xi = ctx.rng.integers(-5, 6, size=x.shape)
        xi = ctx.pick([xi, xi * 25, abs(xi), xi > 0]).astype(ctx.pick(
            ['int64', 'int32', 'int8', 'bool', 'int16', 'float32']))
        ctx.exact('grouped-value', ctx.call('grouped_sum', grouped_sum, xi, gs,
                                            **kw),
                  lin(xi.astype(float)), 'of type {}'.format(xi.dtype))
    if np.max(np.abs(x)) < 1e3 and not direct:
        second(ctx, 'grouped-derivative', lambda t: grouped_sum(t, gs, **kw),
               lin, adj, x, 1e-11 * n * (1 + np.max(np.abs(x))))
    else:
        v = ctx.rng.normal(size=x.shape)
        ctx.close('grouped-derivative', ctx.call('forward mode', lambda: make_jvp(
            lambda t: grouped_sum(t, gs, **kw))(x)(v)[1]), lin(v),
            1e-12 * n * (1 + np.max(np.abs(v))), 'forward mode')
    ctx.check('grouped-value', (snapshot(x), snapshot(gs)) == before,
              'the arguments were changed')
    ctx.sig('grouped', n, tail, tuple(int(g) for g in groups[:50]), k, gform)


def grouped_refused(ctx):
    n = ctx.rint(1, 6)
    tail = ctx.pick([(), (2,)])
    x = ctx.rng.normal(size=(n,) + tail)
    groups = ctx.rng.integers(0, 4, size=n)
    top = int(np.max(groups))
    k = ctx.rint(0, 4)
    if k == 0:
        ctx.must_raise('refused', ValueError, 'grouped_sum', grouped_sum, x,
                       groups[:, None])
    elif k == 1:
        longer = np.hstack([groups, [0] * ctx.rint(1, 2)])
        ctx.must_raise('refused', ValueError, 'grouped_sum', grouped_sum, x,
                       longer)
    elif k == 2:
        ctx.must_raise('refused', ValueError, 'grouped_sum', grouped_sum,
                       ctx.rng.normal(size=(n + ctx.rint(1, 2),) + tail),
                       groups)
    elif k == 3:
        ctx.must_raise('refused', ValueError, 'grouped_sum', grouped_sum, x,
                       groups, num_groups=max(1, top) if top else 0)
    else:
        ctx.must_raise('refused', ValueError, 'grouped_sum under grad',
                       autograd.grad(lambda t: anp.sum(grouped_sum(
                           t, groups, num_groups=top))), x)
    ctx.sig('refused', k, n, tail, top)


def replaced(ctx):
    n = ctx.rint(1, 9) if ctx.chance(0.98) else ctx.rint(10, 150)
    x = ctx.rng.normal(size=n)
    m = ctx.rint(0, n) if ctx.chance(0.2) else ctx.rint(1, n)
    inds = ctx.rng.permutation(n)[:m]
    kind = ctx.pick(['array', 'array', 'list', 'mask', 'negative'])
    if kind == 'mask':
        ii = np.zeros(n, dtype=bool)
        ii[inds] = True
        inds = np.flatnonzero(ii)
    elif kind == 'list':
        ii = [int(i) for i in inds]
    elif kind == 'negative':
        ii = np.array([i - n if ctx.chance(0.5) else i for i in inds],
                      dtype=int)
    else:
        ii = inds
    if m == 0 and kind == 'list':
        ii = inds
    sub = ctx.rng.normal(size=m)
    want = np.array(x)
    for i, s in zip(inds, sub):
        want[i] = s
    before = snapshot(x), snapshot(sub), snapshot(ii)
    got = ctx.call('replace', replace, sub, x, ii)
    ctx.exact('replace-value', got, want, 'replaced')
    ctx.check('replace-value', not np.shares_memory(got, x), 'not a copy')
    if ctx.chance(0.2):
        xi = ctx.rng.integers(-9, 9, size=n).astype(ctx.pick(
            ['int64', 'int8', 'bool', 'float32']))
        wi = xi.astype(float)
        wi[inds] = sub
        ctx.exact('replace-value', ctx.call('replace', replace, sub, xi, ii),
                  wi, 'into integers')
    tol = 1e-13 * (10 + np.max(np.abs(x)))

    def into(v):
        r = np.zeros(n)
        r[inds] = v
        return r

    def keep(v):
        r = np.array(v)
        r[inds] = 0
        return r
    # With respect to the rest; the values in between are constant.
    base = np.array(want)

    def wrt_x(t):
        return replace(sub, t, ii)
    y = base
    g, w = ctx.rng.normal(size=n), ctx.rng.normal(size=n)
    t1 = tol * (10 + np.max(np.abs(g)) + np.max(np.abs(w)))
    ctx.close('replace-derivative', ctx.call('forward mode', lambda: make_jvp(
        wrt_x)(x)(g)[1]), keep(g), t1, 'forward mode, x')
    ctx.close('replace-derivative', ctx.call('reverse mode', autograd.grad(
        lambda t: anp.sum(w * wrt_x(t))), x), keep(w), t1, 'reverse mode, x')
    h = lambda t: anp.sum(w * anp.sin(wrt_x(t)))         # noqa: E731
    hv = keep(-w * np.sin(y) * keep(g))
    ctx.close('replace-derivative', ctx.call('forward over reverse', lambda:
              make_jvp(autograd.grad(h))(x)(g)[1]), hv, t1, 'second order, x')
    ctx.close('replace-derivative', ctx.call('hessian', autograd.hessian(h),
                                             x) @ g, hv, t1, 'Hessian, x')
    if m:
        gs = ctx.rng.normal(size=m)
        f = lambda s: replace(s, x, ii)                  # noqa: E731
        ctx.close('replace-derivative', ctx.call('forward mode', lambda:
                  make_jvp(f)(sub)(gs)[1]), into(gs), t1 * 10,
                  'forward mode, replacement')
        ctx.close('replace-derivative', ctx.call('reverse mode', autograd.grad(
            lambda s: anp.sum(w * f(s))), sub), w[inds], t1,
            'reverse mode, replacement')
        hs = lambda s: anp.sum(w * anp.sin(f(s)))        # noqa: E731
        ctx.close('replace-derivative', ctx.call('hessian', autograd.hessian(
            hs), sub), np.diag(-w[inds] * np.sin(sub)), t1 * 10,
            'Hessian, replacement')
        # Both at once.
        both = lambda z: anp.sum(w * anp.sin(replace(    # noqa: E731
            z[:m] ** 2, z[m:], ii)))
        z = np.hstack([sub, x])
        wb = np.hstack([w[inds] * np.cos(sub ** 2) * 2 * sub,
                        keep(w * np.cos(x))])
        ctx.close('replace-derivative', ctx.call('gradient', autograd.grad(
            both), z), wb, 1e-11 * (1 + np.max(np.abs(wb))), 'both arguments')
        d = ctx.rng.normal(size=z.size)
        ctx.close('replace-derivative', ctx.call('forward mode', lambda:
                  make_jvp(both)(z)(d)[1]), wb @ d, 1e-11 * z.size * (
                      1 + np.max(np.abs(wb))) * (1 + np.max(np.abs(d))),
                  'both arguments, forward')
    ctx.check('replace-value', (snapshot(x), snapshot(sub), snapshot(ii)) ==
              before, 'the arguments were changed')
    ctx.sig('replace', n, kind, tuple(int(i) for i in inds))


def mixture(ctx):
    """A program of grouped sums and replacements, as in a mixed model."""
    n, k = ctx.rint(3, 10), ctx.rint(1, 4)
    groups = ctx.rng.integers(0, k, size=n)
    y = ctx.rng.normal(size=n)
    inds = ctx.rng.permutation(n)[:ctx.rint(1, n)]
    onehot = (groups[None, :] == np.arange(k)[:, None]) * 1.0
    sel = np.zeros((n, n))
    sel[inds, inds] = 1

    def f(x):
        r = replace(anp.exp(0.3 * x[inds]), x * y, inds)
        s = grouped_sum(r, groups, num_groups=k)
        t = grouped_sum(anp.outer(r, x[:2]), groups, num_groups=k)
        return anp.sum(anp.sin(s)) + anp.sum(t ** 2)

    def ref(x):
        r = anp.dot(sel, anp.exp(0.3 * x)) + anp.dot(np.eye(n) - sel, x * y)
        s = anp.dot(onehot, r)
        t = anp.dot(onehot, anp.outer(r, x[:2]))
        return anp.sum(anp.sin(s)) + anp.sum(t ** 2)
    x, v = ctx.rng.normal(size=n), ctx.rng.normal(size=n)
    g, H = autograd.grad(ref)(x), autograd.hessian(ref)(x)
    sc = 1e-9 * (1 + np.sum(np.abs(H)) + np.sum(np.abs(g)) + abs(ref(x)))
    ctx.close('program', ctx.call('program', f, x), ref(x), sc, 'value')
    ctx.close('program', ctx.call('grad', autograd.grad(f), x), g, sc, 'grad')
    ctx.close('program', ctx.call('hessian', autograd.hessian(f), x), H, sc,
              'Hessian')
    ctx.close('program', ctx.call('forward', lambda: make_jvp(f)(x)(v)[1]),
              g @ v, sc * (1 + np.sum(np.abs(v))), 'forward mode')
    ctx.close('program', ctx.call('forward over reverse', lambda: make_jvp(
        autograd.grad(f))(x)(v)[1]), H @ v, sc * (1 + np.sum(np.abs(v))),
        'forward over reverse')
    ctx.sig('program', n, k, tuple(inds.tolist()), tuple(groups.tolist()))


WORKLOADS = [('grouped', 3, grouped), ('replace', 3, replaced),
             ('refused', 2, grouped_refused), ('mixture', 2, mixture)]
QUICK = 24000
THOROUGH = 120000
