"""Automatic differentiation through patterns gives the true derivatives."""
import autograd
import autograd.numpy as anp
import numpy as np
from autograd.differential_operators import make_hvp, make_jvp

import paragami
from .. import specs
from ..common import dense, dir_fd
from ..specs import Arr, Dict, Num, PSD, Simplex

RULE = ('Smooth scalar functions of folded values (through fold, flatten and '
        'their compositions, bare and wrapped as functions of flat arguments) '
        'for random pattern trees: gradients, Hessians, Hessian-vector products '
        'and forward-mode derivatives against fourth-order finite differences '
        'of the value and of the gradient, and against each other.  Distinct '
        'by structure, route and order.')
REQUIRED = {'gradient-fd': 300, 'second-order-fd': 200, 'forward-is-reverse': 200}


def tree(v):
    if hasattr(v, 'keys'):
        return anp.hstack([tree(v[k]) for k in v.keys()] or [anp.zeros(0)])
    return anp.reshape(v, (-1,))


def scales(spec, pat, x, free):
    """Typical size and variation of each folded entry near x."""
    v = specs.flat_of(spec, pat.fold(x, free=free, validate_value=False))
    s = 1 + np.abs(v)
    if free:
        for h in (0.5, -0.5):
            s = s + np.abs(spec.ref_flat(pat.fold(x + h, free=True)) - v)
    return s


def noise(spec, x):
    """How much rounding near bounds blurs free values (per entry)."""
    t = spec.free_tol(x)
    return np.where(np.isfinite(t), t, 1.0)


def derivatives(ctx, route, fun, x, slack, forward=True, h=2e-3):
    d, e = ctx.rng.normal(size=x.size), ctx.rng.normal(size=x.size)
    d, e = d / np.linalg.norm(d), e / np.linalg.norm(e)
    g = ctx.call('grad ' + route, autograd.grad(fun), x)
    ctx.check('gradient-form', np.shape(g) == x.shape, 'shape of the gradient')
    sc = 1 + np.linalg.norm(g)
    fd = ctx.call('differences', dir_fd, fun, x, d, h)
    ctx.close('gradient-fd', g @ d, fd, 1e-6 * sc + slack, route, x=x, d=d)
    hv = ctx.call('hvp ' + route, autograd.hessian_vector_product(fun), x, e)
    hf = ctx.call('differences of grad', dir_fd, autograd.grad(fun), x, e, h)
    sc2 = sc + np.linalg.norm(hv)
    ctx.close('second-order-fd', hv, hf, 1e-5 * sc2 + slack, route, x=x)
    if x.size <= 12:
        H = ctx.call('hessian ' + route, autograd.hessian(fun), x)
        ctx.close('hessian-consistent', H, H.T, 1e-7 * (sc2 + np.max(np.abs(H))),
                  'symmetry')
        ctx.close('hessian-consistent', H @ e, hv,
                  1e-7 * (sc2 + np.max(np.abs(H))), route)
    if forward:
        _, jv = ctx.call('jvp ' + route, lambda: make_jvp(fun)(x)(d))
        ctx.close('forward-is-reverse', jv, g @ d, 1e-9 * sc, route, x=x, d=d)
        _, hj = ctx.call('jvp of grad ' + route,
                         lambda: make_jvp(autograd.grad(fun))(x)(e))
        ctx.close('forward-is-reverse', hj, hv, 1e-8 * sc2, route)


def route_funs(ctx, spec, pat, x):
    w = ctx.rng.normal(size=spec.flat_len)
    s = scales(spec, pat, x, True)
    v = spec.ref_flat(pat.fold(x, free=True))
    wf = ctx.rng.normal(size=spec.free_len)
    has_psd = any(isinstance(t, PSD) for t in spec.walk())
    nz = np.sum(np.abs(wf) * noise(spec, x)) * 1e4

    yield 'fold(free)', lambda y: anp.sum(
        w * anp.sin(tree(pat.fold(y, free=True)) / s)), x, 0.0, True
    yield 'flatten(fold(free))', lambda y: anp.sum(
        w * anp.sin(pat.flatten(pat.fold(y, free=True), free=False) / s)), \
        x, 0.0, True
    yield 'fold', lambda y: anp.sum(w * anp.sin(tree(
        pat.fold(y, free=False, validate_value=False)) / s)), v, 0.0, True
    if nz < 1e-2:
        yield 'flatten(free)', lambda y: anp.sum(
            wf * anp.sin(pat.flatten(pat.fold(y, free=True), free=True))), \
            x, nz, not has_psd


def mixed(ctx):
    spec = specs.gen_spec(ctx.rng, 0.6, fd=0.2)
    if spec.free_len > 120:
        spec = specs.gen_leaf(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    x = ctx.rng.normal(size=spec.free_len) * ctx.pick([0.3, 0.8, 1.2])
    for route, fun, at, slack, fwd in route_funs(ctx, spec, pat, x):
        h = 2e-3
        derivatives(ctx, route, fun, at, slack, fwd, h)
        ctx.sig(spec.sig(), route)


def leaf(ctx):
    spec = specs.gen_leaf(ctx.rng, 1)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for sc in (0.0, 0.5, 1.5):
        x = ctx.rng.normal(size=spec.free_len) * sc
        for route, fun, at, slack, fwd in route_funs(ctx, spec, pat, x):
            derivatives(ctx, route, fun, at, slack, fwd)
            ctx.sig(spec.sig(), route, sc)


def large_free(ctx):
    """Gradients stay right (and finite) far from the origin."""
    spec = specs.gen_num(ctx.rng) if ctx.chance(0.5) \
        else specs.gen_simplex(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    x = ctx.rng.normal(size=spec.free_len) * ctx.pick([5.0, 15.0, 30.0])
    if isinstance(spec, Num):
        kind = spec.bound_kind()
        if kind == 'l':
            x = np.minimum(x, 8.0)
        if kind == 'u':
            x = np.maximum(x, -8.0)
    w = ctx.rng.normal(size=spec.flat_len)
    s = scales(spec, pat, x, True)

    def fun(y):
        return anp.sum(w * anp.sin(tree(pat.fold(y, free=True)) / s))
    derivatives(ctx, 'fold(free) far', fun, x, 0.0, True)
    # And not differentiable garbage at the extremes.
    big = ctx.rng.choice([-300.0, -50.0, 50.0, 300.0], spec.free_len)
    if isinstance(spec, Simplex) or spec.bound_kind() == 'lu':
        g = ctx.call('grad', autograd.grad(fun), big)
        ctx.check('gradient-finite', np.all(np.isfinite(g)),
                  'gradient is not finite', x=big, g=g)
    if isinstance(spec, Num) and spec.bound_kind() == 'lu' and \
            max(abs(spec.lb), abs(spec.ub)) < 1e3 * (spec.ub - spec.lb):
        # The logistic curve in closed form, out to where it is very flat.
        y = np.clip(ctx.rng.normal(size=spec.free_len) * 10, -22.0, 22.0)
        g = ctx.call('grad', autograd.grad(
            lambda t: anp.sum(w * tree(pat.fold(t, free=True)))), y)
        e = np.exp(-np.abs(y))
        want = w * (spec.ub - spec.lb) * e / (1 + e) ** 2
        ctx.close('flat-gradient', g, want, 1e-4 * np.abs(want),
                  'gradient of doubly bounded entries')
        v = ctx.rng.normal(size=spec.free_len)
        h = ctx.call('hvp', autograd.hessian_vector_product(
            lambda t: anp.sum(w * tree(pat.fold(t, free=True)))), y, v)
        ctx.close('flat-gradient', h, -want * v * np.tanh(y / 2),
                  1e-4 * np.abs(want * v), 'its second derivative')
    if isinstance(spec, Simplex):
        # The logarithms of simplexes keep their slope however far.
        y = ctx.rng.normal(size=spec.free_len) * ctx.pick([20.0, 60.0])
        g = ctx.call('grad', autograd.grad(
            lambda t: anp.sum(w * tree(anp.log(pat.fold(t, free=True))))), y)
        wm = w.reshape(-1, spec.size)
        p = np.exp(y).reshape(-1, spec.size - 1)
        p = p / (1 + np.sum(p, axis=-1, keepdims=True))
        want = wm[:, 1:] - p * np.sum(wm, axis=-1, keepdims=True)
        ctx.close('log-gradient', g, want.reshape(-1), 1e-9 * np.sum(np.abs(w)),
                  'gradient of logarithms of simplexes')
    ctx.sig(spec.sig(), 'far')


def large(ctx):
    """Larger matrices, simplexes, arrays and containers."""
    k = ctx.rint(0, 5)
    if k <= 1:
        spec = PSD(ctx.rint(6, 13), ctx.pick([0.0, 0.7]))
    elif k == 2:
        spec = Simplex(ctx.rint(13, 40), (ctx.rint(1, 3),))
    elif k == 3:
        spec = Num((ctx.rint(40, 150),), *specs.gen_bounds(ctx.rng))
    elif k == 4:
        spec = Arr((ctx.rint(9, 14),), specs.gen_leaf(ctx.rng, 0.3))
    else:
        n = ctx.rint(10, 16)
        spec = Dict([(specs.KEYS[i], specs.gen_leaf(ctx.rng, 0.3))
                     for i in ctx.rng.permutation(len(specs.KEYS))[:n]])
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    x = ctx.rng.normal(size=spec.free_len) * 0.4
    for route, fun, at, slack, fwd in route_funs(ctx, spec, pat, x):
        derivatives(ctx, route, fun, at, slack, fwd)
        ctx.sig(spec.sig(), route, 'large')


def folded_argument(ctx):
    """Derivatives of flat values with respect to folded arrays."""
    spec = specs.gen_array_valued(ctx.rng, 1, 0.6)
    if any(isinstance(t, specs.Custom) for t in spec.walk()):
        spec = specs.gen_leaf(ctx.rng, custom=False)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    x = ctx.rng.normal(size=spec.free_len) * 0.6
    val = ctx.call('fold', pat.fold, x, free=True)
    nz = noise(spec, x)
    wf = ctx.rng.normal(size=spec.free_len)
    if np.sum(np.abs(wf) * nz) * 1e4 > 1e-2:
        return
    # a direction which stays in the set
    t = ctx.rng.normal(size=spec.free_len) * 0.2

    def path(a):
        return anp.sum(wf * anp.sin(pat.flatten(
            pat.fold(x + a * t, free=True), free=True)))

    def ofval(v):
        return anp.sum(wf * anp.sin(pat.flatten(
            v, free=True, validate_value=False)))
    g = ctx.call('grad of flatten', autograd.grad(ofval), val)
    ctx.check('gradient-form', np.shape(g) == spec.shape, 'shape')
    dv = dir_fd(lambda a: spec.ref_flat(pat.fold(x + a[0] * t, free=True)),
                np.zeros(1), np.ones(1), 2e-3)
    want = np.sum(wf * np.cos(x) * t)
    sc = np.sum(np.abs(g).reshape(-1) * np.abs(dv)) + 1
    ctx.close('chain-rule', spec.ref_flat(g) @ dv, want,
              1e-6 * sc + 1e4 * np.sum(np.abs(wf) * nz),
              'derivative of flatten along a curve in the set', x=x, t=t)
    # The non-free flattening is linear with unit coefficients.
    w = ctx.rng.normal(size=spec.flat_len)
    g = ctx.call('grad of flatten', autograd.grad(
        lambda v: anp.sum(w * pat.flatten(v, free=False,
                                          validate_value=False))), val)
    ctx.exact('nonfree-gradient', spec.ref_flat(g), w)
    ctx.sig(spec.sig(), 'folded')


def wrapped(ctx):
    """Objectives of several parameters, differentiated through wrappers."""
    rng = ctx.rng
    n = ctx.rint(1, 3)
    sp = [specs.gen_spec(rng, 0.5, depth=2) for _ in range(n)]
    ctx.notes['spec'] = [s.describe() for s in sp]
    pats = [s.build() for s in sp]
    xs = [rng.normal(size=s.free_len) * 0.6 for s in sp]
    ws = [rng.normal(size=s.flat_len) for s in sp]
    ss = [scales(s, p, x, True) for s, p, x in zip(sp, pats, xs)]

    def objective(*vals, power=1.0):
        out = 0.0
        for v, w, s in zip(vals, ws, ss):
            out = out + anp.sum(w * anp.sin(tree(v) / s))
        return out * power + anp.sin(out)
    argnums = [int(i) for i in rng.permutation(n)]
    fun = ctx.call('FlattenFunctionInput', paragami.FlattenFunctionInput,
                   objective, [pats[i] for i in argnums], True, argnums)
    for i in range(n):
        def one(y):
            args = list(xs)
            args[i] = y
            return fun(*args, power=0.7)
        g = ctx.call('grad wrapped', autograd.grad(fun, i), *xs, power=0.7)
        d = rng.normal(size=xs[i].size)
        d /= np.linalg.norm(d)
        ctx.close('gradient-fd', g @ d, dir_fd(one, xs[i], d),
                  1e-6 * (1 + np.linalg.norm(g)), 'wrapped objective')
        derivatives(ctx, 'wrapped', one, xs[i], 0.0, True)
    # Jacobian of the flat value of a folded value: the reported one.
    i = ctx.rint(0, n - 1)
    if xs[i].size <= 40:
        f = paragami.FlattenFunctionOutput(
            lambda y: pats[i].fold(y, free=True), pats[i], False)
        J = ctx.call('jacobian', autograd.jacobian(f), xs[i])
        K = dense(ctx.call('unfreeing_jacobian', pats[i].unfreeing_jacobian,
                           pats[i].fold(xs[i], free=True)))
        ctx.close('jacobian-agrees', J, K,
                  1e-8 * (1e-6 + np.abs(K) + np.max(np.abs(K), axis=1,
                                                    keepdims=True)),
                  'automatic and reported Jacobian')
    ctx.sig([s.sig() for s in sp], argnums)


WORKLOADS = [('mixed', 4, mixed), ('leaf', 3, leaf), ('far', 1, large_free),
             ('folded-argument', 2, folded_argument), ('wrapped', 2, wrapped),
             ('large', 1, large)]
QUICK = 1500
THOROUGH = 30000
