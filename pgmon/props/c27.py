"""Patterns, wrappers, objectives and preconditioners work together."""
import os
import shutil
import tempfile

import autograd
import autograd.numpy as anp
import numpy as np
import scipy.optimize
import scipy.sparse

import paragami
from paragami import sparse_preconditioners_lib as spl
from paragami.optimization_lib import (
    OptimizationObjective, PreconditionedFunction)

from .. import specs
from ..common import dense
from ..specs import Dict

RULE = ('Weighted least squares models of random pattern trees, whose optimum, '
        'Hessian and sensitivity are known in closed form, taken through '
        'flattened functions, objectives, dense and sparse preconditioners, '
        'index selection, saving and loading, and scipy\'s optimizers; every '
        'evaluation along the way is compared with the model.  Distinct by '
        'structure, workload and optimizer.')
REQUIRED = {'value': 300, 'chain-rule': 200, 'curvature': 100,
            'identity': 80, 'sensitivity': 80, 'blocks': 200, 'iterates': 500,
            'optimum': 50, 'resumed': 30}


def tree(v):
    if hasattr(v, 'keys'):
        return anp.hstack([tree(v[k]) for k in v.keys()] or [anp.zeros(0)])
    return anp.reshape(v, (-1,))


class Model:
    """0.5 sum_i w_i (v_i - c_i)^2 for the entries v_i of a folded value."""
    def __init__(self, ctx, spec):
        self.ctx, self.spec = ctx, spec
        ctx.notes['spec'] = spec.describe()
        self.pat = ctx.call('build', spec.build)
        # A well conditioned optimum.
        self.x = ctx.rng.normal(size=spec.free_len) * 0.5
        self.opt = ctx.call('fold', self.pat.fold, self.x, free=True)
        self.c = specs.flat_of(spec, self.opt)
        # The entries count alike whatever the widths of their bounds.
        self.J = dense(ctx.call('unfreeing_jacobian',
                                self.pat.unfreeing_jacobian, self.opt))
        self.w = ctx.rng.uniform(0.5, 2.0, spec.flat_len) / (
            1e-30 + np.sum(self.J ** 2, axis=1))
        self.H = self.J.T @ (self.w[:, None] * self.J)
        self.calls = []

    def f(self, v):
        t = tree(v)
        if isinstance(t, np.ndarray):
            self.calls.append(np.array(t))
        return 0.5 * anp.sum(self.w * (t - self.c) ** 2)

    def two(self, v, u):
        return 0.5 * anp.sum(self.w * (tree(v) - tree(u)) ** 2)

    def ref(self, x):
        """The value, and what rounding makes of it."""
        v = self.spec.ref_flat(self.pat.fold(x, free=True))
        r = v - self.c
        m = np.abs(v) + np.abs(self.c)
        return 0.5 * np.sum(self.w * r ** 2), \
            1e-12 * np.sum(self.w * (np.abs(r) * m + r ** 2) + self.w * m ** 2 *
                           1e-14) + 1e-300


def gen(ctx, size=0.6, most=40):
    while True:
        spec = specs.gen_spec(ctx.rng, size, fd=0.2)
        if 0 < spec.free_len <= most:
            return spec


def wrapped(ctx, m):
    """The model as a function of the free vector."""
    how = ctx.rint(0, 3)
    if how == 0:
        return paragami.FlattenFunctionInput(m.f, m.pat, free=True)
    if how == 1:
        return paragami.TransformFunctionInput(
            m.f, patterns=[m.pat], free=[True], original_is_flat=False,
            argnums=[0])
    if how == 2:
        g = paragami.FlattenFunctionInput(
            lambda k, v, s=1.0: k * s * m.f(v), m.pat, True, 1)
        return lambda x: g(2.0, x, s=0.5)
    g = paragami.FlattenFunctionInput(m.f, m.pat, free=False)
    return lambda x: g(m.pat.flatten(m.pat.fold(x, free=True), free=False))


def derivatives(ctx):
    m = Model(ctx, gen(ctx))
    n = m.spec.free_len
    fun = wrapped(ctx, m)
    obj = ctx.call('OptimizationObjective', OptimizationObjective, fun,
                   print_every=0, log_every=1)
    Hs = np.max(np.abs(m.H))
    points = []
    buf = np.empty(n) if ctx.chance(0.5) else None
    for scale in (0.0, ctx.pick([1e-6, 1e-4]), 0.1, 0.7):
        x = m.x + scale * ctx.rng.normal(size=n)
        points.append(np.array(x))
        if buf is not None:
            buf[:] = x
            x = buf
        want, tol = m.ref(x)
        del m.calls[:]
        ctx.close('value', ctx.call('f', obj.f, x), want, tol, 'objective')
        ctx.check('value', len(m.calls) == 1, '{} evaluations'.format(
            len(m.calls)))
        v = m.pat.fold(x, free=True)
        J = dense(ctx.call('unfreeing_jacobian', m.pat.unfreeing_jacobian, v))
        r = specs.flat_of(m.spec, v) - m.c
        g = ctx.call('grad', obj.grad, x)
        sc = np.max(np.abs(J).T @ (m.w * (np.abs(r) + 1e-6 * (
            np.abs(m.c) + np.sqrt(1 / m.w)))))
        ctx.close('chain-rule', g, J.T @ (m.w * r), 1e-8 * sc + 1e-300,
                  'gradient')
        d = ctx.rng.normal(size=n)
        H = ctx.call('hessian', obj.hessian, x)
        ctx.close('curvature', ctx.call('hvp', obj.hessian_vector_product,
                                        x, d), H @ d,
                  1e-8 * np.max(np.abs(H)) * np.sum(np.abs(d)),
                  'Hessian-vector product')
        if scale == 0.0:
            ctx.close('curvature', H, m.H, 1e-8 * Hs, 'Hessian at the optimum')
    log = obj.optimization_log
    ctx.check('log', obj.num_iterations() == len(points) == len(log),
              'the log has {} entries'.format(len(log)))
    for (k, x, val), p in zip(log, points):
        ctx.exact('log', x, p, 'logged point')
        ctx.close('log', val, m.ref(p)[0], m.ref(p)[1], 'logged value')
    precondition(ctx, m, fun)
    sensitivity(ctx, m)
    ctx.sig('derivatives', m.spec.sig())


def precondition(ctx, m, fun):
    """With the Hessian at the optimum, the Hessian becomes the identity."""
    if np.linalg.cond(m.H) > 1e7:
        return
    n = m.spec.free_len
    pf = ctx.call('PreconditionedFunction', PreconditionedFunction, fun)
    how = ctx.pick(['at', 'hessian', 'sparse'])
    if how == 'at':
        ctx.call('set hessian', pf.set_preconditioner_with_hessian, x=m.x)
    elif how == 'hessian':
        ctx.call('set hessian', pf.set_preconditioner_with_hessian, hessian=m.H)
    else:
        root, inv = ctx.call('sparse root', spl.get_sym_matrix_inv_sqrt_funcs,
                             scipy.sparse.csc_matrix(0.5 * (m.H + m.H.T)))
        ctx.call('set functions', pf.set_preconditioner_functions, inv, root)
    ctx.call('check', pf.check_preconditioner, m.x, tol=1e-6 * (
        1 + np.linalg.norm(m.x)))
    y = ctx.call('precondition', pf.precondition, m.x)
    H = ctx.call('hessian', autograd.hessian(pf), y)
    t = 1e-7 * np.linalg.cond(m.H)
    if t < 1e-2:
        ctx.close('identity', H, np.eye(n), max(t, 1e-7),
                  'preconditioned Hessian, ' + how)
    d = 0.1 * ctx.rng.normal(size=n)
    at = ctx.call('unprecondition', pf.unprecondition, y + d)
    want, tol = m.ref(at)
    ctx.close('identity', ctx.call('preconditioned', pf, y + d), want,
              tol + 1e-9 * abs(want), 'preconditioned value')


def sensitivity(ctx, m):
    """Cross derivatives of a function of two patterned arguments."""
    n = m.spec.free_len
    order = ctx.pick([[0, 1], [1, 0]])
    free = ctx.pick([True, [True, True]])
    form = ctx.pick([list, tuple, np.array])
    g = ctx.call('FlattenFunctionInput', paragami.FlattenFunctionInput,
                 m.two, [m.pat, m.pat], free, order)
    cross = ctx.call('cross derivative', autograd.jacobian(
        autograd.grad(g, 0), 1), m.x, m.x)
    Hs = np.max(np.abs(m.H))
    ctx.close('sensitivity', cross, -m.H, 1e-8 * Hs, 'free and free')
    # How the optimum moves with the (non-free) data.
    flags = {0: True, 1: False}
    g = ctx.call('FlattenFunctionInput', paragami.FlattenFunctionInput,
                 m.two, [m.pat, m.pat], form([flags[i] for i in order]), order)
    cross = ctx.call('cross derivative', autograd.jacobian(
        autograd.grad(g, 0), 1), m.x, m.c)
    want = -m.J.T * m.w
    ctx.close('sensitivity', cross, want, 1e-8 * np.max(np.abs(want)),
              'free and not free')
    if np.linalg.cond(m.H) < 1e6:
        move = -np.linalg.solve(m.H, cross)
        ctx.close('sensitivity', move @ m.J, np.eye(n),
                  1e-8 * np.linalg.cond(m.H), 'the optimum follows the data')


def blocks(ctx):
    """Index selection takes the Hessian of a model apart by member."""
    spec = specs.gen_dict(ctx.rng, 2, 0.4, max_keys=4)
    if spec.free_len > 40 or len(spec.items) < 2:
        spec = Dict([(k, specs.gen_leaf(ctx.rng, 0.3)) for k in ('b', 'a')])
    m = Model(ctx, spec)
    fun = wrapped(ctx, m)
    x = m.x + 0.2 * ctx.rng.normal(size=spec.free_len)
    g = ctx.call('grad', autograd.grad(fun), x)
    H = ctx.call('hessian', autograd.hessian(fun), x)
    v = m.pat.fold(x, free=True)
    seen, where, o = [], {}, 0
    for k, s in spec.items:
        where[k] = slice(o, o + s.flat_len)
        o += s.flat_len
    for k, s in spec.items:
        mask = ctx.call('empty_bool', m.pat.empty_bool, False)
        mask[k] = ctx.call('empty_bool', m.pat[k].empty_bool, True)
        fi = ctx.call('flat_indices', m.pat.flat_indices, mask, free=True)
        ni = ctx.call('flat_indices', m.pat.flat_indices, mask, free=False)
        ctx.check('blocks', len(fi) == s.free_len and len(ni) == s.flat_len,
                  'indices of {!r}: {} and {}'.format(k, fi, ni))
        w, c = m.w[ni], m.c[ni]
        part = paragami.FlattenFunctionInput(
            lambda u: 0.5 * anp.sum(w * (tree(u) - c) ** 2), m.pat[k], True)
        if s.free_len:
            own = ctx.call('flatten', m.pat[k].flatten, v[k], free=True)
            ctx.close('blocks', x[fi], own, 1e-6, 'free entries of a member')
            ctx.close('blocks', ctx.call('part gradient', autograd.grad(part),
                                         x[fi]), g[fi],
                      1e-9 * (1 + np.max(np.abs(g))), 'gradient of a member')
            ctx.close('blocks', ctx.call('part Hessian', autograd.hessian(
                part), x[fi]), H[np.ix_(fi, fi)],
                1e-9 * (1 + np.max(np.abs(H))), 'Hessian of a member')
            ctx.check('blocks', not np.any(np.delete(H[fi], fi, axis=1)),
                      'members of a separable model interact')
        # Writing one member's free entries moves that member only.
        y = np.array(x)
        y[fi] += 0.25
        u = ctx.call('fold', m.pat.fold, y, free=True)
        for kk, ss in spec.items:
            # Elementary functions need not round alike at every alignment.
            a = specs.flat_of(ss, u[kk])
            loose = 1e-10 / np.sqrt(m.w[where[kk]])
            if kk != k:
                b = specs.flat_of(ss, v[kk])
                ctx.close('blocks', a, b, loose + 1e-10 * np.abs(b),
                          '{!r} moves {!r}'.format(k, kk))
            elif s.free_len:
                b = specs.flat_of(ss, ctx.call('fold', m.pat[k].fold, y[fi],
                                               free=True))
                ctx.close('blocks', a, b, loose + 1e-10 * np.abs(b),
                          '{!r} moved'.format(k))
        seen.append(fi)
    ctx.exact('blocks', np.sort(np.hstack(seen)), np.arange(spec.free_len),
              'the members make up the whole')
    ctx.sig('blocks', spec.sig())


METHODS = ['trust-exact', 'trust-ncg', 'Newton-CG', 'BFGS', 'L-BFGS-B', 'CG']


def optimize(ctx):
    m = Model(ctx, gen(ctx, 0.5, 20))
    n = m.spec.free_len
    if np.linalg.cond(m.H) > 1e6:
        return
    fun = wrapped(ctx, m)
    x0 = m.x + 0.1 * ctx.rng.normal(size=n) / np.sqrt(n)
    method = ctx.pick(METHODS)
    pf = PreconditionedFunction(fun)
    how = ctx.pick(['none', 'hessian', 'sparse'])
    if how == 'hessian':
        ctx.call('set hessian', pf.set_preconditioner_with_hessian, x=m.x)
    elif how == 'sparse':
        root, inv = ctx.call('sparse root', spl.get_sym_matrix_inv_sqrt_funcs,
                             scipy.sparse.csc_matrix(0.5 * (m.H + m.H.T)))
        ctx.call('set functions', pf.set_preconditioner_functions, inv, root)
    obj = OptimizationObjective(pf, print_every=0, log_every=1)
    start = ctx.call('precondition', pf.precondition, x0)
    count = [0]

    def f(y):
        count[0] += 1
        return obj.f(y)
    kw = {}
    if method in ('trust-ncg', 'Newton-CG') and ctx.chance(0.5):
        kw['hessp'] = obj.hessian_vector_product
    elif method in ('trust-exact', 'trust-ncg', 'Newton-CG'):
        kw['hess'] = obj.hessian
    res = ctx.call('minimize', scipy.optimize.minimize, f, start,
                   method=method, jac=obj.grad, **kw)
    log = obj.optimization_log
    ctx.check('iterates', obj.num_iterations() == count[0] == len(log),
              '{} evaluations, {} counted, {} logged'.format(
                  count[0], obj.num_iterations(), len(log)))
    for i, (k, y, val) in enumerate(log):
        ctx.check('iterates', k == i, 'evaluation {} is logged as {}'.format(
            i, k))
        x = pf.unprecondition(y)
        want, tol = m.ref(x)
        ctx.close('iterates', val, want, tol + 1e-12 * abs(want), 'logged value')
        v = m.pat.fold(x, free=True)
        ok, why = m.pat.validate_folded(v)
        ctx.check('iterates', ok, 'an iterate is refused: ' + why)
    # From so near, on a model with one optimum.
    x = pf.unprecondition(res.x)
    g0 = np.linalg.norm(obj.grad(start))
    if np.linalg.norm(obj.grad(res.x)) <= 1e-4 * g0:
        ctx.close('optimum', tree(m.pat.fold(x, free=True)), m.c,
                  1e-2 / np.sqrt(m.w) * (1 + np.sqrt(m.ref(x0)[0])) +
                  1e-9 * np.abs(m.c), method + ' ' + how)
    ctx.check('descent', m.ref(x)[0] <= m.ref(x0)[0] + m.ref(x0)[1],
              '{} went uphill'.format(method))
    ctx.sig('optimize', m.spec.sig(), method, how)


def resume(ctx):
    """Stop, save, load elsewhere, and go on."""
    m = Model(ctx, gen(ctx))
    fun = wrapped(ctx, m)
    x = m.x + 0.3 * ctx.rng.normal(size=m.spec.free_len)
    v = ctx.call('fold', m.pat.fold, x, free=True)
    d = tempfile.mkdtemp(prefix='pgmon-c27-')
    try:
        path = os.path.join(d, 'state.npz')
        ctx.call('save_folded', paragami.save_folded, path, v, m.pat,
                 weights=m.w, hessian=m.H)
        got, pat, data = ctx.call('load_folded', paragami.load_folded, path)
        w, H = data['weights'], data['hessian']
        getattr(data, 'close', int)()
    finally:
        shutil.rmtree(d)
    ctx.exact('resumed', w, m.w, 'extra item')
    ctx.exact('resumed', H, m.H, 'extra item')
    ctx.exact('resumed', specs.flat_of(m.spec, got), m.spec.ref_flat(v), 'value')
    again = ctx.call('FlattenFunctionInput', paragami.FlattenFunctionInput,
                     m.f, pat, True)
    # (numpy may round differently for arrays elsewhere in memory)
    want = m.pat.flatten(v, free=True)
    ctx.close('resumed', ctx.call('flatten', pat.flatten, got, free=True),
              want, 1e-10 * (1 + np.max(np.abs(want))), 'free vector')
    y = pat.flatten(got, free=True)
    ctx.close('resumed', ctx.call('resumed', again, y), fun(y),
              1e-9 * (1 + abs(fun(y))), 'objective')
    g = autograd.grad(fun)(y)
    ctx.close('resumed', ctx.call('resumed gradient', autograd.grad(again), y),
              g, 1e-9 * (1 + np.max(np.abs(g))), 'gradient')
    ctx.sig('resume', m.spec.sig())


WORKLOADS = [('derivatives', 4, derivatives), ('blocks', 2, blocks),
             ('optimize', 3, optimize), ('resume', 2, resume)]
QUICK = 1300
THOROUGH = 30000
