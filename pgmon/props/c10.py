"""Jacobians of freeing and unfreeing are the derivatives of the maps."""
import numpy as np
import scipy.sparse

from .. import specs
from ..common import dense, dir_fd, jac_fd
from ..rt import EPS
from ..specs import Arr, Dict, Num, PSD, Simplex

RULE = ('Random pattern trees at random values.  The unfreeing Jacobian is '
        'compared with fourth-order differences of the pattern\'s own free '
        'fold (all columns, or random directions when large); the freeing '
        'Jacobian must be its left inverse, and match differences of free '
        'flattening along directions which stay in the set; sparse and dense '
        'must agree and have the documented form.  Distinct by structure.')
REQUIRED = {'unfreeing-fd': 200, 'left-inverse': 300, 'sparse-dense': 300}


def get(ctx, pat, which, val, shape):
    fn = getattr(pat, which)
    a = ctx.call(which, fn, val, sparse=True)
    ctx.check('jacobian-form', scipy.sparse.issparse(a) and a.shape == shape,
              '{}: expected sparse {}, got {} {}'.format(
                  which, shape, type(a).__name__, np.shape(a)))
    b = ctx.call(which, fn, val, sparse=False)
    ctx.check('jacobian-form', type(b) is np.ndarray and b.shape == shape,
              '{}: expected ndarray {}, got {} {}'.format(
                  which, shape, type(b).__name__, np.shape(b)))
    a = dense(a)
    ctx.close('sparse-dense', a, b, 1e-10 * (np.abs(b) + 1e-3 * np.max(
        np.abs(b))), which)
    if ctx.chance(0.2):
        c = ctx.call(which, fn, val)
        ctx.check('jacobian-form', scipy.sparse.issparse(c),
                  'sparse is the default')
        ctx.close('sparse-dense', dense(c), a, 1e-10 * (np.abs(a) + 1e-3 *
                                                        np.max(np.abs(a))))
    return b


def one(ctx, spec, pat, x):
    N, M = spec.flat_len, spec.free_len
    val = ctx.call('fold', pat.fold, x, free=True)
    flat = specs.flat_of(spec, val)
    given = specs.hostile(spec, ctx.rng, val)
    ju = get(ctx, pat, 'unfreeing_jacobian', given, (N, M))
    jf = get(ctx, pat, 'freeing_jacobian', given, (M, N))

    def fold(y):
        return spec.ref_flat(pat.fold(y, free=True))

    rows = np.max(np.abs(ju), axis=1, initial=0)
    tol = 2e-8 * rows + 1e-11 * np.abs(flat) + 1e-12
    for k, s, fo, ro in specs.leaves(spec):    # bounds enter the rounding
        if isinstance(s, Num):
            b = sum(abs(float(t)) for t in (s.lb, s.ub) if np.isfinite(t))
            tol[fo:fo + s.flat_len] += 1e-11 * b
        if isinstance(s, PSD):
            tol[fo:fo + s.flat_len] += 2e-8 * np.max(
                rows[fo:fo + s.flat_len]) + 1e-11 * s.diag_lb
    if M <= 40:
        fd = ctx.call('differences of fold', jac_fd, fold, x)
        ctx.close('unfreeing-fd', ju, fd, tol[:, None],
                  'unfreeing Jacobian', x=x, spec=spec.describe())
    for _ in range(2):
        d = ctx.rng.normal(size=M)
        fd = ctx.call('differences of fold', dir_fd, fold, x, d, 5e-4)
        ctx.close('unfreeing-fd', ju @ d, fd,
                  10 * (np.sqrt(M) + 4) * tol, 'unfreeing Jacobian along d',
                  x=x, d=d)
    # Freeing after unfreeing, block by block.
    want = np.eye(M)
    got = jf @ ju
    scale = np.abs(jf) @ np.abs(ju)
    ctx.close('left-inverse', got, want, 1e-9 * (scale + 1e-3),
              'freeing Jacobian times unfreeing Jacobian', x=x,
              spec=spec.describe())
    # No dependence between blocks.
    on_u, on_f = np.zeros((N, M), bool), np.zeros((M, N), bool)
    for f, r in spec.blocks():
        on_u[np.ix_(f, r)] = True
        on_f[np.ix_(r, f)] = True
    ctx.check('block-structure', not np.any(ju[~on_u]) and
              not np.any(jf[~on_f]),
              'dependence between independent parameters')
    ctx.sig(spec.sig(), 'fd' if M <= 40 else 'directions')


def freeing_fd(ctx, spec, pat, x):
    """Differences of flatten(free=True) itself along tangent directions."""
    val = ctx.call('fold', pat.fold, x, free=True)
    flat = specs.flat_of(spec, val)
    d = np.zeros(spec.flat_len)
    for _, s, fo, _ in specs.leaves(spec):
        sl = slice(fo, fo + s.flat_len)
        if isinstance(s, Num):
            u = ctx.rng.uniform(-1, 1, s.flat_len)
            gap = np.ones(s.flat_len)
            if s.lb > -specs.INF:
                gap = np.minimum(gap, flat[sl] - s.lb)
            if s.ub < specs.INF:
                gap = np.minimum(gap, s.ub - flat[sl])
            d[sl] = u * gap * 0.5
        elif isinstance(s, PSD):
            m = flat[sl].reshape(s.shape) - s.diag_lb * np.eye(s.size)
            ev = np.linalg.eigvalsh(m)[0]
            a = ctx.rng.normal(size=s.shape)
            a = np.tril(a) + np.tril(a, -1).T
            d[sl] = (a / np.linalg.norm(a) * ev * 0.5).reshape(-1)
        elif isinstance(s, Simplex):
            v = flat[sl].reshape(-1, s.size)
            a = ctx.rng.uniform(-1, 1, v.shape) * 0.5 * v
            d[sl] = (a - v * a.sum(axis=1, keepdims=True)).reshape(-1)
        else:
            return
    jf = dense(ctx.call('freeing_jacobian', pat.freeing_jacobian, val))

    def flatten(y):
        return pat.flatten(spec.ref_unflat(y), free=True, validate_value=False)
    with np.errstate(all='ignore'):
        fd = ctx.call('differences of flatten', dir_fd, flatten, flat, d, 1e-3)
        rel = np.zeros(spec.free_len)
        for _, s, fo, ro in specs.leaves(spec):
            xs = x[ro:ro + s.free_len]
            t = s.free_tol(xs)
            rel[ro:ro + s.free_len] = np.where(np.isfinite(t), t, np.inf)
    scale = np.abs(jf) @ np.abs(d)
    ctx.close('freeing-fd', jf @ d, fd, 1e-7 * (scale + 1) + 2e3 * rel,
              'freeing Jacobian along a direction', x=x, d=d,
              spec=spec.describe())


def mixed(ctx):
    spec = specs.gen_spec(ctx.rng, 0.6, fd=0.3)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for _ in range(2):
        x = ctx.rng.normal(size=spec.free_len) * ctx.pick([0.3, 0.7, 1.0])
        one(ctx, spec, pat, x)
        freeing_fd(ctx, spec, pat, x)


def leaf(ctx):
    spec = specs.gen_leaf(ctx.rng, 0.8, fd=0.2)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for sc in (0.0, 0.5, 1.0, 1.5):
        x = ctx.rng.normal(size=spec.free_len) * sc
        one(ctx, spec, pat, x)
        freeing_fd(ctx, spec, pat, x)


def numeric_edge(ctx):
    """Scalars near their bounds: the two derivatives are reciprocal."""
    spec = specs.gen_num(ctx.rng)
    if not spec.bound_kind():
        spec.lb = 0.0
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    val = spec.gen(ctx.rng, ctx.pick(['edge', 'extreme', 'typical']))
    n = spec.flat_len
    ju = get(ctx, pat, 'unfreeing_jacobian', val, (n, n))
    jf = get(ctx, pat, 'freeing_jacobian', val, (n, n))
    v = val.reshape(-1)
    lo, hi = v - float(spec.lb), float(spec.ub) - v
    with np.errstate(all='ignore'):
        want = 1.0 / (1.0 / lo + 1.0 / hi)
    ctx.close('unfreeing-closed-form', np.diag(ju), want, 1e-9 * want,
              'derivative', value=val)
    ctx.close('left-inverse', np.diag(ju) * np.diag(jf), np.ones(n), 1e-9)
    ctx.sig(spec.sig(), 'edge')


def ladder(ctx):
    """Distances to the bounds of every order, and both closed forms."""
    w = 10.0 ** ctx.rint(-3, 5)
    lo, hi = ctx.pick([(0.0, w), (0.0, w), (-w, 0.0), (0.0, specs.INF),
                       (-specs.INF, 0.0), (1.0, 1.0 + w), (-3.0, specs.INF),
                       (-specs.INF, 2.0)])
    n = ctx.rint(1, 12)
    d = w * 2.0 ** -ctx.rng.uniform(0.2, 30, n)
    side = ctx.rng.random(n) < 0.5
    if hi == specs.INF:
        v = lo + d
    elif lo == -specs.INF:
        v = hi - d
    else:
        v = np.where(side, lo + d, hi - d)
    a, b = v - lo, hi - v          # what is left of the distances
    if not (np.all(a > 0) and np.all(b > 0)):
        return
    spec = specs.Num((n,), lo, hi)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    want = 1.0 / a + 1.0 / b
    jf = get(ctx, pat, 'freeing_jacobian', v, (n, n))
    ju = get(ctx, pat, 'unfreeing_jacobian', v, (n, n))
    ctx.close('freeing-closed-form', np.diag(jf), want, 1e-11 * want,
              'freeing derivative', value=v, lb=lo, ub=hi)
    # The free value in between is of limited accuracy.
    tol = (1e-11 + 4 * EPS * (abs(lo) + abs(hi) if np.isfinite(lo + hi) else
                              np.abs(v)) * want)
    ctx.close('unfreeing-closed-form', np.diag(ju), 1 / want, tol / want,
              'unfreeing derivative', value=v, lb=lo, ub=hi)
    ctx.sig(spec.sig(), 'ladder', int(np.log2(np.min(np.minimum(a, b)) / w)))


def simplex_edge(ctx):
    """Skewed simplexes, against the closed form of both Jacobians."""
    size, n = ctx.rint(2, 7), ctx.rint(1, 3)
    spec = Simplex(size, (n,) if n > 1 or ctx.chance(0.5) else ())
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    val = spec.gen(ctx.rng, ctx.pick(['edge', 'extreme', 'typical']))
    N, M = spec.flat_len, spec.free_len
    ju = get(ctx, pat, 'unfreeing_jacobian', val, (N, M))
    jf = get(ctx, pat, 'freeing_jacobian', val, (M, N))
    wu, wf = np.zeros((N, M)), np.zeros((M, N))
    for i, v in enumerate(val.reshape(-1, size)):
        f, r = i * size, i * (size - 1)
        for a in range(size):
            for b in range(1, size):
                # p_a (1 - p_a) is sum of p_a p_c over the others
                wu[f + a, r + b - 1] = v[a] * (np.sum(v[:a]) + np.sum(
                    v[a + 1:])) if a == b else -v[a] * v[b]
        for b in range(1, size):
            wf[r + b - 1, f + b] = 1 / v[b]
            wf[r + b - 1, f] = -1 / v[0]
    # 1 - p loses what is small next to one.
    ctx.close('unfreeing-closed-form', ju, wu, 1e-9 * np.abs(wu) + 1e-15,
              'simplex unfreeing Jacobian', value=val)
    ctx.close('freeing-closed-form', jf, wf, 1e-9 * np.abs(wf),
              'simplex freeing Jacobian', value=val)
    ctx.sig(spec.sig(), 'edge')


def integers(ctx):
    """Values held as integers have the Jacobians of these numbers."""
    spec = specs.gen_integer_spec(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    val = specs.gen_integers(spec, ctx.rng)
    real = specs.tree_map(lambda a: np.array(a, dtype=float), val)
    N, M = spec.flat_len, spec.free_len
    for which, shape in (('unfreeing_jacobian', (N, M)),
                         ('freeing_jacobian', (M, N))):
        a = get(ctx, pat, which, val, shape)
        b = get(ctx, pat, which, real, shape)
        ctx.close('integers', a, b, 1e-12 * (np.abs(b) + 1e-3 * np.max(
            np.abs(b), initial=0)), which, value=val)
    ctx.sig('integers', spec.sig())


def psd_edge(ctx):
    """Matrices which are badly scaled: left inverse, and consistency."""
    spec = PSD(ctx.rint(1, 4), ctx.pick([0.0, 0.0, 0.5, 10.0]))
    pat = ctx.call('build', spec.build)
    n = spec.size
    x = ctx.rng.normal(size=spec.free_len) * 0.5
    dg = np.cumsum(np.arange(1, n + 1)) - 1
    x[dg] += ctx.rng.uniform(-6, 6) if spec.diag_lb == 0 else \
        ctx.rng.uniform(-1, 2)
    for k in range(n):            # rows of the factor in proportion
        if k:
            x[dg[k] - k:dg[k]] *= np.exp(x[dg[k]])
    ctx.notes['spec'] = spec.describe()
    one(ctx, spec, pat, x)


def psd_graded(ctx):
    """Variables on very different scales: every entry in closed form."""
    n = ctx.rint(2, 5)
    spec = PSD(n)
    pat = ctx.call('build', spec.build)
    ctx.notes['spec'] = spec.describe()
    b = ctx.rng.normal(size=(n, n)) * 0.3
    d = 10.0 ** ctx.rng.uniform(-6, 6, n)
    val = d[:, None] * (np.eye(n) + b @ b.T) * d
    val = np.tril(val) + np.tril(val, -1).T
    chol = np.linalg.cholesky(val / d[:, None] / d) * d[:, None]
    want = np.zeros((n, n, spec.free_len))
    scale = np.zeros((n, n, spec.free_len))
    for k, (i, j) in enumerate(zip(*np.tril_indices(n))):
        # The free value is the factor, with logarithms on the diagonal.
        g = chol[i, i] if i == j else 1.0
        want[i, :, k] += chol[:, j] * g
        want[:, i, k] += chol[:, j] * g
        scale[i, :, k] += d * abs(g)
        scale[:, i, k] += d * abs(g)
    sparse = ctx.chance(0.5)
    jac = ctx.call('unfreeing_jacobian', pat.unfreeing_jacobian, val,
                   sparse=sparse)
    jac = np.asarray(jac.todense() if sparse else jac)
    ctx.close('unfreeing-derivative', jac, want.reshape(n * n, -1),
              1e-11 * scale.reshape(n * n, -1) + 1e-300, 'closed form',
              value=val)
    ctx.sig('graded', n, sparse, np.round(np.log10(d)))


def psd_diagonal(ctx):
    """Diagonal matrices on very different scales, freed."""
    n = ctx.rint(2, 6)
    spec = PSD(n)
    pat = ctx.call('build', spec.build)
    ctx.notes['spec'] = spec.describe()
    d = 10.0 ** ctx.rng.uniform(-6, 6, n)
    val = np.diag(d ** 2)
    sparse = ctx.chance(0.5)
    jac = ctx.call('freeing_jacobian', pat.freeing_jacobian, val,
                   sparse=sparse)
    jac = np.asarray(jac.todense() if sparse else jac)
    jac = jac.reshape(spec.free_len, n, n)
    jac = jac + np.swapaxes(jac, 1, 2)    # along symmetric directions
    want, tol = np.zeros_like(jac), np.zeros_like(jac)
    for k, (a, b) in enumerate(zip(*np.tril_indices(n))):
        tol[k] = (1.0 if a == b else d[a]) / np.outer(d, d)
        if a == b:
            want[k, a, a] = 1 / d[a] ** 2
        else:
            want[k, a, b] = want[k, b, a] = 1 / d[b]
    ctx.close('freeing-derivative', jac, want, 1e-11 * tol, 'closed form',
              value=val)
    ctx.sig('diagonal', n, sparse, np.round(np.log10(d)))


def large(ctx):
    k = ctx.rint(0, 3)
    if k == 0:
        spec = PSD(ctx.rint(6, 10), ctx.pick([0.0, 0.7]))
    elif k == 1:
        spec = Simplex(ctx.rint(8, 30), (ctx.rint(1, 3), 2))
    elif k == 2:
        spec = Arr((ctx.rint(2, 4), ctx.rint(2, 4)), PSD(3, 0.1))
    else:
        spec = Num((ctx.rint(50, 120),), *specs.gen_bounds(ctx.rng))
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    one(ctx, spec, pat, ctx.rng.normal(size=spec.free_len) * 0.4)


WORKLOADS = [('mixed', 5, mixed), ('leaf', 4, leaf),
             ('numeric-edge', 2, numeric_edge), ('large', 1, large),
             ('simplex-edge', 2, simplex_edge), ('psd-edge', 1, psd_edge),
             ('psd-graded', 1, psd_graded), ('ladder', 2, ladder),
             ('integers', 1, integers), ('psd-diagonal', 1, psd_diagonal)]
QUICK = 3000
THOROUGH = 30000
