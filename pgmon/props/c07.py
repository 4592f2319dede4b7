"""Malformed sizes, dimensions and structures are always refused."""
from collections import OrderedDict

import numpy as np

from .. import specs
from ..common import free_kw
from ..specs import Arr, Dict, Num

RULE = ('Random pattern trees given flat vectors of wrong length (off by one '
        'either way, empty, doubled, the length of the other mode), flat arrays '
        'of wrong dimension, folded values with a wrong shape in one component '
        '(extra or missing axis, transposed, one longer, one shorter) or a '
        'missing key, with validate_value None, True and False.  Distinct by '
        'structure and defect.')
REQUIRED = {'bad-flat-refused': 500, 'bad-folded-refused': 500,
            'bad-folded-reported': 300}


def bad_flats(ctx, spec, free):
    n = spec.free_len if free else spec.flat_len
    m = spec.flat_len if free else spec.free_len
    for k in {n - 1, n + 1, 0, 2 * n, n + ctx.rint(2, 9), m} - {n}:
        if k >= 0:
            yield 'length', np.zeros(k) if ctx.chance(0.5) \
                else ctx.rng.random(k)
    x = ctx.rng.random(n)
    for y in (x[None, :], x[:, None], x[None, None, :]):
        yield 'dimension', y
    if n > 1 and n % 2 == 0:
        yield 'dimension', x.reshape(2, n // 2)
    if not isinstance(spec, Dict) and not free and len(spec.shape) > 1:
        yield 'dimension', spec.gen(ctx.rng)
    if n > 1:
        yield 'scalar', 0.5


def flats(ctx):
    spec = specs.gen_spec(ctx.rng, fd=0.2, dv=0.3)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for free in (True, False):
        for kind, y in bad_flats(ctx, spec, free):
            for vv in (None, True, False):
                kw = free_kw(ctx, pat, free)
                ctx.must_raise('bad-flat-refused', ValueError, 'fold',
                               pat.fold, y.tolist() if ctx.chance(0.2) and
                               not isinstance(y, float) else y,
                               validate_value=vv, **kw)
            ctx.sig(spec.sig(), free, kind)


def bad_arrays(ctx, spec):
    v = spec.gen(ctx.rng)
    sh = v.shape
    if not v.size:
        return [w for w in (v[None], v[..., None], np.zeros(sh[:-1] + (1,)),
                            np.zeros(3), np.zeros((1, 1, 1, 1, 1, 1)))
                if w.shape != sh]
    out = [v[None], v[..., None]]
    for ax in range(v.ndim):
        out.append(np.concatenate([v, v.take([0], axis=ax)], axis=ax))
        if sh[ax] > 1:
            out.append(v.take(range(sh[ax] - 1), axis=ax))
    if v.ndim > 1:
        out.append(v.reshape(-1))
        out.append(v.reshape((-1,) + sh[1:-1] + (1,))
                   if sh[-1] != 1 else v[..., 0])
        for a in range(v.ndim - 1):
            if sh[a] != sh[a + 1]:
                out.append(np.swapaxes(v, a, a + 1))
    out = [w for w in out if w.shape != sh]
    # Numeric arrays read scalars as vectors of length one.
    return [w for w in out
            if not (np.atleast_1d(w).shape == sh)]


def bad_folded(ctx, spec):
    if not isinstance(spec, Dict):
        for w in bad_arrays(ctx, spec):
            yield 'shape', w
        return
    v = spec.gen(ctx.rng)
    for k, s in spec.items:
        w = OrderedDict(v)
        del w[k]
        yield 'missing key', w
        for kind, b in bad_folded(ctx, s):
            if ctx.chance(0.5):
                w = OrderedDict(v)
                w[k] = b
                yield 'in {!r}: {}'.format(k, kind), w


def folded(ctx):
    spec = specs.gen_spec(ctx.rng, 0.7, dv=0.3)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    todo = list(bad_folded(ctx, spec))
    if len(todo) > 24:
        todo = [todo[i] for i in ctx.rng.permutation(len(todo))[:24]]
    for kind, w in todo:
        for vv in (None, True, False):
            res = ctx.call('validate_folded', pat.validate_folded, w,
                           validate_value=vv)
            ctx.check('bad-folded-reported', isinstance(res, tuple) and
                      not res[0] and isinstance(res[1], str) and res[1],
                      'validate_folded gave {!r} for {}'.format(res, kind),
                      value=w)
            for free in (True, False):
                ctx.must_raise('bad-folded-refused', ValueError, 'flatten',
                               pat.flatten, w, free=free, validate_value=vv)
        if 'missing' not in kind or ctx.chance(0.5):
            flags = specs.tree_map(
                lambda a: np.ones(np.shape(a), dtype=bool), w)
            for free in (True, False):
                ctx.must_raise('bad-folded-refused', ValueError,
                               'flat_indices', pat.flat_indices, flags,
                               free=free)
        ctx.sig(spec.sig(), kind)


def construction(ctx):
    """Contradictory patterns cannot be made."""
    import paragami
    rng = ctx.rng
    a = float(np.round(rng.normal() * 5, 3))
    w = float(np.round(np.exp(rng.normal()), 3))
    n = ctx.rint(1, 4)
    M = 'bad-pattern-refused'
    for lb, ub in ((a, a), (a + w, a), (a, a - w)):
        ctx.must_raise(M, ValueError, 'NumericArrayPattern',
                       paragami.NumericArrayPattern, (n, 2), lb=lb, ub=ub)
        ctx.must_raise(M, ValueError, 'NumericVectorPattern',
                       paragami.NumericVectorPattern, n, lb=lb, ub=ub)
        ctx.must_raise(M, ValueError, 'NumericScalarPattern',
                       paragami.NumericScalarPattern, lb=lb, ub=ub)
    ctx.must_raise(M, ValueError, 'PSDSymmetricMatrixPattern',
                   paragami.PSDSymmetricMatrixPattern, n, diag_lb=-w)
    ctx.must_raise(M, ValueError, 'SimplexArrayPattern',
                   paragami.SimplexArrayPattern, ctx.pick([1, 0, -1]), (n,))
    inner = paragami.PatternDict()
    inner['a'] = specs.gen_leaf(rng, 0.3).build()
    ctx.must_raise(M, NotImplementedError, 'PatternArray of a dictionary',
                   paragami.PatternArray, (n,), inner)
    ctx.sig(n, lb, ub)


WORKLOADS = [('flats', 4, flats), ('folded', 4, folded),
             ('construction', 1, construction)]
QUICK = 4000
THOROUGH = 60000
