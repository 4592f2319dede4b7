"""Values survive flattening and folding."""
import numpy as np

from .. import specs
from ..common import (check_flat, check_folded, equal_folded, flat_form,
                      free_kw)
from ..rt import EPS

RULE = ('Random pattern trees (numeric arrays with every kind of bound, PSD '
        'matrices, simplexes, user-defined patterns, nested dictionaries and '
        'arrays of them); several values in a row per pattern, in hostile '
        'memory layouts and dictionary orders.  A case is distinct by pattern '
        'structure, value kind and mode.')
REQUIRED = {'nonfree-exact': 300, 'free-close': 150, 'flat-form': 500}


def round_trips(ctx, spec, pat, mode):
    val = spec.gen(ctx.rng, mode)
    tol = spec.value_tol(val)
    given = specs.hostile(spec, ctx.rng, val)
    vv = ctx.pick([None, None, True, False])
    for free in (False, True) if ctx.chance(0.5) else (True, False):
        kw = free_kw(ctx, pat, free)
        flat = ctx.call('flatten', pat.flatten, given, validate_value=vv, **kw)
        check_flat(ctx, flat, spec.free_len if free else spec.flat_len)
        back = ctx.call('fold', pat.fold, flat_form(ctx, flat),
                        validate_value=vv if not free else None, **kw)
        if free:
            equal_folded(ctx, 'free-close', spec, back, val, tol,
                         'fold(flatten(v, free), free)')
        else:
            equal_folded(ctx, 'nonfree-exact', spec, back, val, None,
                         'fold(flatten(v))')
        ctx.sig(spec.sig(), mode, free)


def mixed(ctx):
    spec = specs.gen_spec(ctx.rng, fd=0.2, dv=0.15)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for _ in range(ctx.rint(1, 3)):
        round_trips(ctx, spec, pat, 'mixed')


def leaf(ctx):
    spec = specs.gen_leaf(ctx.rng, 2, dv=0.15)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for _ in range(4):
        round_trips(ctx, spec, pat, ctx.pick(['typical', 'edge', 'extreme']))


def deep(ctx):
    """Over the whole range of doubles."""
    spec = specs.gen_leaf(ctx.rng, 2) if ctx.chance(0.6) else \
        specs.gen_spec(ctx.rng)
    if isinstance(spec, specs.Num) and ctx.chance(0.4):
        spec.lb, spec.ub = ctx.pick([(0.0, specs.INF), (0, specs.INF),
                                     (-specs.INF, 0.0)])
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for _ in range(3):
        round_trips(ctx, spec, pat, 'deep')


def big(ctx):
    spec = specs.gen_big(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    round_trips(ctx, spec, ctx.call('build', spec.build), 'mixed')


def boundary(ctx):
    """Values on the boundary have a flat value but no free one."""
    spec = specs.gen_spec(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    val = spec.gen_boundary(ctx.rng)
    flat = ctx.call('flatten', pat.flatten,
                    specs.hostile(spec, ctx.rng, val), free=False)
    check_flat(ctx, flat, spec.flat_len)
    back = ctx.call('fold', pat.fold, flat_form(ctx, flat), free=False)
    equal_folded(ctx, 'nonfree-exact', spec, back, val)
    ctx.sig(spec.sig(), 'boundary')


def unvalidated(ctx):
    """Any numbers of the right shape survive when validation is off."""
    spec = specs.gen_spec(ctx.rng, custom=True)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    flat = ctx.rng.normal(size=spec.flat_len) * \
        10.0 ** ctx.rng.uniform(-3, 12, spec.flat_len)
    if ctx.chance(0.3):
        flat[ctx.rng.random(flat.size) < 0.2] = ctx.pick(
            [np.nan, np.inf, -np.inf, -0.0, 5e-324])
    val = spec.ref_unflat(flat)
    got = ctx.call('flatten', pat.flatten, specs.hostile(spec, ctx.rng, val),
                   free=False, validate_value=False)
    check_flat(ctx, got, spec.flat_len)
    back = ctx.call('fold', pat.fold, got, free=False, validate_value=False)
    equal_folded(ctx, 'nonfree-exact', spec, back, val)
    ctx.sig(spec.sig(), 'unvalidated')


def number_types(ctx):
    """Numeric arrays: ints, float32, lists and Python numbers."""
    spec = specs.gen_num(ctx.rng)
    if ctx.chance(0.6):
        lo = ctx.rint(-5, 5)
        spec.lb, spec.ub = ctx.pick([
            (lo, specs.INF), (-specs.INF, lo), (lo, lo + 9),
            (-specs.INF, specs.INF), (0, specs.INF)])
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    lo = spec.lb if spec.lb > -specs.INF else (
        spec.ub - 8 if spec.ub < specs.INF else -4)
    hi = spec.ub if spec.ub < specs.INF else lo + 8
    kind = ctx.pick(['int', 'f32', 'list', 'bool', 'scalar'])
    if hi - lo < 3:
        kind = 'list'
    if kind == 'int':
        val = ctx.rng.integers(int(np.ceil(lo)) + 1, int(hi) - 1,
                               spec.shape, endpoint=True)
    elif kind == 'f32':
        val = (lo + (hi - lo) * ctx.rng.uniform(0.1, 0.9, spec.shape)).astype(
            np.float32)
    elif kind == 'bool' and not spec.bound_kind():
        val = ctx.rng.random(spec.shape) < 0.5
    else:
        val = lo + (hi - lo) * ctx.rng.uniform(0.1, 0.9, spec.shape)
    given = val
    if kind == 'list':
        given = val.tolist()
    if kind == 'scalar' and spec.shape == (1,):
        given = ctx.pick([val[0], float(val[0])])
    flat = ctx.call('flatten', pat.flatten, given, free=False)
    check_flat(ctx, flat, spec.flat_len)
    back = ctx.call('fold', pat.fold, flat, free=False)
    equal_folded(ctx, 'nonfree-exact', spec, back, val)
    if kind != 'bool':
        flat = ctx.call('flatten', pat.flatten, given, free=True)
        check_flat(ctx, flat, spec.free_len)
        back = ctx.call('fold', pat.fold, flat, free=True)
        tol = spec.value_tol(val)
        if kind == 'f32':
            scale = np.abs(np.asarray(val, float).reshape(-1)) + \
                sum(abs(b) for b in (spec.lb, spec.ub) if np.isfinite(b))
            tol = tol + 1e-4 * scale * (1 + np.max(scale) / max(1e-3, hi - lo))
        equal_folded(ctx, 'free-close', spec, back,
                     np.asarray(val, dtype=float), tol)
    ctx.sig(spec.sig(), kind)


def retype(ctx, spec, val):
    """The value, rounded so that another type of number can hold it."""
    if isinstance(spec, specs.Dict):
        return {k: retype(ctx, s, val[k]) for k, s in spec.items}
    if isinstance(spec, specs.PSD):
        n, lb = spec.size, float(spec.diag_lb)
        m = ctx.rng.integers(-3, 4, size=(n, n))
        m = m + m.T
        np.fill_diagonal(m, 0)
        np.fill_diagonal(m, np.sum(np.abs(m), axis=1) +
                         int(np.ceil(lb)) + ctx.rng.integers(1, 4, n))
        return m.astype(ctx.pick([int, int, np.int32, np.float32]))
    if isinstance(spec, specs.Arr) and isinstance(spec.base, specs.PSD):
        return np.stack([retype(ctx, spec.base, None).astype(int) for _ in range(
            int(np.prod(spec.array_shape)))]).reshape(spec.shape)
    return val


def matrix_types(ctx):
    """Matrices of integers or of single precision."""
    spec = specs.PSD(ctx.rint(1, 5), ctx.pick([0, 0.0, 0.5, 1.25, 2, 0.1]))
    how = ctx.rint(0, 3)
    if how == 1:
        spec = specs.Arr(ctx.pick([(2,), (1, 2), (3,)]), spec)
    elif how == 2:
        spec = specs.Dict([('b', spec), ('a', specs.gen_leaf(ctx.rng, 0.5))])
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    val = retype(ctx, spec, spec.gen(ctx.rng))
    plain = specs.tree_map(lambda a: np.array(a, dtype=float), val)
    for free in (False, True):
        flat = ctx.call('flatten', pat.flatten, val, free=free)
        check_flat(ctx, flat, spec.free_len if free else spec.flat_len)
        back = ctx.call('fold', pat.fold, flat, free=free)
        if free:
            # (In single precision, if that is what the matrix was given in.)
            f32 = any(np.asarray(a).dtype == np.float32
                      for a in specs.tree_arrays(val))
            v = specs.flat_of(spec, plain)
            equal_folded(ctx, 'free-close', spec, back, plain,
                         spec.value_tol(plain) + f32 * 1e-4 * np.max(np.abs(v)))
        else:
            equal_folded(ctx, 'nonfree-exact', spec, back, plain)
    ctx.sig('matrix-types', spec.sig())


WORKLOADS = [('matrix-types', 1, matrix_types), ('mixed', 8, mixed), ('leaf', 4, leaf), ('big', 1, big),
             ('deep', 2, deep),
             ('boundary', 2, boundary), ('unvalidated', 2, unvalidated),
             ('number-types', 3, number_types)]
QUICK = 12000
THOROUGH = 60000
