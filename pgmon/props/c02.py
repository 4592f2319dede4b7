"""Every finite free vector folds into the constraint set."""
import numpy as np

from .. import specs
from ..common import check_folded, check_flat, equal_folded, flat_form, free_kw
from ..specs import INF

RULE = ('Random pattern trees folded at free vectors from typical to extreme '
        '(one-sided bounds and PSD up to the overflow limit of doubles, '
        'simplexes and two-sided bounds to 1e300), structured (one huge entry, '
        'all equal, alternating, integer typed, zero).  Membership is decided '
        'by an independent definition of the set and by the pattern itself. '
        'Distinct by structure and kind of vector.')
REQUIRED = {'in-constraint-set': 400, 'accepted-by-pattern': 400}


def free_vec(ctx, spec, kind):
    rng, n = ctx.rng, spec.free_len
    if kind == 'typical':
        x = specs.gen_free(spec, rng)
    elif kind == 'zero':
        x = np.zeros(n)
    elif kind == 'wide':
        x = rng.normal(size=n) * 10.0 ** rng.uniform(-12, 2.4, n)
    elif kind == 'one-huge':
        x = rng.normal(size=n)
        x[int(rng.integers(n))] = ctx.pick([-1, 1]) * 10.0 ** rng.uniform(1, 300)
    elif kind == 'all-huge':
        x = rng.choice([-1.0, 1.0], n) * 10.0 ** rng.uniform(1, 300)
    elif kind == 'equal':
        x = np.full(n, ctx.pick([-1, 1]) * 10.0 ** rng.uniform(0, 3))
    elif kind == 'int':
        x = rng.integers(-30, 31, n)
    elif kind == 'edge-exp':
        x = rng.choice([-745.2, -709.0, -38.0, -36.7, 36.0, 36.8, 37.5, 38.0,
                        690.0, 709.0, 710.0, 1e4], n) + rng.normal(size=n)
    elif kind == 'tiny':
        x = rng.normal(size=n) * 10.0 ** rng.uniform(-320, -8, n)
    # Where exp overflows there is no finite value to speak of.
    safe = spec.free_safe(x)
    if not np.all(safe):
        y = np.clip(x, -290, 290)
        x = np.where(safe, x, y)
    return x


KINDS = ['typical', 'typical', 'zero', 'wide', 'one-huge', 'all-huge', 'equal',
         'int', 'edge-exp', 'tiny']


def one(ctx, spec, pat, kind):
    x = free_vec(ctx, spec, kind)
    kw = free_kw(ctx, pat, True)
    ctx.notes['x'] = repr(x[:50])
    val = ctx.call('fold', pat.fold, flat_form(ctx, x), **kw)
    check_folded(ctx, spec, val)
    ctx.check('in-constraint-set', spec.in_set(val),
              'a free vector folded to a value outside of the set',
              x=x, value=val, spec=spec.describe())
    ok, msg = ctx.call('validate_folded', pat.validate_folded, val,
                       validate_value=True)
    ctx.check('accepted-by-pattern', ok,
              'the pattern rejects what it folded: {}'.format(msg),
              x=x, value=val)
    flat = ctx.call('flatten', pat.flatten, val, free=False,
                    validate_value=True)
    check_flat(ctx, flat, spec.flat_len)
    back = ctx.call('fold', pat.fold, flat, free=False, validate_value=True)
    equal_folded(ctx, 'nonfree-exact', spec, back, val)
    ctx.sig(spec.sig(), kind)


def mixed(ctx):
    spec = specs.gen_spec(ctx.rng, fd=0.2, dv=0.1)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for _ in range(ctx.rint(1, 4)):
        one(ctx, spec, pat, ctx.pick(KINDS))


def leaf(ctx):
    spec = specs.gen_leaf(ctx.rng, 2)
    if isinstance(spec, specs.Num) and ctx.chance(0.3):
        # bounds where rounding matters
        a = float(ctx.rng.normal()) * 10.0 ** ctx.rint(-6, 9)
        w = 10.0 ** float(ctx.rng.uniform(-9, 9))
        if a + w > a:
            spec.lb, spec.ub = a, a + w
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for kind in KINDS[1:]:
        one(ctx, spec, pat, kind)


def big(ctx):
    spec = specs.gen_big(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    one(ctx, spec, pat, ctx.pick(KINDS))


def wide(ctx):
    """Simplexes of many entries."""
    spec = specs.Simplex(ctx.rint(80, 1500), ctx.pick([(), (1,), (2,)]))
    if ctx.chance(0.3):
        spec = specs.Dict([('x', spec), ('y', specs.Num((2,), 0.0))])
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for kind in ('typical', ctx.pick(KINDS)):
        one(ctx, spec, pat, kind)


def narrow(ctx):
    """Simplexes and matrices work in double precision whatever they get."""
    rng = ctx.rng
    spec = specs.gen_simplex(rng) if ctx.chance(0.6) else specs.gen_psd(rng)
    if ctx.chance(0.3):
        spec = specs.Arr(specs.gen_outer(rng), spec)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for _ in range(3):
        dt = ctx.pick(['float32', 'float16', 'int8', 'int32', 'uint8'])
        x = rng.normal(size=spec.free_len) * ctx.pick([0.5, 3.0, 30.0])
        x = np.clip(x, 0 if dt[0] == 'u' else -100, 100).astype(dt)
        ctx.notes['x'] = repr(x[:50])
        val = ctx.call('fold', pat.fold, x, **free_kw(ctx, pat, True))
        check_folded(ctx, spec, val)
        ctx.check('in-constraint-set', spec.in_set(np.asarray(val, dtype=float)),
                  'a free vector folded to a value outside of the set',
                  x=x, value=val, spec=spec.describe())
        ok, msg = ctx.call('validate_folded', pat.validate_folded, val,
                           validate_value=True)
        ctx.check('accepted-by-pattern', ok,
                  'the pattern rejects what it folded: {}'.format(msg),
                  x=x, value=val)
        ctx.sig(spec.sig(), dt)


WORKLOADS = [('mixed', 6, mixed), ('leaf', 5, leaf), ('big', 1, big),
             ('narrow', 1, narrow), ('wide', 1, wide)]
QUICK = 12500
THOROUGH = 150000
