"""The free map is one-to-one: free vectors are recovered."""
import numpy as np

from .. import specs
from ..common import check_flat, check_folded, flat_form, free_kw
from ..specs import INF

RULE = ('Random pattern trees; free vectors at several scales are folded and '
        'flattened again and must come back entry by entry, within a tolerance '
        'derived from the conditioning at that entry (entries where it exceeds '
        '1e-3 are left out); lengths against an independent count.  Distinct '
        'by structure and scale.')
REQUIRED = {'free-recovered': 400, 'length': 400}
ASSUMPTIONS = ['entries so close to a bound that doubles cannot tell them apart '
               'are not compared']


def one(ctx, spec, pat, scale):
    x = specs.gen_free(spec, ctx.rng, scale)
    tol = spec.free_tol(x)
    for _ in range(8):           # keep away from what doubles cannot resolve
        if np.all(np.isfinite(tol)):
            break
        x[~np.isfinite(tol)] *= 0.5
        tol = spec.free_tol(x)
    kw = free_kw(ctx, pat, True)
    val = ctx.call('fold', pat.fold, flat_form(ctx, x), **kw)
    check_folded(ctx, spec, val)
    back = ctx.call('flatten', pat.flatten,
                    specs.hostile(spec, ctx.rng, val), **kw)
    check_flat(ctx, back, spec.free_len)
    on = np.isfinite(tol)
    if np.any(on):
        ctx.close('free-recovered', back[on], x[on], tol[on],
                  'flatten(fold(x))', spec=spec.describe(), x=x)
        ctx.sig(spec.sig(), scale)
    # A nearby point must fold to a different value.
    j = ctx.rint(0, spec.free_len - 1)
    y = np.array(x, dtype=float)
    y[j] += 0.5
    if tol[j] < 1e-6 and spec.free_tol(y)[j] < 1e-6:
        other = ctx.call('fold', pat.fold, y, free=True)
        ctx.check('injective', not np.array_equal(
            specs.flat_of(spec, other), spec.ref_flat(val)),
            'moving free entry {} changes nothing'.format(j), x=x)


def lengths(ctx, spec, pat):
    for free, n in ((True, spec.free_len), (False, spec.flat_len)):
        got = ctx.call('flat_length', pat.flat_length, free=free)
        ctx.check('length', got == n and int(got) == got,
                  'flat_length(free={}) is {} and not {}'.format(free, got, n))


def mixed(ctx):
    spec = specs.gen_spec(ctx.rng, fd=0.2, dv=0.1)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    lengths(ctx, spec, pat)
    for _ in range(ctx.rint(1, 3)):
        one(ctx, spec, pat, ctx.pick([0.1, 0.5, 1.0, 2.0, 5.0, 12.0]))


def leaf(ctx):
    spec = specs.gen_leaf(ctx.rng, 2)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    lengths(ctx, spec, pat)
    for scale in (0.01, 0.5, 1.0, 3.0, 10.0, 60.0):
        one(ctx, spec, pat, scale)


def depths(ctx):
    """Very close to a bound of zero, and far along every exponential."""
    n = ctx.rint(1, 6)
    lo, hi = ctx.pick([(0.0, specs.INF), (-specs.INF, 0.0), (0, specs.INF),
                       (0.0, 1.0), (0.0, 1e-200), (-1e200, 0.0),
                       (-12.0, -11.0), (100.0, 101.0), (-45.5, -20.0),
                       (-1e4, -9e3), (-specs.INF, -30.0), (30.0, specs.INF)])
    spec = specs.Num((n,), lo, hi)
    if ctx.chance(0.3):
        spec = specs.Arr((2,), spec)
    elif ctx.chance(0.3):
        spec = specs.Dict([('a', spec), ('b', specs.Num((2,), 0.0))])
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for scale in (12.0, 20.0, 50.0, 150.0, 300.0):
        one(ctx, spec, pat, scale)


def near(ctx):
    """As near to two bounds as doubles can tell."""
    lo = ctx.pick([-12.0, 100.0, -45.5, 1e4, -1e4, 3.0, -3.0, -1.0, 0.25])
    hi = lo + ctx.pick([1.0, 0.5, 10.0, 1e3])
    n = ctx.rint(1, 6)
    spec = specs.Num((n,), lo, hi)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    x = ctx.rng.uniform(-30, 30, n)
    w = hi - lo
    d = np.minimum(w / (1 + np.exp(-x)), w / (1 + np.exp(x)))
    tol = 64 * np.finfo(float).eps * (
        2 * (abs(lo) + abs(hi) + w) / d + 1 + np.abs(x))
    val = ctx.call('fold', pat.fold, x, free=True)
    back = ctx.call('flatten', pat.flatten, val, free=True)
    check_flat(ctx, back, n)
    on = tol < 0.5
    if np.any(on):
        ctx.close('free-recovered', back[on], x[on], tol[on],
                  'flatten(fold(x)) near a bound', x=x)
    ctx.sig('near', lo, hi, n, int(np.sum(on)))


def recovered(ctx, spec, x, tol):
    pat = ctx.call('build', spec.build)
    back = ctx.call('flatten', pat.flatten,
                    ctx.call('fold', pat.fold, x, free=True), free=True)
    check_flat(ctx, back, spec.free_len)
    on = np.isfinite(tol) & (tol < 1e-3 * (1 + np.abs(x)))
    ctx.close('free-recovered', back[on], x[on], tol[on], 'flatten(fold(x))',
              spec=spec.describe(), x=x)


def wrap(ctx, spec, x, tol):
    """The same, perhaps within a container."""
    how = ctx.rint(0, 3)
    if how == 0:
        n = ctx.rint(2, 3)
        return specs.Arr((n,), spec), np.tile(x, n), np.tile(tol, n)
    if how == 1:
        return specs.Dict([('b', specs.Num((2,), 0.0)), ('a', spec)]), \
            np.hstack([[0.5, -1.0], x]), np.hstack([[1e-12] * 2, tol])
    return spec, x, tol


def far(ctx):
    """Matrices far from one in scale, or with one large free entry."""
    if ctx.chance(0.5):
        spec = specs.PSD(ctx.rint(1, 5))
        x = ctx.rng.normal(size=spec.free_len)
        tol = spec.free_tol(x)
        s = ctx.rng.uniform(-300, 300)
        i = np.tril_indices(spec.size)
        off = i[0] != i[1]
        x = np.where(off, x * np.exp(s), x + s)
        tol = np.where(off, tol * np.exp(s), tol + 1e-12)
    else:
        spec = specs.PSD(2)
        a, b = ctx.rng.normal(size=2)
        c = ctx.rng.normal() * 10.0 ** ctx.rng.uniform(0, 5.5)
        x = np.array([a, c, b])
        e = 64 * np.finfo(float).eps
        tol = e * np.array([1 + abs(a), 1 + abs(c),
                            1 + abs(b) + 1 + c ** 2 * np.exp(-2 * b)])
    ctx.sig('far', spec.sig(), int(np.log2(np.max(np.abs(x)))))
    spec, x, tol = wrap(ctx, spec, x, tol)
    ctx.notes['spec'] = spec.describe()
    recovered(ctx, spec, x, tol)


def unbounded(ctx):
    """Unbounded entries are their own free values, whatever their size."""
    n = ctx.rint(1, 6)
    spec = specs.Num((n,))
    x = ctx.rng.normal(size=n) * 10.0 ** ctx.rng.uniform(-307, 307, n)
    x[ctx.rng.random(n) < 0.1] = ctx.pick([5e-324, -1.5e308, 0.1])
    ctx.sig('unbounded', n, int(np.log10(np.max(np.abs(x)))))
    spec, x, tol = wrap(ctx, spec, x, np.zeros(n))
    ctx.notes['spec'] = spec.describe()
    recovered(ctx, spec, x, tol)


def whole(ctx):
    """Free vectors of integers and of extended precision."""
    spec = specs.gen_spec(ctx.rng, fd=0.2) if ctx.chance(0.5) else \
        specs.gen_leaf(ctx.rng, 2)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    x = ctx.rng.integers(-3, 4, spec.free_len).astype(float)
    form = ctx.pick(['int64', 'int32', 'uint32', 'longdouble'])
    if form == 'uint32':
        x = np.abs(x)
    tol = spec.free_tol(x)
    if not np.all(np.isfinite(tol)):     # singular to double precision
        x = np.minimum(np.maximum(x, -1.0), 1.0) * (np.arange(x.size) % 3 == 0)
        tol = spec.free_tol(x)
    if ctx.chance(0.5):
        given = x.astype(form)
    else:
        given = np.repeat(x.astype(form), 2)[::2]
    val = ctx.call('fold', pat.fold, given, free=True)
    check_folded(ctx, spec, val)
    back = ctx.call('flatten', pat.flatten, val, free=True)
    on = np.isfinite(tol)
    ctx.close('free-recovered', np.asarray(back, dtype=float)[on], x[on],
              tol[on], 'flatten(fold(x)) of ' + form, spec=spec.describe(),
              x=x)
    ref = ctx.call('fold', pat.fold, x, free=True)
    a, b = specs.flat_of(spec, val), specs.flat_of(spec, ref)
    ctx.close('same-fold', np.asarray(a, dtype=float), b,
              1e-12 * (1 + np.abs(b)), form)
    ctx.sig('whole', spec.sig(), form)


def big(ctx):
    spec = specs.gen_big(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    lengths(ctx, spec, pat)
    one(ctx, spec, pat, ctx.pick([0.1, 1.0, 3.0]))


def huge(ctx):
    """Tens of thousands of entries."""
    n = ctx.rint(33000, 80000)
    k = ctx.rint(2, 5)
    spec = ctx.pick([
        lambda: specs.Num((n,), *ctx.pick([(), (0.0,), (-1.0, 2.0)])),
        lambda: specs.Num((ctx.pick([2, n // k]), k), 0.0),
        lambda: specs.Simplex(k, (n // k + 1,)),
        lambda: specs.Simplex(2, (2, n // 2)),
        lambda: specs.Simplex(n, ()),
        lambda: specs.PSD(ctx.rint(182, 200)),
        lambda: specs.Dict([('a', specs.Num((n,), 0.0)),
                            ('b', specs.Num((3,)))]),
    ])()
    if isinstance(spec, specs.PSD):    # lengths alone, for their cost
        pat = ctx.call('build', spec.build)
        lengths(ctx, spec, pat)
    else:
        pat = ctx.call('build', spec.build)
        lengths(ctx, spec, pat)
        one(ctx, spec, pat, ctx.pick([0.1, 1.0]))
    # Arrays of arrays advertise as much without holding any.
    m = ctx.rint(200, 3000)
    for base in (specs.Num((ctx.rint(20, 60),)), specs.PSD(ctx.rint(10, 30)),
                 specs.Simplex(ctx.rint(20, 60), ())):
        arr = specs.Arr((ctx.rint(3, 9), m), base)
        lengths(ctx, arr, ctx.call('build', arr.build))
    ctx.sig('huge', spec.sig())


WORKLOADS = [('mixed', 150, mixed), ('leaf', 125, leaf), ('big', 25, big),
             ('depths', 25, depths), ('near', 15, near), ('far', 50, far),
             ('unbounded', 25, unbounded), ('whole', 25, whole),
             ('huge', 1, huge)]
QUICK = 15000
THOROUGH = 150000
