"""flat_indices points at the flat entries behind folded entries."""
import numpy as np

from .. import specs
from ..common import free_kw, check_folded, check_flat, snapshot
from ..specs import Arr, Dict, Num

RULE = ('Random pattern trees and selections (none, one entry, one leaf, sparse, '
        'half, all; in hostile memory layouts).  Non-free indices against the '
        'independent layout; free indices by observing which folded entries move '
        'when free entries outside of them are moved (none of the selected), and '
        'by membership in the blocks the selection touches.  Distinct by '
        'structure, mode and selection kind.')
REQUIRED = {'nonfree-exact': 300, 'free-sound': 200, 'free-local': 300,
            'index-form': 500}


def selection(ctx, spec, kind):
    n = spec.flat_len
    b = np.zeros(n, dtype=bool)
    if kind == 'one':
        b[ctx.rint(0, n - 1)] = True
    elif kind == 'leaf':
        ls = list(specs.leaves(spec))
        _, l, fo, _ = ctx.pick(ls)
        b[fo:fo + l.flat_len] = True
    elif kind == 'sparse':
        b = ctx.rng.random(n) < 0.1
    elif kind == 'half':
        b = ctx.rng.random(n) < 0.5
    elif kind == 'all':
        b[:] = True
    elif kind == 'ends':
        b[0] = b[-1] = True
    return b


def one(ctx, spec, pat, kind):
    flags = selection(ctx, spec, kind)
    given = specs.hostile(spec, ctx.rng, spec.ref_unflat(flags))
    want = np.flatnonzero(flags)
    res, before = {}, snapshot(given)
    for free in (False, True):
        kw = free_kw(ctx, pat, free)
        ind = ctx.call('flat_indices', pat.flat_indices, given, **kw)
        n = spec.free_len if free else spec.flat_len
        ctx.check('index-form', isinstance(ind, np.ndarray) and ind.ndim == 1
                  and ind.dtype.kind in 'iu', 'not a vector of integers',
                  indices=ind)
        ctx.check('index-form', np.all((ind >= 0) & (ind < n)) and
                  len(np.unique(ind)) == len(ind),
                  'out of range or repeated', indices=ind)
        res[free] = np.array(ind)
        ctx.check('selection-intact', snapshot(given) == before,
                  'the selection was changed')
        if ctx.chance(0.3):
            ind[...] = 0        # the caller's to change
            again = ctx.call('flat_indices', pat.flat_indices, given, **kw)
            ctx.exact('asked-again', again, res[free],
                      'other indices at the second call')
    ctx.exact('nonfree-exact', np.sort(res[False]), want, 'free=False')
    # What the indices are for: reading the selected entries off the vector.
    vec = np.arange(spec.flat_len) + 0.5
    ctx.exact('nonfree-exact', vec[res[False]], vec[flags],
              'the order of the selected entries')
    # Free: only blocks which were touched, all of the scalar ones.
    allowed, needed = set(), set()
    for f, r in spec.blocks():
        if np.any(flags[f]):
            allowed |= set(r.tolist())
            if len(f) == 1:
                needed |= set(r.tolist())
    got = set(res[True].tolist())
    ctx.check('free-local', got <= allowed,
              'free indices of untouched parameters', indices=res[True],
              selected=want, spec=spec.describe())
    ctx.check('free-local', needed <= got, 'free indices are missing',
              indices=res[True], selected=want, spec=spec.describe())
    # Moving everything else leaves the selected entries alone.
    rest = np.setdiff1d(np.arange(spec.free_len), res[True])
    x = ctx.rng.normal(size=spec.free_len)
    v0 = specs.flat_of(spec, ctx.call('fold', pat.fold, x, free=True))
    if len(rest) and np.any(flags):
        y = np.array(x)
        y[rest] += ctx.rng.normal(size=len(rest)) + 0.1
        v1 = specs.flat_of(spec, ctx.call('fold', pat.fold, y, free=True))
        ctx.close('free-sound', v1[flags], v0[flags],
                  1e-13 * (1 + np.abs(v0[flags])),
                  'a selected entry moved with a free entry outside of the '
                  'indices', indices=res[True], selected=want,
                  spec=spec.describe())
    ctx.sig(spec.sig(), kind)


KINDS = ['none', 'one', 'one', 'leaf', 'sparse', 'half', 'all', 'ends']


def mixed(ctx):
    spec = specs.gen_spec(ctx.rng, fd=0.2)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for _ in range(4):
        one(ctx, spec, pat, ctx.pick(KINDS))


def leaf(ctx):
    spec = specs.gen_leaf(ctx.rng, 1.5)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for kind in KINDS:
        one(ctx, spec, pat, kind)


def big(ctx):
    spec = specs.gen_big(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    one(ctx, spec, pat, ctx.pick(KINDS))


def huge(ctx):
    """More entries than small integers count."""
    s = specs.gen_bounds(ctx.rng)
    k = ctx.rint(0, 3)
    n = ctx.rint(33000, 40000) if ctx.chance(0.7) else ctx.rint(66000, 70000)
    if k == 0:
        spec = Arr((n // 300 + 1,), Num((300,), *s))
    elif k == 1:
        spec = Dict([('a', specs.PSD(2)), ('b', Num((n,), *s)),
                     ('c', specs.Simplex(3, ())), ('d', Num((5,), 0.0))])
    elif k == 2:
        spec = Dict([('a', specs.Simplex(4, (n // 8, 2))), ('b', Num((4,)))])
    else:
        spec = Num((n // 4 + 1, 4), *s)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    flags = np.zeros(spec.flat_len, dtype=bool)
    flags[-1] = True
    flags[ctx.rng.integers(0, spec.flat_len, 20)] = True
    given = spec.ref_unflat(flags)
    got = ctx.call('flat_indices', pat.flat_indices, given, free=False)
    ctx.exact('nonfree-exact', np.asarray(got), np.flatnonzero(flags),
              'of many entries')
    got = ctx.call('flat_indices', pat.flat_indices, given, free=True)
    ctx.check('index-form', got.dtype.kind in 'iu' and got.ndim == 1 and
              len(got) and np.min(got) >= 0 and
              np.max(got) < spec.free_len, 'out of range', indices=got)
    allowed = set()
    for p, l, fo, ro in specs.leaves(spec):
        on = np.flatnonzero(flags[fo:fo + l.flat_len])
        if not len(on):
            continue
        if isinstance(l, Num):
            allowed |= set((on + ro).tolist())
        elif isinstance(l, specs.Simplex):
            for row in np.unique(on // l.size):
                allowed |= set((ro + row * (l.size - 1) +
                                np.arange(l.size - 1)).tolist())
        else:
            allowed |= set(range(ro, ro + l.free_len))
    ctx.check('free-local', set(np.asarray(got).tolist()) <= allowed,
              'free indices of untouched parameters among many')
    ctx.sig('huge', k, n > 60000)


WORKLOADS = [('mixed', 240, mixed), ('leaf', 80, leaf), ('big', 40, big),
             ('huge', 1, huge)]
QUICK = 12000
THOROUGH = 100000
