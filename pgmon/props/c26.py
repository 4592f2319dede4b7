"""Factories and accessors: empty, random, empty_bool, shapes and bounds."""
import numpy as np

from .. import specs
from ..common import check_flat, check_folded, equal_folded, free_kw
from ..specs import Arr, Dict

RULE = ('Random pattern trees; valid and arbitrary empty values, random '
        'values and boolean masks checked for structure, membership in the '
        'constraint set, use in every operation, and independence of their '
        'parts from one another, from later calls and from the pattern; '
        'accessors against what the pattern was built from.  Distinct by '
        'pattern structure.')
REQUIRED = {'empty-valid': 300, 'random': 300, 'mask': 300,
            'independent-parts': 200, 'accessor': 500}


def usable(ctx, monitor, spec, pat, val):
    """A value in the constraint set which every operation takes."""
    check_folded(ctx, spec, val)
    ctx.check(monitor, spec.in_set(val), 'not in the constraint set', val=val)
    ok = ctx.call('validate_folded', pat.validate_folded, val,
                  validate_value=True)
    ctx.check(monitor, ok[0] is True or ok[0] == True, 'refused: {}'.format(  # noqa
        ok[1]))
    for free in (False, True):
        flat = ctx.call('flatten', pat.flatten, val, validate_value=True,
                        **free_kw(ctx, pat, free))
        check_flat(ctx, flat, spec.free_len if free else spec.flat_len)
        ctx.check(monitor, np.all(np.isfinite(flat)), 'not finite', flat=flat)
        back = ctx.call('fold', pat.fold, flat, free=free)
        equal_folded(ctx, monitor, spec, back, val,
                     spec.value_tol(val) if free else None, 'round trip')


def factories(ctx):
    spec = specs.gen_spec(ctx.rng, fd=0.2, dv=0.2) if ctx.chance(0.97) else \
        specs.gen_big(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for op in ctx.rng.permutation(['valid', 'invalid', 'random', 'mask']):
        if op == 'valid':
            val = ctx.call('empty', pat.empty, True)
            usable(ctx, 'empty-valid', spec, pat, val)
            equal_folded(ctx, 'empty-valid', spec,
                         ctx.call('empty', pat.empty, valid=True), val, None,
                         'repeated')
        elif op == 'invalid':
            val = ctx.call('empty', pat.empty, valid=False)
            check_folded(ctx, spec, val)
            for a in specs.tree_arrays(val):
                ctx.check('empty-invalid', a.dtype.kind == 'f', 'not float')
        elif op == 'random':
            one = ctx.call('random', pat.random)
            two = ctx.call('random', pat.random)
            usable(ctx, 'random', spec, pat, one)
            usable(ctx, 'random', spec, pat, two)
            drawn = []
            for p, l, f, _ in specs.leaves(spec):
                a = spec.ref_flat(one)[f:f + l.flat_len]
                b = spec.ref_flat(two)[f:f + l.flat_len]
                ctx.check('random', not l.flat_len or not np.array_equal(a, b),
                          'the same draw twice', path=p)
                if isinstance(l, specs.Num) and l.bound_kind() == '':
                    drawn.append(a)
            drawn = np.hstack(drawn) if drawn else np.zeros(0)
            ctx.check('random', len(np.unique(drawn)) == len(drawn),
                      'the same draw for several entries', drawn=drawn)
        else:
            for v in (True, False):
                m = ctx.call('empty_bool', pat.empty_bool, v)
                check_folded(ctx, spec, m)
                for a in specs.tree_arrays(m):
                    ctx.check('mask', a.dtype == bool and np.all(a == v),
                              'not all {}'.format(v), mask=a)
                for free in (False, True):
                    inds = ctx.call('flat_indices', pat.flat_indices, m,
                                    free=free)
                    n = (spec.free_len if free else spec.flat_len) if v else 0
                    ctx.exact('mask', np.asarray(inds), np.arange(n),
                              'indices of a full or an empty mask')
    ctx.sig(spec.sig())


def arrays_with_paths(spec, val, path=()):
    """Every separately addressable part of a folded value."""
    if isinstance(spec, Dict):
        for k, s in spec.items:
            yield from arrays_with_paths(s, val[k], path + (k,))
    elif isinstance(spec, Arr):
        for it in spec.items():
            yield path + (it,), val[it]
    else:
        yield path, val


def parts(ctx):
    """Writing into one part of a made value changes nothing else."""
    # The same pattern object under several keys, on purpose.
    base = specs.gen_array_valued(ctx.rng, 1, 0.6, custom=False)
    n = ctx.rint(2, 4)
    keys = [specs.KEYS[i] for i in ctx.rng.permutation(len(specs.KEYS))[:n]]
    spec = Dict([(k, base) for k in keys])
    if ctx.chance(0.5):
        import paragami
        shared = base.build()
        pat = paragami.PatternDict()
        for k in keys:
            pat[k] = shared
    else:
        pat = spec.build()
    if ctx.chance(0.3):
        spec = base = Arr((ctx.rint(2, 4),), base)
        pat = base.build()
    make = ctx.pick(['empty', 'random', 'mask', 'fold'])
    if make == 'empty':
        fn = lambda: pat.empty(True)                     # noqa: E731
    elif make == 'random':
        fn = lambda: pat.random()                        # noqa: E731
    elif make == 'mask':
        fn = lambda: pat.empty_bool(False)               # noqa: E731
    else:
        x = specs.gen_free(spec, ctx.rng, 1.0)
        fn = lambda: pat.fold(x, free=True)              # noqa: E731
    val = ctx.call(make, fn)
    check_folded(ctx, spec, val)
    todo = list(arrays_with_paths(spec, val))
    path, part = todo[ctx.rint(0, len(todo) - 1)]
    before = {p: np.array(a) for p, a in todo}
    other = ctx.call(make, fn)
    other_before = spec.ref_flat(other)
    ctx.check('independent-parts', part.flags.writeable, 'not writeable')
    new = np.logical_not(part) if part.dtype == bool else part + 1.0
    part[...] = new
    for p, a in arrays_with_paths(spec, val):
        ctx.exact('independent-parts', a, new if p == path else before[p],
                  'part {} after writing to {}'.format(p, path))
    ctx.exact('independent-parts', spec.ref_flat(other), other_before,
              'a second value')
    if make in ('empty', 'mask', 'fold'):
        again = ctx.call(make, fn)
        want = other_before
        ctx.close('independent-parts', spec.ref_flat(again) * 1.0, want * 1.0,
                  1e-12 * (1 + np.abs(want * 1.0)), 'a later value')
    if make == 'mask':
        on = np.flatnonzero(spec.ref_flat(val))
        ctx.exact('mask', ctx.call('flat_indices', pat.flat_indices, val,
                                   free=False), on, 'indices after setting')
    ctx.sig(make, spec.sig())


def repeated(ctx):
    """Values made one after another by one pattern, each written to."""
    spec = specs.gen_spec(ctx.rng, 0.5, fd=0.2)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    kinds = ctx.rng.permutation(['mask', 'empty', 'random'])[:ctx.rint(1, 3)]
    first, kept = {}, []
    for i in range(ctx.rint(6, 30)):
        kind = str(ctx.pick(list(kinds)))
        on = ctx.chance(0.5)
        if kind == 'mask':
            val = ctx.call('empty_bool', pat.empty_bool, ctx.pick(
                [on, on, np.bool_(on), int(on), np.array(on)]))
        elif kind == 'empty':
            val = ctx.call('empty', pat.empty, True)
        else:
            val = ctx.call('random', pat.random)
        check_folded(ctx, spec, val)
        flat = spec.ref_flat(val)
        if kind == 'mask':
            ctx.check('mask', flat.dtype == bool and np.all(flat == on),
                      'mask {} is not all {}'.format(i, on))
        elif kind == 'empty':
            ctx.exact('empty-valid', flat, first.setdefault('empty', flat),
                      'empty value {}'.format(i))
        else:
            ctx.check('random', spec.in_set(val), 'not in the constraint set')
            ctx.check('random', not flat.size or not np.array_equal(
                first.get('random'), flat) or all(
                    isinstance(s, specs.Simplex) and s.size == 1
                    for _, s, _, _ in specs.leaves(spec)),
                'the same draw again')
            first.setdefault('random', flat)
        for path, part in arrays_with_paths(spec, val):
            ctx.check('independent-parts', part.flags.writeable,
                      'part {} of value {} is not writeable'.format(path, i))
            part[...] = ~part if part.dtype == bool else part + 7.0
        for j, (other, was) in enumerate(kept):
            ctx.exact('independent-parts', spec.ref_flat(other), was,
                      'value {} after making {}'.format(j, i))
        kept = (kept + [(val, spec.ref_flat(val))])[-5:]
    ctx.sig('repeated', spec.sig(), tuple(kinds))


def draws(ctx):
    """Long random values: every entry is drawn anew."""
    n = ctx.rint(20, 400)
    spec = specs.Num((n,)) if ctx.chance(0.4) else Dict(
        [(k, specs.Num((ctx.rint(1, 60),))) for k in ('a', 'b', 'c')])
    pat = ctx.call('build', spec.build)
    a = spec.ref_flat(ctx.call('random', pat.random))
    b = spec.ref_flat(ctx.call('random', pat.random))
    both = np.hstack([a, b])
    ctx.check('random', len(np.unique(both)) == len(both),
              'the same draw for several entries')
    ctx.sig('draws', spec.sig())


def accessors(ctx):
    spec = specs.gen_spec(ctx.rng, fd=0.3, dv=0.3) if ctx.chance(0.97) else \
        specs.gen_big(ctx.rng)
    if ctx.chance(0.04):
        # Many scalars, or other small parts.
        spec = specs.Arr((ctx.rint(5, 12), ctx.rint(5, 12)), ctx.pick([
            specs.Num((1,), cls='scalar'), specs.Num((1,)), specs.PSD(1),
            specs.Simplex(2, (1,))]))
    pat = ctx.call('build', spec.build)

    def visit(s, p):
        for free, n in ((False, s.flat_len), (True, s.free_len)):
            got = ctx.call('flat_length', p.flat_length, free=free)
            ctx.check('accessor', got == n, 'flat_length({}) is {} and not {} '
                      'for {}'.format(free, got, n, s))
        ctx.check('accessor', p.free_default is s.free_default,
                  'free_default of {}'.format(s))
        if s.free_default is not None:
            ctx.check('accessor', ctx.call('flat_length', p.flat_length) ==
                      (s.free_len if s.free_default else s.flat_len),
                      'default flat_length of {}'.format(s))
        if isinstance(s, Dict):
            ctx.check('accessor', list(p.keys()) == [k for k, _ in s.items],
                      'keys')
            for k, c in s.items:
                visit(c, p[k])
            return
        if isinstance(s, specs.Custom):
            return
        ctx.check('accessor', tuple(ctx.call('shape', p.shape)) == s.shape,
                  'shape of {}'.format(s))
        if isinstance(s, Arr):
            ctx.check('accessor', tuple(p.array_shape()) == s.array_shape,
                      'array_shape')
            visit(s.base, p.base_pattern())
        elif isinstance(s, specs.Num):
            ctx.check('accessor', tuple(p.bounds()) == (s.lb, s.ub), 'bounds')
            if s.cls == 'vector':
                ctx.check('accessor', p.length() == s.shape[0], 'length')
        elif isinstance(s, specs.PSD):
            ctx.check('accessor', p.size() == s.size and
                      p.diag_lb() == s.diag_lb, 'size and bound')
        elif isinstance(s, specs.Simplex):
            ctx.check('accessor', tuple(p.array_shape()) == s.array_shape and
                      p.simplex_size() == s.size, 'simplex shape')
        if hasattr(s, 'default_validate'):
            ctx.check('accessor', p.default_validate == s.default_validate,
                      'default_validate')
    visit(spec, pat)
    ctx.check('accessor', isinstance(ctx.call('str', str, pat), str), 'str')
    ctx.sig('accessors', spec.sig())


WORKLOADS = [('factories', 4, factories), ('parts', 2, parts),
             ('accessors', 2, accessors), ('draws', 1, draws),
             ('repeated', 1, repeated)]
QUICK = 7400
THOROUGH = 60000
