"""One free mode for a whole container; how an unspecified mode resolves."""
import copy

import numpy as np

from .. import specs
from ..common import check_flat, check_folded, free_kw, equal_folded
from ..specs import Arr, Dict

RULE = ('Random pattern trees in which every pattern at every depth has its own '
        'free_default (True, False or None, often contradicting its container), '
        'asked with free omitted, None, True and False, before and after the '
        'default is reassigned.  The oracle is the same tree without any '
        'default, asked explicitly.  Distinct by structure, defaults and mode.')
REQUIRED = {'explicit-wins': 300, 'default-used': 300, 'no-mode-refused': 100,
            'member-default': 200}


def randomize(ctx, spec):
    for s in spec.walk():
        s.free_default = ctx.pick([True, False, None])


def plain(spec):
    s = copy.deepcopy(spec)
    for t in s.walk():
        t.free_default = None
    return s


def agree(ctx, monitor, spec, pat, ref, val, free, kw):
    n = spec.free_len if free else spec.flat_len
    a = ctx.call('flatten', pat.flatten, val, **kw)
    b = ctx.call('flatten ref', ref.flatten, val, free=free)
    check_flat(ctx, b, n)
    check_flat(ctx, a, n)
    # (Memory alignment changes the last bits of free values.)
    ctx.close(monitor, a, b, free * 1e-9 * (1 + np.abs(b)), 'flatten')
    x = ctx.rng.normal(size=n) if free else b
    fa = ctx.call('fold', pat.fold, x, **kw)
    fb = ctx.call('fold ref', ref.fold, x, free=free)
    check_folded(ctx, spec, fa)
    fb = specs.flat_of(spec, fb)
    ctx.close(monitor, spec.ref_flat(fa), fb, free * 1e-10 * (
        1 + np.abs(fb)), 'fold')
    ctx.check(monitor, ctx.call('flat_length', pat.flat_length, **kw) == n,
              'flat_length')
    flags = ctx.rng.random(spec.flat_len) < 0.3
    fb = spec.ref_unflat(flags)
    ia = ctx.call('flat_indices', pat.flat_indices, fb, **kw)
    ib = ctx.call('flat_indices ref', ref.flat_indices, fb, free=free)
    ctx.exact(monitor, np.asarray(ia, dtype=int), np.asarray(ib, dtype=int),
              'flat_indices')


def refused(ctx, spec, pat, val, kw):
    flat = spec.ref_flat(val)
    M = 'no-mode-refused'
    ctx.must_raise(M, ValueError, 'flatten', pat.flatten, val, **kw)
    ctx.must_raise(M, ValueError, 'fold', pat.fold, flat, **kw)
    ctx.must_raise(M, ValueError, 'flat_length', pat.flat_length, **kw)
    if not spec.flat_len:
        return      # nothing selected is answered at once
    on = spec.ref_unflat(np.ones(spec.flat_len, dtype=bool))
    ctx.must_raise(M, ValueError, 'flat_indices', pat.flat_indices, on, **kw)


def main(ctx):
    depth = ctx.rint(1, 3)
    spec = specs.gen_spec(ctx.rng, depth=depth) if ctx.chance(0.6) \
        else specs.gen_dict(ctx.rng, depth)
    randomize(ctx, spec)
    ctx.notes['spec'] = spec.describe()
    pat, ref = ctx.call('build', spec.build), plain(spec).build()
    val = spec.gen(ctx.rng)
    default = spec.free_default
    for step in range(3):
        for free in (True, False):
            agree(ctx, 'explicit-wins', spec, pat, ref, val, free,
                  {'free': free})
        kw = ctx.pick([{}, {'free': None}])
        if default is None:
            refused(ctx, spec, pat, val, kw)
        else:
            agree(ctx, 'default-used', spec, pat, ref, val, default, kw)
        ctx.sig(spec.describe(), default, step)
        # The default is an attribute, and can be reassigned.
        default = ctx.pick([True, False, None])
        pat.free_default = default if default is None or ctx.chance(0.7) \
            else np.bool_(default)


def members(ctx, spec, pat):
    if isinstance(spec, Dict):
        parts = [(s, pat[k]) for k, s in spec.items]
    elif isinstance(spec, Arr):
        parts = [(spec.base, pat.base_pattern())]
    else:
        parts = []
    for s, p in parts:
        members(ctx, s, p)
        ctx.check('member-default', p.free_default is s.free_default,
                  'the default of a member is {!r} and not {!r}'.format(
                      p.free_default, s.free_default))
        val = s.gen(ctx.rng)
        if s.free_default is None:
            refused(ctx, s, p, val, {})
        else:
            agree(ctx, 'default-used', s, p, plain(s).build(), val,
                  s.free_default, {})


def members_after(ctx):
    """A container in use leaves the defaults of its members alone."""
    spec = specs.gen_spec(ctx.rng, 0.6, depth=2)
    randomize(ctx, spec)
    ctx.notes['spec'] = spec.describe()
    pat, ref = ctx.call('build', spec.build), plain(spec).build()
    val = spec.gen(ctx.rng)
    for free in ctx.rng.permutation([True, False]):
        agree(ctx, 'explicit-wins', spec, pat, ref, val, bool(free),
              {'free': bool(free)})
        ctx.call('validate_folded', pat.validate_folded, val)
        ctx.call('empty', pat.empty, True)
        ctx.call('random', pat.random)
        ctx.call('empty_bool', pat.empty_bool, True)
        ctx.call('flat_names', pat.flat_names, bool(free))
        ctx.call('to_json', pat.to_json)
    pat.free_default = ctx.pick([True, False, None])
    members(ctx, spec, pat)
    ctx.sig(spec.describe(), 'members')


def contained(ctx):
    """Changing the default of a pattern already inside of a container."""
    items = [(specs.KEYS[i], specs.gen_array_valued(ctx.rng, 1, 0.6))
             for i in ctx.rng.permutation(len(specs.KEYS))[:ctx.rint(1, 4)]]
    spec = specs.Dict(items)
    randomize(ctx, spec)
    ctx.notes['spec'] = spec.describe()
    import paragami
    pat = paragami.PatternDict(free_default=spec.free_default)
    for k, s in spec.items:
        pat[k] = s.build()
    ref = plain(spec).build()
    val = spec.gen(ctx.rng)
    # Members keep their own defaults, and resolve them on their own.
    members(ctx, spec, pat)
    for _ in range(3):
        for k, _s in spec.items:
            pat[k].free_default = ctx.pick([True, False, None])
        for free in (True, False):
            agree(ctx, 'explicit-wins', spec, pat, ref, val, free,
                  {'free': free})
        if spec.free_default is not None:
            agree(ctx, 'default-used', spec, pat, ref, val, spec.free_default,
                  {})
        else:
            refused(ctx, spec, pat, val, {})
    ctx.sig(spec.describe(), 'contained')


WORKLOADS = [('main', 4, main), ('contained', 1, contained),
             ('members', 1, members_after)]
QUICK = 4000
THOROUGH = 60000
