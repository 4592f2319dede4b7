"""Layout of flat vectors."""
import numpy as np

from .. import specs
from ..common import check_flat, check_folded, free_kw, flat_form, equal_folded
from ..specs import Arr, Dict

RULE = ('Random pattern trees.  Non-free vectors are compared exactly with an '
        'independent row-major layout (each entry carries a distinct number); '
        'free and non-free vectors of containers are compared exactly with the '
        'concatenation of what the component patterns, built separately, give. '
        'Distinct by structure.')
REQUIRED = {'nonfree-layout': 300, 'container-concatenation': 300,
            'container-fold': 300}


def nonfree(ctx, spec, pat):
    kind = ctx.rint(0, 2)
    if kind == 0:
        flat = np.arange(spec.flat_len) * 1.0
    elif kind == 1:
        flat = np.arange(spec.flat_len)
    else:
        flat = ctx.rng.permutation(spec.flat_len) + 0.5
    val = spec.ref_unflat(flat)
    got = ctx.call('flatten', pat.flatten, specs.hostile(spec, ctx.rng, val),
                   free=False, validate_value=False)
    check_flat(ctx, got, spec.flat_len)
    ctx.exact('nonfree-layout', got, flat, 'layout of the non-free vector')
    back = ctx.call('fold', pat.fold, flat_form(ctx, flat), free=False,
                    validate_value=False)
    equal_folded(ctx, 'nonfree-layout', spec, back, val, None,
                 'layout of the folded value')
    ctx.sig(spec.sig(), 'nonfree', kind)


def parts(spec, val=None):
    """(component spec, component value) in the documented order."""
    if isinstance(spec, Dict):
        return [(s, None if val is None else val[k]) for k, s in spec.items]
    return [(spec.base, None if val is None else val[it])
            for it in spec.items()]


def container(ctx, spec, pat):
    val = spec.gen(ctx.rng, 'typical')
    for free in (True, False):
        want = []
        for s, v in parts(spec, val):
            sub = ctx.call('build part', s.build)
            want.append(ctx.call('flatten part', sub.flatten, v, free=free))
        got = ctx.call('flatten', pat.flatten,
                       specs.hostile(spec, ctx.rng, val), free=free)
        check_flat(ctx, got, spec.free_len if free else spec.flat_len)
        # A different memory layout may round differently inside of LAPACK.
        w = np.hstack(want) if want else np.zeros(0)
        if free:
            ctx.close('container-concatenation', got, w,
                      1e-9 * (1 + np.abs(w)), 'free={}'.format(free))
        else:
            ctx.exact('container-concatenation', got, w)

        n = [s.free_len if free else s.flat_len for s, _ in parts(spec)]
        x = specs.gen_free(spec, ctx.rng, 1.0) if free else got
        whole = ctx.call('fold', pat.fold, flat_form(ctx, x), free=free)
        check_folded(ctx, spec, whole)
        off = 0
        for (s, v), m in zip(parts(spec, whole), n):
            piece = ctx.call('fold part', s.build().fold, x[off:off + m],
                             free=free)
            off += m
            ctx.close('container-fold', s.ref_flat(v), specs.flat_of(s, piece),
                      1e-12 * (1 + np.abs(s.ref_flat(v))))
        ctx.sig(spec.sig(), free)


def mixed(ctx):
    spec = specs.gen_spec(ctx.rng, fd=0.2, dv=0.1)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    nonfree(ctx, spec, pat)
    for s in spec.walk():
        if isinstance(s, (Dict, Arr)):
            p = pat if s is spec else ctx.call('build inner', s.build)
            container(ctx, s, p)


def order(ctx):
    """Keys in adversarial orders, with replaced and re-added entries."""
    import paragami
    rng = ctx.rng
    n = ctx.rint(2, 14)
    keys = [specs.KEYS[i] for i in rng.permutation(len(specs.KEYS))[:n]]
    if ctx.chance(0.3):
        keys = sorted(keys, reverse=ctx.chance(0.5))
    if ctx.chance(0.2):               # all alike
        one = specs.Num((1,), cls='scalar') if ctx.chance(0.6) else \
            specs.gen_leaf(rng, 0.3)
        items = [(k, one) for k in keys]
    else:
        items = [(k, specs.gen_leaf(rng, 0.4)) for k in keys]
    pat = paragami.PatternDict()
    for k, s in items:
        pat[k] = s.build()
    for _ in range(ctx.rint(0, 3)):
        i = ctx.rint(0, len(items) - 1)
        k = items[i][0]
        new = specs.gen_leaf(rng, 0.4)
        if ctx.chance(0.5):           # replacing keeps the place
            pat[k] = new.build()
            items[i] = (k, new)
        else:                         # re-adding moves to the end
            del pat[k]
            pat[k] = new.build()
            del items[i]
            items.append((k, new))
    spec = specs.Dict(items)
    ctx.notes['spec'] = spec.describe()
    nonfree(ctx, spec, pat)
    container(ctx, spec, pat)


def big(ctx):
    spec = specs.gen_big(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    nonfree(ctx, spec, ctx.call('build', spec.build))


WORKLOADS = [('mixed', 7, mixed), ('order', 3, order), ('big', 1, big)]
QUICK = 7000
THOROUGH = 90000
