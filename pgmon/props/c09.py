"""flat_names labels the entries of flat vectors."""
import itertools

import numpy as np

from .. import specs
from ..specs import Arr, Dict, Num

RULE = ('Random pattern trees; names in both modes are compared, entry by entry '
        'in flat order, with labels built independently: numeric entries carry '
        'their index, dictionaries prefix the names of their members with key '
        'and delimiter, other patterns number their entries.  Distinct by '
        'structure, mode and delimiter.')
REQUIRED = {'names-exact': 300, 'names-length': 300}


def ref_names(spec, free, delim='_'):
    if isinstance(spec, Dict):
        out = []
        for k, s in spec.items:
            out += [k + delim + n for n in ref_names(s, free)]
        return out
    if isinstance(spec, Num):
        return spec.ref_names()
    return [str(i) for i in range(spec.free_len if free else spec.flat_len)]


def one(ctx, spec, pat):
    for free in (True, False):
        if isinstance(spec, Dict) and ctx.chance(0.5):
            delim = ctx.pick(['_', '.', '', '::', ' / ', '__', '\n', 'é'])
            names = ctx.call('flat_names', pat.flat_names, free, delim=delim)
        else:
            delim = '_'
            names = ctx.call('flat_names', pat.flat_names, free)
        n = ctx.call('flat_length', pat.flat_length, free)
        names = [str(s) for s in names]
        ctx.check('names-length', len(names) == n,
                  '{} names for {} entries'.format(len(names), n))
        want = ref_names(spec, free, delim)
        ctx.check('names-exact', names == want,
                  'names differ', got=names, want=want, spec=spec.describe())
        # The label of an entry leads back to that entry.
        if isinstance(spec, Num):
            val = spec.gen(ctx.rng)
            flat = ctx.call('flatten', pat.flatten, val, free=False)
            for nm, x in zip(names, flat):
                idx = tuple(int(i) for i in nm[1:-1].split(','))
                ctx.check('names-lead-back', val[idx] == x,
                          'the entry named {} holds another value'.format(nm))
        ctx.sig(spec.sig(), free, delim)


def mixed(ctx):
    spec = specs.gen_spec(ctx.rng, fd=0.2)
    ctx.notes['spec'] = spec.describe()
    one(ctx, spec, ctx.call('build', spec.build))


def dicts(ctx):
    spec = specs.gen_dict(ctx.rng, 3)
    ctx.notes['spec'] = spec.describe()
    one(ctx, spec, ctx.call('build', spec.build))


def numeric(ctx):
    spec = specs.gen_num(ctx.rng, max_len=150)
    ctx.notes['spec'] = spec.describe()
    one(ctx, spec, ctx.call('build', spec.build))


def big(ctx):
    spec = specs.gen_big(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    one(ctx, spec, ctx.call('build', spec.build))


WORKLOADS = [('mixed', 3, mixed), ('dicts', 4, dicts), ('numeric', 2, numeric),
             ('big', 1, big)]
QUICK = 20000
THOROUGH = 100000
