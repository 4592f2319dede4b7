"""The life of a PatternDict: add, replace, delete, lock."""
from collections import OrderedDict

import numpy as np

import paragami
from .. import specs
from ..common import check_flat, check_folded
from ..specs import Arr, Dict

RULE = ('Random histories of adding, replacing, deleting, re-adding, nesting, '
        'locking and refused operations on several dictionaries at once, '
        'interleaved with use, checked after every step against an ordered '
        'model: keys, members, both lengths, layout, equality with a dictionary '
        'built in one go.  Replacements are biased towards members with equal '
        'flat but different free length and the reverse.  Also dictionaries put '
        'into and taken out of several others, at any depth.  Distinct by sequence '
        'of operations.')
REQUIRED = {'model-agrees': 500, 'locked-refused': 100, 'refusal-no-effect': 100}


def member(ctx):
    k = ctx.rint(0, 7)
    if k == 0:
        return specs.PSD(2)
    if k == 1:
        return specs.Num((4,))
    if k == 2:
        return specs.Num((2, 2), 0.0)
    if k == 3:
        return specs.Simplex(4, (1,))
    if k == 4:
        return specs.Num((3,))
    if k == 5:
        return specs.gen_array_valued(ctx.rng, 1, 0.5)
    return specs.gen_leaf(ctx.rng, 0.5)


def emptied(ctx, pat):
    """A dictionary without members is a dictionary of nothing."""
    M = 'model-agrees'
    made = [ctx.call('empty', pat.empty, True), ctx.call('random', pat.random),
            ctx.call('empty_bool', pat.empty_bool, True)]
    for v in made:
        ctx.check(M, hasattr(v, 'keys') and len(v.keys()) == 0,
                  'a value of {!r}'.format(v))
    for free in (True, False):
        flat = ctx.call('flatten', pat.flatten, made[0], free=free)
        ctx.check(M, np.shape(flat) == (0,), 'flat value {!r}'.format(flat))
        ctx.check(M, np.shape(ctx.call('flat_names', pat.flat_names, free))
                  == (0,), 'names of nothing')
        ctx.check(M, np.shape(ctx.call('flat_indices', pat.flat_indices,
                                       made[2], free=free)) == (0,),
                  'indices of nothing')
    for sparse in (True, False):
        for jac in (pat.freeing_jacobian, pat.unfreeing_jacobian):
            got = ctx.call('jacobian', jac, made[0], sparse=sparse)
            ctx.check(M, got.shape == (0, 0), 'Jacobian {}'.format(got.shape))


class Model:
    def __init__(self, fd):
        self.items = OrderedDict()
        self.locked = False
        self.fd = fd

    def spec(self):
        return Dict(list(self.items.items()), self.fd)


def agrees(ctx, pat, model):
    M = 'model-agrees'
    keys = list(ctx.call('keys', pat.keys))
    ctx.check(M, keys == list(model.items), 'keys {} and not {}'.format(
        keys, list(model.items)))
    for free in (True, False):
        n = sum(s.free_len if free else s.flat_len
                for s in model.items.values())
        got = ctx.call('flat_length', pat.flat_length, free=free)
        ctx.check(M, got == n, 'flat_length(free={}) is {} and not {}'.format(
            free, got, n))
    for k, s in model.items.items():
        sub = ctx.call('getitem', lambda: pat[k])
        ctx.check(M, sub == s.build(), 'member {!r} is another one'.format(k))
    if not model.items:
        emptied(ctx, pat)
    spec = model.spec()
    val = spec.gen(ctx.rng)
    flat = ctx.call('flatten', pat.flatten, val, free=False)
    check_flat(ctx, flat, spec.flat_len)
    ctx.exact(M, flat, spec.ref_flat(val), 'layout')
    x = ctx.rng.normal(size=spec.free_len)
    new = ctx.call('fold', pat.fold, x, free=True)
    check_folded(ctx, spec, new)
    if ctx.chance(0.3):
        ref = spec.build()
        ctx.check(M, pat == ref and ref == pat,
                  'not equal to a dictionary built in one go')
        ctx.close(M, spec.ref_flat(new),
                  spec.ref_flat(ref.fold(x, free=True)),
                  1e-11 * (1 + np.abs(spec.ref_flat(new))))


def history(ctx):
    fd = specs.gen_fd(ctx.rng, 0.2)
    pat, model = paragami.PatternDict(free_default=fd), Model(fd)
    many = ctx.chance(0.08)
    keys = [specs.KEYS[i] for i in ctx.rng.permutation(len(specs.KEYS))[
        :25 if many else 5]]
    trace = []
    for step in range(ctx.rint(30, 60) if many else ctx.rint(5, 16)):
        k = ctx.pick(keys)
        op = ctx.pick(['add', 'add', 'add', 'delete', 'nest', 'lock', 'missing',
                       'use'] if step > 2 else ['add', 'nest'])
        if op == 'lock' and ctx.chance(0.97 if many else 0.6):
            op = 'add'
        if many and op == 'delete' and ctx.chance(0.7):
            op = 'add'
        ctx.log('step', op, k)
        before = pat.to_json()
        if op in ('add', 'nest'):
            if op == 'add':
                s = specs.gen_leaf(ctx.rng, 0.2) if many else member(ctx)
            else:
                s = specs.gen_dict(ctx.rng, 2, 0.4, 3)
            new = s.build()

            def put():
                pat[k] = new
            if model.locked:
                ctx.must_raise('locked-refused', ValueError, 'setitem', put)
            else:
                ctx.call('setitem', put)
                model.items[k] = s
                if op == 'nest':
                    # A member can no longer be changed behind the parent.
                    inner = list(new.keys())[0]

                    def put_inner():
                        new['other'] = paragami.NumericScalarPattern()

                    def del_inner():
                        del new[inner]
                    ctx.must_raise('locked-refused', ValueError,
                                   'setitem in member', put_inner)
                    ctx.must_raise('locked-refused', ValueError,
                                   'delitem in member', del_inner)
                    ctx.check('refusal-no-effect', new == s.build(),
                              'a refused change had an effect')
        elif op == 'delete':
            def rm():
                del pat[k]
            if model.locked:
                ctx.must_raise('locked-refused', ValueError, 'delitem', rm)
            elif k in model.items:
                ctx.call('delitem', rm)
                del model.items[k]
            else:
                ctx.must_raise('missing-refused', KeyError, 'delitem', rm)
        elif op == 'missing':
            if k not in model.items:
                ctx.must_raise('missing-refused', KeyError, 'getitem',
                               lambda: pat[k])
        elif op == 'lock':
            ctx.call('lock', pat.lock)
            model.locked = True
        trace.append((op, model.locked, k in model.items))
        if model.locked and op != 'lock':
            ctx.check('refusal-no-effect', pat.to_json() == before,
                      'a locked dictionary changed')
        if not many or op in ('delete', 'lock') or step % 8 == 7 or \
                step > 55:
            agrees(ctx, pat, model)
    agrees(ctx, pat, model)
    ctx.sig(trace)


def shared(ctx):
    """The same member in two places, and members of members."""
    inner_spec = specs.gen_dict(ctx.rng, 2, 0.4, 3)
    inner = inner_spec.build()
    # Before it is a member it can still change.
    extra = member(ctx)
    key = 'zz'
    inner[key] = extra.build()
    inner_spec = Dict(inner_spec.items + [(key, extra)])
    if ctx.chance(0.5):
        del inner[key]
        inner_spec = Dict(inner_spec.items[:-1])
    a, b = paragami.PatternDict(), paragami.PatternDict()
    ma, mb = Model(None), Model(None)
    a['p'] = inner
    ma.items['p'] = inner_spec
    a['q'] = inner
    ma.items['q'] = inner_spec
    b['r'] = inner
    mb.items['r'] = inner_spec
    agrees(ctx, a, ma)
    agrees(ctx, b, mb)
    ctx.must_raise('locked-refused', ValueError, 'setitem',
                   lambda: inner.__setitem__('n', member(ctx).build()))
    # a is not locked by having members; putting it into b locks it.
    m = member(ctx)
    a['s'] = m.build()
    ma.items['s'] = m
    agrees(ctx, a, ma)
    b['a'] = a
    mb.items['a'] = ma.spec()
    agrees(ctx, b, mb)
    before = b.to_json()
    ctx.must_raise('locked-refused', ValueError, 'setitem',
                   lambda: a.__setitem__('s', member(ctx).build()))
    ctx.must_raise('locked-refused', ValueError, 'delitem',
                   lambda: a.__delitem__('s'))
    ctx.check('refusal-no-effect', b.to_json() == before, 'changed')
    agrees(ctx, b, mb)
    # Deleting a member from b does not unlock it.
    del b['a']
    del mb.items['a']
    agrees(ctx, b, mb)
    agrees(ctx, a, ma)
    ctx.sig(inner_spec.sig(), m.sig())


class Derived(paragami.PatternDict):
    """A user's own kind of dictionary."""


class Mirrored(paragami.NumericVectorPattern):
    """A user's own pattern, of vectors which read alike both ways."""
    def flat_length(self, free=None):
        self._free_with_default(free)
        return (self.length() + 1) // 2

    def flatten(self, folded_val, free=None, validate_value=None):
        return super().flatten(folded_val, free=free, validate_value=False)[
            :self.flat_length(free=free)]

    def fold(self, flat_val, free=None, validate_value=None):
        half = np.asarray(flat_val)
        if half.shape == (self.length(),):      # as the parent's constructor
            return half
        if half.shape != (self.flat_length(free=free),):
            raise ValueError('wrong length')
        return np.hstack([half, half[::-1][self.length() % 2:]])


def own_members(ctx):
    """Members of a user's own class, which answers for its own length."""
    M = 'model-agrees'
    pat, model = paragami.PatternDict(), OrderedDict()
    for step in range(ctx.rint(3, 9)):
        k = ctx.pick(['a', 'b', 'c'])
        if k in model and ctx.chance(0.3):
            ctx.call('delitem', pat.__delitem__, k)
            del model[k]
        else:
            n = ctx.rint(2, 6)
            own = ctx.chance(0.6)
            ctx.call('setitem', pat.__setitem__, k, Mirrored(n) if own else
                     paragami.NumericVectorPattern(n))
            model[k] = ((n + 1) // 2 if own else n, n)
        total = sum(m for m, _ in model.values())
        for free in (True, False):
            ctx.check(M, pat.flat_length(free=free) == total, 'length {} and '
                      'not {}'.format(pat.flat_length(free=free), total))
        if not total:
            continue
        flat = ctx.rng.normal(size=total)
        val = ctx.call('fold', pat.fold, flat, free=True)
        ctx.check(M, [np.shape(val[k]) for k in model] ==
                  [(n,) for _, n in model.values()], 'shapes')
        ctx.exact(M, ctx.call('flatten', pat.flatten, val, free=True), flat,
                  'layout')
    ctx.sig('own', list(model.items()))


class Twice(Derived):
    def __init__(self, n, free_default=None):
        super().__init__(free_default=free_default)
        self.n = n


def hollow(ctx):
    """A dictionary without members is locked by becoming one, too."""
    inner = paragami.PatternDict(free_default=specs.gen_fd(ctx.rng, 0.3))
    if ctx.chance(0.3):
        inner['x'] = member(ctx).build()
        del inner['x']
    outer, depth = inner, ctx.rint(1, 3)
    for _ in range(depth):
        new = paragami.PatternDict()
        ctx.call('setitem', new.__setitem__, 'in', outer)
        if ctx.chance(0.4):
            new['other'] = member(ctx).build()
        outer = new
    before = outer.to_json()
    ctx.must_raise('locked-refused', ValueError, 'setitem', inner.__setitem__,
                   'x', member(ctx).build())
    ctx.check('refusal-no-effect', len(inner.keys()) == 0 and
              outer.to_json() == before, 'a refused change had an effect')
    ctx.call('setitem', outer.__setitem__, 'last', member(ctx).build())
    if ctx.chance(0.5):
        ctx.call('delitem', outer.__delitem__, 'in')
        ctx.must_raise('locked-refused', ValueError, 'setitem',
                       inner.__setitem__, 'x', member(ctx).build())
    ctx.sig('hollow', depth, len(outer.keys()))


def derived(ctx):
    """Members of types derived from dictionaries are locked as well."""
    spec = specs.gen_dict(ctx.rng, 2, 0.4, 3)
    cls = ctx.pick([lambda: Derived(), lambda: Twice(3, free_default=True)])
    inner = cls()
    for k, s in spec.items:
        ctx.call('setitem', inner.__setitem__, k, s.build())
    parent = ctx.pick([paragami.PatternDict, Derived])()
    path = ['p', 'q'][:ctx.rint(1, 2)]
    for k in path:
        ctx.call('setitem', parent.__setitem__, k, inner)
    M = 'model-agrees'
    for free in (True, False):
        n = len(path) * (spec.free_len if free else spec.flat_len)
        ctx.check(M, parent.flat_length(free=free) == n, 'length')
    k = ctx.pick([k for k, _ in spec.items] + ['other'])
    ctx.must_raise('locked-refused', ValueError, 'setitem', inner.__setitem__,
                   k, member(ctx).build())
    ctx.must_raise('locked-refused', ValueError, 'delitem', inner.__delitem__,
                   spec.items[0][0])
    val = {p: spec.gen(ctx.rng) for p in path}
    flat = ctx.call('flatten', parent.flatten, val, free=False)
    ctx.exact(M, flat, np.hstack([spec.ref_flat(val[p]) for p in path]),
              'layout')
    ctx.call('fold', parent.fold, flat, free=False)
    # The parent itself can still be changed.
    ctx.call('setitem', parent.__setitem__, 'r', paragami.NumericScalarPattern())
    ctx.call('delitem', parent.__delitem__, path[0])
    ctx.check(M, list(parent.keys()) == path[1:] + ['r'], 'keys')
    ctx.must_raise('locked-refused', ValueError, 'setitem', inner.__setitem__,
                   k, member(ctx).build())
    ctx.sig('derived', spec.sig(), len(path))


class Node:
    """A dictionary which may become a member of several others."""
    def __init__(self, n, fd):
        self.n = n
        self.pat = paragami.PatternDict(free_default=fd)
        self.fd = fd
        self.items = OrderedDict()          # key -> spec or Node
        self.locked = False

    def model(self):
        m = Model(self.fd)
        for k, v in self.items.items():
            m.items[k] = v.model().spec() if isinstance(v, Node) else v
        return m

    def below(self):
        out = {self.n}
        for v in self.items.values():
            if isinstance(v, Node):
                out |= v.below()
        return out


def nesting(ctx):
    """The same dictionaries put into and taken out of several others."""
    nodes = [Node(i, specs.gen_fd(ctx.rng, 0.1)) for i in range(ctx.rint(2, 4))]
    keys = [specs.KEYS[i] for i in ctx.rng.permutation(len(specs.KEYS))[:3]]
    for nd in nodes:
        nd.pat['leaf'] = paragami.NumericArrayPattern((2,))
        nd.items['leaf'] = specs.Num((2,))
    trace = []
    for step in range(ctx.rint(8, 22)):
        nd, k = ctx.pick(nodes), ctx.pick(keys)
        op = ctx.pick(['nest', 'nest', 'leaf', 'delete', 'delete', 'lock']
                      if ctx.chance(0.3) else ['nest', 'nest', 'leaf', 'delete'])
        ctx.log('step', op, nd.n, k)
        if op == 'nest':
            # Not into itself, and only what is not empty.
            can = [c for c in nodes if nd.n not in c.below()]
            if not can:
                continue
            c = ctx.pick(can)
            if nd.locked:
                ctx.must_raise('locked-refused', ValueError, 'setitem',
                               nd.pat.__setitem__, k, c.pat)
            else:
                ctx.call('setitem', nd.pat.__setitem__, k, c.pat)
                nd.items[k] = c
                c.locked = True
        elif op == 'leaf':
            s = member(ctx)
            if nd.locked:
                ctx.must_raise('locked-refused', ValueError, 'setitem',
                               nd.pat.__setitem__, k, s.build())
            else:
                ctx.call('setitem', nd.pat.__setitem__, k, s.build())
                nd.items[k] = s
        elif op == 'delete':
            if nd.locked:
                ctx.must_raise('locked-refused', ValueError, 'delitem',
                               nd.pat.__delitem__, k)
            elif k in nd.items:
                ctx.call('delitem', nd.pat.__delitem__, k)
                del nd.items[k]
            else:
                ctx.must_raise('missing-refused', KeyError, 'delitem',
                               nd.pat.__delitem__, k)
        else:
            ctx.call('lock', nd.pat.lock)
            nd.locked = True
        trace.append((op, nd.n, nd.locked))
        # Everything once locked stays so, wherever it is or was.
        for c in nodes:
            if c.locked:
                ctx.must_raise('locked-refused', ValueError, 'setitem',
                               c.pat.__setitem__, ctx.pick(keys + ['leaf', 'n']),
                               paragami.NumericArrayPattern((3,)))
                ctx.must_raise('locked-refused', ValueError, 'delitem',
                               c.pat.__delitem__, 'leaf')
            ctx.check('refusal-no-effect', list(c.pat.keys()) ==
                      list(c.items), 'keys {} and not {}'.format(
                          list(c.pat.keys()), list(c.items)))
            for free in (True, False):
                n = sum(s.free_len if free else s.flat_len
                        for s in c.model().items.values())
                ctx.check('model-agrees',
                          c.pat.flat_length(free=free) == n,
                          'flat_length(free={})'.format(free))
        if ctx.chance(0.4):
            agrees(ctx, nd.pat, nd.model())
    for nd in nodes:
        agrees(ctx, nd.pat, nd.model())
        for k, v in nd.items.items():
            if isinstance(v, Node):
                ctx.check('model-agrees', nd.pat[k] == v.pat and
                          list(nd.pat[k].keys()) == list(v.items),
                          'a member is another one')
        if not nd.locked:
            # Not locked by what happened to others.
            ctx.call('setitem', nd.pat.__setitem__, 'last',
                     paragami.NumericArrayPattern((1,)))
            nd.items['last'] = specs.Num((1,))
            agrees(ctx, nd.pat, nd.model())
            ctx.call('delitem', nd.pat.__delitem__, 'leaf')
            del nd.items['leaf']
            agrees(ctx, nd.pat, nd.model())
    ctx.sig('nesting', trace)


WORKLOADS = [('history', 4, history), ('shared', 1, shared),
             ('nesting', 3, nesting),
             ('derived', 1, derived), ('own', 1, own_members),
             ('hollow', 1, hollow)]
QUICK = 3400
THOROUGH = 40000
