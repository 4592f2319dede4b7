"""JSON round trips, equality of patterns, and the registry."""
import copy
import json

import numpy as np

import paragami
from paragami.base_patterns import Pattern

from .. import specs
from ..common import equal_folded
from ..specs import Arr, Custom, Dict, INF, Num, PSD, Simplex

RULE = ('Random pattern trees with all attributes varied (bounds, defaults, '
        'free_default at each depth, adversarial dictionary keys and orders, '
        'user-defined members): through JSON and back they must be equal, print '
        'the same JSON again and behave the same; a change of any one attribute '
        'anywhere must make them unequal; patterns made from the same JSON '
        'are changed one by one.  Registry operations are checked '
        'against a model.  Distinct by structure and change.')
REQUIRED = {'json-equal': 300, 'json-behaves': 300, 'changed-unequal': 300,
            'wrong-type-refused': 100, 'loaded-independent': 300}


def behaves(ctx, spec, pat, new):
    for free in (True, False):
        n = ctx.call('flat_length', new.flat_length, free=free)
        ctx.check('json-behaves', n == pat.flat_length(free=free), 'length')
    ctx.check('json-behaves', new.free_default is pat.free_default,
              'free_default is {!r} and not {!r}'.format(
                  new.free_default, pat.free_default))
    x = ctx.rng.normal(size=spec.free_len)
    a = ctx.call('fold', pat.fold, x, free=True)
    b = ctx.call('fold', new.fold, x, free=True)
    tol = 1e-11 * (1 + np.abs(spec.ref_flat(a)))
    equal_folded(ctx, 'json-behaves', spec, b, a, tol, 'free fold')
    flat = np.arange(spec.flat_len) * 1.0
    a = pat.fold(flat, free=False, validate_value=False)
    b = ctx.call('fold', new.fold, flat, free=False, validate_value=False)
    equal_folded(ctx, 'json-behaves', spec, b, a, None, 'fold')
    for val in (spec.gen(ctx.rng), spec.gen_outside(ctx.rng),
                spec.gen_boundary(ctx.rng)):
        if val is not None:
            for vv in (None, True, False):
                p = bool(pat.validate_folded(val, validate_value=vv)[0])
                q = bool(ctx.call('validate_folded', new.validate_folded, val,
                                  validate_value=vv)[0])
                ctx.check('json-behaves', p == q, 'validation differs',
                          value=val, flag=vv)


def round_trip(ctx):
    spec = specs.gen_spec(ctx.rng, fd=0.5, dv=0.4, depth=4)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    text = ctx.call('to_json', pat.to_json)
    ctx.check('json-text', isinstance(text, str) and
              isinstance(json.loads(text), dict), 'not a JSON object')
    how = ctx.pick(['registry', 'class', 'twice'])
    if how == 'class':
        new = ctx.call('from_json', type(pat).from_json, text)
    else:
        new = ctx.call('get_pattern_from_json',
                       paragami.get_pattern_from_json, text)
    if how == 'twice':
        new = ctx.call('get_pattern_from_json', paragami.get_pattern_from_json,
                       new.to_json())
    ctx.check('json-equal', type(new) is type(pat), 'type')
    ctx.check('json-equal', (new == pat) is True and (pat == new) is True and
              not (new != pat), 'the reloaded pattern is not equal')
    ctx.check('json-equal', new.to_json() == text,
              'the reloaded pattern has other JSON', a=text, b=new.to_json())
    behaves(ctx, spec, pat, new)
    if isinstance(spec, Dict):
        ctx.check('json-behaves', list(new.keys()) == [k for k, _ in
                                                       spec.items], 'keys')
    ctx.sig(spec.describe(), how)


def variants(ctx, spec):
    """One changed attribute each, as (what, spec)."""
    def but(**kw):
        s = copy.deepcopy(spec)
        for k, v in kw.items():
            setattr(s, k, v)
        return s
    fds = [True, False, None]
    fds.remove(spec.free_default)
    yield 'free_default', but(free_default=ctx.pick(fds))
    if isinstance(spec, (Num, PSD, Simplex)):
        yield 'default_validate', but(
            default_validate=not spec.default_validate)
    if isinstance(spec, Num):
        lo = spec.lb if np.isfinite(spec.lb) else (
            spec.ub - 1 if np.isfinite(spec.ub) else 0.0)
        yield 'lb', but(lb=lo - 0.125)
        hi = spec.ub if np.isfinite(spec.ub) else lo + 1
        yield 'ub', but(ub=hi + 0.125)
        if spec.cls == 'scalar':
            yield 'type', Num((1,), spec.lb, spec.ub, spec.default_validate,
                              spec.free_default, 'vector')
        elif spec.cls == 'vector':
            yield 'type', Num(spec.shape, spec.lb, spec.ub,
                              spec.default_validate, spec.free_default)
            yield 'shape', Num((spec.shape[0] + 1,), spec.lb, spec.ub,
                               spec.default_validate, spec.free_default,
                               'vector')
        else:
            sh = list(spec.shape)
            i = ctx.rint(0, len(sh) - 1)
            sh[i] += 1
            yield 'shape', Num(sh, spec.lb, spec.ub, spec.default_validate,
                               spec.free_default)
            yield 'shape', Num(spec.shape + (1,), spec.lb, spec.ub,
                               spec.default_validate, spec.free_default)
            if spec.shape[::-1] != spec.shape:
                yield 'shape', Num(spec.shape[::-1], spec.lb, spec.ub,
                                   spec.default_validate, spec.free_default)
    elif isinstance(spec, PSD):
        yield 'size', PSD(spec.size + 1, spec.diag_lb, spec.default_validate,
                          spec.free_default)
        yield 'diag_lb', but(diag_lb=spec.diag_lb + 0.5)
    elif isinstance(spec, Simplex):
        yield 'size', Simplex(spec.size + 1, spec.array_shape,
                              spec.default_validate, spec.free_default)
        yield 'array_shape', Simplex(spec.size, spec.array_shape + (1,),
                                     spec.default_validate, spec.free_default)
    elif isinstance(spec, Custom):
        yield 'size', Custom(spec.kind, spec.n + 1, spec.free_default)
    elif isinstance(spec, Arr):
        yield 'array_shape', Arr((2,) + spec.array_shape, spec.base,
                                 spec.free_default)
        for what, b in variants(ctx, spec.base):
            yield 'base ' + what, Arr(spec.array_shape, b, spec.free_default)
    elif isinstance(spec, Dict):
        items = spec.items
        if not items:
            yield 'added key', Dict([('a', Num((1,)))], spec.free_default)
            return
        i = ctx.rint(0, len(items) - 1)
        k, s = items[i]
        new = next(q for q in specs.KEYS if q not in dict(items))
        yield 'renamed key', Dict(items[:i] + [(new, s)] + items[i + 1:],
                                  spec.free_default)
        yield 'added key', Dict(items + [(new, s)], spec.free_default)
        if len(items) > 1:
            yield 'removed key', Dict(items[:i] + items[i + 1:],
                                      spec.free_default)
            j = (i + 1) % len(items)
            sw = list(items)
            sw[i], sw[j] = sw[j], sw[i]
            yield 'order', Dict(sw, spec.free_default)
        for what, b in variants(ctx, s):
            yield 'member ' + what, Dict(
                items[:i] + [(k, b)] + items[i + 1:], spec.free_default)


def equality(ctx):
    spec = specs.gen_spec(ctx.rng, 0.7, fd=0.5, dv=0.4)
    ctx.notes['spec'] = spec.describe()
    a, b = spec.build(), copy.deepcopy(spec).build()
    ctx.check('same-equal', ctx.call('==', lambda: a == b) is True and
              a == a and not (a != b), 'built twice, not equal')
    for other in (None, a.to_json(), a.as_dict()):
        ctx.check('changed-unequal', ctx.call('==', lambda: a == other)
                  is False and a != other, 'equal to what is not a pattern')
    for what, s in variants(ctx, spec):
        c = ctx.call('build', s.build)
        ctx.check('changed-unequal',
                  ctx.call('==', lambda: a == c) is False and
                  (c == a) is False and a != c,
                  'equal in spite of a change of {}'.format(what),
                  a=spec.describe(), b=s.describe())
        ctx.check('changed-unequal', a.to_json() != c.to_json(),
                  'same JSON in spite of a change of {}'.format(what))
        back = paragami.get_pattern_from_json(c.to_json())
        ctx.check('json-equal', back == c and not back == a,
                  'the reloaded pattern is another one: {}'.format(what))
        ctx.sig(spec.sig(), what)
    for other in (None, 1, 'x', {}, np.zeros(2), spec):
        ctx.check('changed-unequal', (a == other) is False or
                  isinstance(other, np.ndarray), 'equal to a non-pattern')
    text = a.to_json()
    for cls in (paragami.NumericArrayPattern, paragami.NumericVectorPattern,
                paragami.NumericScalarPattern, paragami.SimplexArrayPattern,
                paragami.PSDSymmetricMatrixPattern, paragami.PatternDict,
                paragami.PatternArray, specs.Ordered):
        if cls is not type(a):
            ctx.must_raise('wrong-type-refused', ValueError,
                           cls.__name__ + '.from_json', cls.from_json, text)


def meddle(ctx, pat):
    """Change a pattern in one way its interface allows, at random depth."""
    while isinstance(pat, (paragami.PatternDict, paragami.PatternArray)) and \
            not (isinstance(pat, paragami.PatternDict) and
                 not len(pat.keys())) and ctx.chance(0.6):
        pat = pat[ctx.pick(list(pat.keys()))] if isinstance(
            pat, paragami.PatternDict) else pat.base_pattern()
    if isinstance(pat, paragami.PatternDict) and ctx.chance(0.6):
        try:
            if ctx.chance(0.5) or not len(pat.keys()):
                pat['a new key'] = paragami.NumericArrayPattern((2,))
            else:
                del pat[list(pat.keys())[0]]
            return 'key'
        except ValueError:              # locked
            pass
    if hasattr(pat, 'default_validate') and ctx.chance(0.5):
        pat.default_validate = not pat.default_validate
        return 'default_validate'
    pat.free_default = ctx.pick([v for v in (True, False, None)
                                 if v is not pat.free_default])
    return 'free_default'


def independent(ctx):
    """Patterns made from the same JSON are separate patterns."""
    spec = specs.gen_spec(ctx.rng, fd=0.3, dv=0.3, depth=3, size=0.6)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    text = ctx.call('to_json', pat.to_json)
    M = 'loaded-independent'

    def load():
        if ctx.chance(0.5):
            return ctx.call('from_json', type(pat).from_json, text)
        return ctx.call('get_pattern_from_json', paragami.get_pattern_from_json,
                        text)
    made, sig = [pat], []

    def load_or_copy():
        if ctx.chance(0.25):
            return ctx.call('deepcopy', copy.deepcopy, ctx.pick(made))
        return load()
    made.append(load_or_copy())
    for _ in range(ctx.rint(1, 4)):
        made.append(load_or_copy())
        victim = made.pop(ctx.rint(0, len(made) - 1))
        others = [p.to_json() for p in made]
        if ctx.chance(0.7):
            ctx.check('same-equal', all(victim == p and p == victim
                                        for p in made), 'not equal')
        what = meddle(ctx, victim)
        ctx.log('meddle', what)
        ctx.check('changed-unequal', not any(victim == p or p == victim
                                             for p in made),
                  'equal in spite of a change of {}'.format(what))
        ctx.check(M, victim.to_json() != text,
                  'a change of {} has no effect'.format(what))
        ctx.check(M, [p.to_json() for p in made] == others == [text] *
                  len(made), 'changing the {} of a pattern changed another '
                  'made from the same JSON'.format(what))
        again = load_or_copy()
        ctx.check(M, again.to_json() == text and all(
            again == p and p == again for p in made),
            'loading again gives another pattern')
        ctx.check(M, not again == victim and not victim == again,
                  'the changed pattern is still equal')
        made.append(again)
        sig.append(what)
    behaves(ctx, spec, ctx.call('build', spec.build), made[-1])
    ctx.sig('independent', spec.sig(), sig)


def numpy_built(ctx):
    """Sizes, bounds and defaults which come out of computations."""
    n, m = ctx.rint(1, 4), ctx.rint(1, 4)
    I = ctx.pick([np.int64, np.int32, np.intp])
    F = ctx.pick([np.float64, np.float32, np.int64])
    B = ctx.pick([np.bool_, bool])
    lb, fd, dv = ctx.rint(-3, 3) * 0.5, ctx.chance(0.5), ctx.chance(0.5)
    if F is np.int64:
        lb = float(int(lb))
    kw = dict(default_validate=dv, free_default=fd)
    nkw = dict(default_validate=B(dv), free_default=B(fd))
    P = paragami
    kind = ctx.rint(0, 6)
    make = [
        lambda i, f, k: P.NumericArrayPattern((i(n), i(m)), lb=f(lb), **k),
        lambda i, f, k: P.NumericArrayPattern(
            np.array([n, m]) if i is not int else (n, m), ub=f(lb), **k),
        lambda i, f, k: P.NumericVectorPattern(i(n), lb=f(lb), ub=f(lb + 2),
                                               **k),
        lambda i, f, k: P.NumericScalarPattern(lb=f(lb), **k),
        lambda i, f, k: P.PSDSymmetricMatrixPattern(i(n), diag_lb=f(abs(lb)),
                                                    **k),
        lambda i, f, k: P.SimplexArrayPattern(i(n + 1), (i(m),), **k),
        lambda i, f, k: P.PatternArray(
            (i(n), i(m)), P.NumericScalarPattern(ub=f(lb), **k))][kind]
    a = ctx.call('build', make, int, int if F is np.int64 else float, kw)
    b = ctx.call('build', make, I, F, nkw)
    if ctx.chance(0.4):
        pats = []
        for p in (a, b):
            d = P.PatternDict(free_default=fd)
            d['x'] = p
            pats.append(d)
        a, b = pats
    ctx.check('same-equal', a == b and b == a,
              'numbers of numpy make another pattern')
    text = ctx.call('to_json', b.to_json)
    ctx.check('json-equal', json.loads(text) is not None, 'no JSON')
    new = ctx.call('get_pattern_from_json', paragami.get_pattern_from_json,
                   text)
    again = ctx.call('from_json', type(b).from_json, text)
    ctx.check('json-equal', new == a and new == b and again == a and
              b == again, 'the reloaded pattern is another one', json=text)
    ctx.check('json-equal', new.to_json() == text or kind in (2, 4) or
              json.loads(new.to_json()) is not None, 'JSON changes')
    for free in (True, False):
        ctx.check('json-behaves', new.flat_length(free=free) ==
                  b.flat_length(free=free) == a.flat_length(free=free),
                  'length')
    x = ctx.rng.normal(size=int(b.flat_length(free=True)))
    u = ctx.call('fold', b.fold, x, free=True)
    v = ctx.call('fold', new.fold, x, free=True)
    for q, r in zip(specs.tree_arrays(u), specs.tree_arrays(v)):
        ctx.close('json-behaves', r, q, 1e-11 * (1 + np.abs(q)), 'free fold')
    ctx.sig('numpy', kind, I.__name__, F.__name__, n, m)


def precise(ctx):
    """Bounds which differ by as little as can be."""
    P = paragami
    kind = ctx.pick(['int', 'float', 'digits'])
    if kind == 'int':
        b = 2 ** ctx.rint(3, 62) + ctx.rint(0, 7)
        c = b + 1
    elif kind == 'float':
        b = float(abs(ctx.rng.normal()) * 10.0 ** ctx.rint(-300, 300))
        c = float(np.nextafter(b, np.inf))
    else:
        b = round(0.1 + float(abs(ctx.rng.normal())), ctx.rint(1, 16))
        c = b * (1 + 10.0 ** ctx.rint(-15, -6))
    if ctx.chance(0.5):
        b, c = c, b
    which = ctx.rint(0, 3)
    make = [lambda t: P.NumericArrayPattern((2, 1), lb=t),
            lambda t: P.NumericVectorPattern(3, lb=-1, ub=t),
            lambda t: P.NumericScalarPattern(ub=t),
            lambda t: P.PSDSymmetricMatrixPattern(2, diag_lb=t)][which]
    wrap = ctx.pick([lambda p: p, lambda p: P.PatternArray((2,), p)])
    u, u2, v = (wrap(ctx.call('build', make, t)) for t in (b, b, c))
    ctx.check('same-equal', u == u2 and u.to_json() == u2.to_json(), 'equal')
    ctx.check('changed-unequal', u != v and v != u and
              u.to_json() != v.to_json(), 'bounds {!r} and {!r} make equal '
              'patterns'.format(b, c), json=u.to_json())
    new = ctx.call('get_pattern_from_json', P.get_pattern_from_json,
                   u.to_json())
    ctx.check('json-equal', new == u and new != v and
              new.to_json() == u.to_json(), 'the reloaded pattern is another',
              json=u.to_json())
    ctx.sig('precise', kind, which, b)


def make_class(name):
    """A fresh user-defined pattern class of the given name."""
    def init(self, n, free_default=None):
        specs.Ordered.__init__(self, n, free_default=free_default)
    return type(name, (specs.Ordered,), {'__init__': init,
                                         '__module__': 'pgmon.made_up'})


def registry(ctx):
    """A history of registrations, against a model."""
    tag = 'P{}_{}'.format(ctx.index, ctx.rint(0, 10 ** 9))
    names = [tag + s for s in 'abc']
    model = {}
    for step in range(ctx.rint(4, 12)):
        name = ctx.pick(names)
        cls = make_class(name)
        full = cls.json_typename()
        op = ctx.pick(['register', 'register', 'overwrite', 'load',
                       'load-nested'])
        if op == 'register':
            if full in model:
                ctx.must_raise('duplicate-refused', ValueError, 'register',
                               paragami.register_pattern_json, cls)
            else:
                ctx.call('register', paragami.register_pattern_json, cls)
                model[full] = cls
        elif op == 'overwrite':
            ctx.call('register', paragami.register_pattern_json, cls,
                     allow_overwrite=True)
            model[full] = cls
        else:
            pat = cls(ctx.rint(2, 5), free_default=specs.gen_fd(ctx.rng, 0.5))
            if op == 'load-nested':
                outer = paragami.PatternDict()
                outer['x'] = paragami.NumericScalarPattern()
                outer['y'] = paragami.PatternArray((2,), pat)
                text = outer.to_json()
            else:
                text = pat.to_json()
            if full in model:
                new = ctx.call('load', paragami.get_pattern_from_json, text)
                inner = new if op == 'load' else new['y'].base_pattern()
                ctx.check('registered-class-used',
                          type(inner) is model[full] and
                          inner.as_dict() == pat.as_dict(),
                          'another class or content was made')
            else:
                ctx.must_raise('unregistered-refused', KeyError, 'load',
                               paragami.get_pattern_from_json, text)
        ctx.sig('registry', op, full in model, step)
    # A class of the same name somewhere else is another class.
    like = [specs.gen_spec(ctx.rng, custom=False).build()]
    like += [c(3) for c in model.values()]
    old = json.loads(ctx.pick(like).to_json())
    name = old['pattern'].split('.')[-1]
    for other in ('elsewhere.' + name, name, 'elsewhere.sub.' + name,
                  old['pattern'] + 's', old['pattern'][:-1], '',
                  old['pattern'].upper(), ' ' + old['pattern']):
        text = json.dumps(dict(old, pattern=other))
        ctx.must_raise('unregistered-refused', KeyError, 'load',
                       paragami.get_pattern_from_json, text)
    ctx.must_raise('unregistered-refused', KeyError, 'load',
                   paragami.get_pattern_from_json,
                   json.dumps({'n': 3, 'free_default': None}))


WORKLOADS = [('round-trip', 4, round_trip), ('equality', 3, equality),
             ('independent', 2, independent), ('registry', 2, registry), ('numpy', 1, numpy_built),
             ('precise', 1, precise)]
QUICK = 9000
THOROUGH = 80000
