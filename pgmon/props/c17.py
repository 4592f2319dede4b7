"""Functions returning folded values as functions returning flat ones, etc."""
import collections
import functools

import numpy as np

import paragami
from .. import specs
from ..common import snapshot
from .c16 import concurrently, flag_arg, pattern_arg, same_value, setup

RULE = ('A function with a scripted return value is wrapped for random patterns '
        'at random, unsorted positions of its return tuple (or a single return '
        'value), both directions, general and convenience classes; and input and '
        'output wrapped together.  Returned values are compared with values '
        'transformed one by one; everything else must be the same objects.  '
        'Distinct by positions, modes and structures.')
REQUIRED = {'transformed-return': 500, 'other-return': 200,
            'bad-return-refused': 100, 'in-and-out': 200,
            'refilled-return': 500}


class Result(tuple):
    """A user's own kind of tuple."""


def tupled(ctx, vals):
    """Returned values as functions return them, as a tuple of some kind."""
    k = ctx.rint(0, 12)
    if k == 0:
        return Result(vals)
    if k == 1:
        return collections.namedtuple('Returned', [
            'f{}'.format(i) for i in range(len(vals))])(*vals)
    return tuple(vals)


def scripted(rets):
    log = []

    def fun(*args, **kwargs):
        log.append((args, kwargs))
        return rets
    return fun, log


def main(ctx):
    sp, pats = setup(ctx)
    n = len(sp)
    single = n == 1 and ctx.chance(0.4)
    implicit = ctx.chance(0.2)
    total = n + (ctx.rint(0, 3) if ctx.chance(0.8) else ctx.rint(8, 14))
    retnums = [int(i) for i in ctx.rng.permutation(total)[:n]]
    if implicit or single:
        retnums = list(range(n))
    free = [ctx.chance(0.5)] * n if ctx.chance(0.3) else \
        [ctx.chance(0.5) for _ in range(n)]
    free_arg = flag_arg(ctx, sp, free)
    is_flat = ctx.chance(0.5)
    ctx.notes.update(spec=[s.describe() for s in sp], retnums=retnums,
                     free=free, is_flat=is_flat, single=single)
    for rep in range(2):
        nret = 1 if single else max(retnums) + 1 + ctx.rint(0, 2)
        rets = [ctx.pick([object(), 3, 'text', [1], None, (1, 2), np.arange(2)])
                for _ in range(nret)]
        want = list(rets)
        for i, j in enumerate(retnums):
            val = sp[i].gen(ctx.rng)
            ref = sp[i].build()
            if is_flat:
                rets[j] = ref.flatten(val, free=free[i])
                want[j] = ref.fold(rets[j], free=free[i])
            else:
                rets[j] = specs.hostile(sp[i], ctx.rng, val)
                want[j] = ref.flatten(val, free=free[i])
            if (is_flat or isinstance(sp[i], specs.Num)) and ctx.chance(0.15):
                rets[j] = rets[j].tolist()
        before = [snapshot(rets[j]) for j in retnums]
        fun, log = scripted(rets[0] if single else tupled(ctx, rets))
        num_arg = retnums if n > 1 or ctx.chance(0.5) else retnums[0]
        if ctx.chance(0.2):
            num_arg = np.array(retnums, dtype=ctx.pick(
                ['int64', 'int32', 'int8', 'uint8', 'uint16']))
        kw = {} if implicit else {'retnums': num_arg}
        if ctx.chance(0.5):
            cls = paragami.FoldFunctionOutput if is_flat else \
                paragami.FlattenFunctionOutput
            g = ctx.call(cls.__name__, cls, fun, pattern_arg(ctx, pats),
                         free_arg, **kw)
        else:
            g = ctx.call('TransformFunctionOutput',
                         paragami.TransformFunctionOutput, fun,
                         pattern_arg(ctx, pats), free_arg, is_flat, **kw)
        a, k = (object(), [1]), {'key': object()}
        out = ctx.call('call', g, *a, **k)
        ctx.check('called-once', len(log) == 1 and len(log[0][0]) == 2 and
                  all(p is q for p, q in zip(log[0][0], a)) and
                  log[0][1].keys() == k.keys() and
                  log[0][1]['key'] is k['key'],
                  'the function was not called once with the arguments')
        if single:
            out = (out,)
        ctx.check('other-return', isinstance(out, tuple) and len(out) == nret,
                  'expected {} return values, got {!r}'.format(
                      nret, type(out)))
        for j in range(nret):
            if j in retnums:
                i = retnums.index(j)
                same_value(ctx, 'transformed-return', sp[i], not is_flat,
                           free[i], out[j], want[j],
                           'return value {}'.format(j))
            else:
                ctx.check('other-return', out[j] is rets[j],
                          'return value {} was changed'.format(j))
        ctx.check('return-intact', [snapshot(rets[j]) for j in retnums] ==
                  before, 'a return value of the function was modified')
    ctx.sig(retnums, free, is_flat, single, [s.sig() for s in sp])


def in_and_out(ctx):
    rng = ctx.rng
    sp_in, p_in = setup(ctx, 3)
    sp_out, p_out = setup(ctx, 3)
    n, m = len(sp_in), len(sp_out)
    extra_in, extra_out = (ctx.rint(0, 2) if ctx.chance(0.85) else
                           ctx.rint(8, 13) for _ in range(2))
    argnums = [int(i) for i in rng.permutation(n + extra_in)[:n]]
    single = m == 1 and extra_out == 0 and ctx.chance(0.5)
    retnums = [int(i) for i in rng.permutation(m + extra_out)[:m]]
    fin = [ctx.chance(0.5) for _ in range(n)]
    fout = [ctx.chance(0.5) for _ in range(m)]
    flatten = ctx.chance(0.5)
    ctx.notes.update(spec_in=[s.describe() for s in sp_in], argnums=argnums,
                     spec_out=[s.describe() for s in sp_out], retnums=retnums,
                     fin=fin, fout=fout, flatten=flatten)
    outs = [None] * (m + extra_out)
    want = [None] * (m + extra_out)
    for j in range(m + extra_out):
        outs[j] = want[j] = object()
    for i, j in enumerate(retnums):
        v = sp_out[i].gen(rng)
        ref = sp_out[i].build()
        if flatten:
            outs[j], want[j] = v, ref.flatten(v, free=fout[i])
        else:
            outs[j] = ref.flatten(v, free=fout[i])
            want[j] = ref.fold(outs[j], free=fout[i])
    args = [object() for _ in range(n + extra_in)]
    inner = list(args)
    for i, j in enumerate(argnums):
        v = sp_in[i].gen(rng)
        ref = sp_in[i].build()
        if flatten:
            args[j] = ref.flatten(v, free=fin[i])
            inner[j] = ref.fold(args[j], free=fin[i])
        else:
            args[j], inner[j] = v, ref.flatten(v, free=fin[i])
    fun, log = scripted(outs[0] if single else tupled(ctx, outs))
    cls = paragami.FlattenFunctionInputAndOutput if flatten else \
        paragami.FoldFunctionInputAndOutput
    num = {} if single and ctx.chance(0.5) or retnums == list(range(m)) and \
        ctx.chance(0.3) else {'output_retnums': retnums}
    g = ctx.call(cls.__name__, cls, fun, pattern_arg(ctx, p_in),
                 flag_arg(ctx, sp_in, fin), argnums, pattern_arg(ctx, p_out),
                 flag_arg(ctx, sp_out, fout), **num)
    kw = {'shift': object()}
    for _ in range(2):
        del log[:]
        res = ctx.call('call', g, *args, **kw)
        res = (res,) if single else res
        ctx.check('in-and-out', len(log) == 1 and isinstance(res, tuple) and
                  len(res) == len(outs) and
                  log[0][1].get('shift') is kw['shift'] and
                  len(log[0][0]) == len(args), 'call or return form')
        for j, a in enumerate(log[0][0]):
            if j in argnums:
                i = argnums.index(j)
                same_value(ctx, 'in-and-out', sp_in[i], not flatten, fin[i], a,
                           inner[j], 'argument {}'.format(j))
            else:
                ctx.check('in-and-out', a is args[j], 'other argument')
        for j, r in enumerate(res):
            if j in retnums:
                i = retnums.index(j)
                same_value(ctx, 'in-and-out', sp_out[i], flatten, fout[i], r,
                           want[j], 'return value {}'.format(j))
            else:
                ctx.check('in-and-out', r is outs[j], 'other return value')
    ctx.sig(argnums, retnums, fin, fout, flatten, single)


class Returning:
    """A callable which is not a function."""
    def __init__(self, rets):
        self.rets = rets

    def __call__(self):
        return self.rets


def returning(ctx, rets):
    """Something which is called and returns these."""
    def f(other=None):
        return rets
    return ctx.pick([
        f, lambda: rets, Returning(rets), Returning(rets).__call__,
        functools.partial(f, other=3),
        functools.lru_cache(None)(f)])


def bad(ctx):
    sp, pats = setup(ctx, 3)
    n = len(sp)
    M = 'bad-return-refused'
    is_flat = ctx.chance(0.5)
    vals = []
    for s in sp:
        v = s.gen(ctx.rng)
        vals.append(s.build().flatten(v, free=False) if is_flat else v)

    def make(patterns, free, retnums, rets):
        return paragami.TransformFunctionOutput(
            returning(ctx, rets), patterns, free, is_flat, retnums)
    good = list(range(n))
    if n > 1:
        ctx.must_raise(M, ValueError, 'too few returned',
                       make(pats, False, good, tuple(vals[:-1])))
        ctx.must_raise(M, ValueError, 'one returned, more expected',
                       make(pats, False, good, vals[0]))
        ctx.must_raise(M, ValueError, 'duplicates', make, pats, False,
                       [0] + good[:-1], tuple(vals))
        ctx.must_raise(M, ValueError, 'too few retnums', make, pats, False,
                       good[:-1], tuple(vals))
    # In any order of listing, among other values.
    k = n + ctx.rint(1, 3)
    nums = [int(i) for i in ctx.rng.permutation(k)[:n]]
    rets = [object()] * k
    for i, j in enumerate(nums):
        rets[j] = vals[i]
    ctx.call('enough returned', make(pats, False, nums, tuple(rets)))
    for short in range(2, max(nums) + 1):
        ctx.must_raise(M, ValueError, 'too few returned',
                       make(pats, False, nums, tuple(rets[:short])))
    ctx.must_raise(M, ValueError, 'position after the last',
                   make(pats, False, good[:-1] + [n + 1], tuple(vals)))
    ctx.must_raise(M, ValueError, 'one returned, another expected',
                   make(pats[:1], False, [ctx.rint(1, 3)], vals[0]))
    ctx.must_raise(M, ValueError, 'too many retnums', make, pats, False,
                   good + [n], tuple(vals))
    ctx.must_raise(M, ValueError, 'free of another length', make, pats,
                   [True] * (n + 1), good, tuple(vals))
    ctx.sig('bad', n, is_flat)


def refilled(ctx):
    """A function which returns the same objects, refilled for every call."""
    rng = ctx.rng
    n = ctx.rint(1, 3)
    sp = [specs.gen_spec(rng, 0.5, depth=2) if ctx.chance(0.4) else
          specs.gen_array_valued(rng, 1, 0.6) for _ in range(n)]
    ctx.notes['spec'] = [s.describe() for s in sp]
    pats = [ctx.call('build', s.build) for s in sp]
    refs = [s.build() for s in sp]
    free = [ctx.chance(0.5) for _ in sp]
    is_flat = ctx.chance(0.5)
    retnums = [int(i) for i in rng.permutation(n + ctx.rint(0, 1))[:n]]
    single = retnums == [0] and ctx.chance(0.4)
    rets = [object()] * (1 if single else max(retnums) + 1)
    buf = {}

    def refill(i, k):
        v = sp[i].gen(rng)
        if is_flat:
            v = refs[i].flatten(v, free=free[i])
        if k == 0 or not (isinstance(v, np.ndarray) or hasattr(v, 'keys')):
            buf[i] = v
        elif isinstance(v, np.ndarray):
            buf[i][...] = v
        else:
            for key in v.keys():
                buf[i][key] = v[key]
        rets[retnums[i]] = buf[i]
        return refs[i].fold(np.array(v), free=free[i]) if is_flat else \
            refs[i].flatten(v, free=free[i])

    def fun(*args, **kw):
        return rets[0] if single else tuple(rets)
    if is_flat and ctx.chance(0.5):
        g = ctx.call('FoldFunctionOutput', paragami.FoldFunctionOutput, fun,
                     pats, free, retnums)
    elif not is_flat and ctx.chance(0.5):
        g = ctx.call('FlattenFunctionOutput', paragami.FlattenFunctionOutput,
                     fun, pats, free, retnums)
    else:
        g = ctx.call('TransformFunctionOutput',
                     paragami.TransformFunctionOutput, fun, pats, free,
                     is_flat, retnums)
    for k in range(3):
        want = [refill(i, k) for i in range(n)]
        out = ctx.call('call', g, 1.0, key=k)
        out = (out,) if single else out
        for i, j in enumerate(retnums):
            same_value(ctx, 'refilled-return', sp[i], not is_flat, free[i],
                       out[j], want[i], 'call {}, value {}'.format(k, j))
    ctx.sig('refilled', [s.sig() for s in sp], free, is_flat, retnums)


def raising(ctx):
    """Whatever the function raises comes through, after one call."""
    sp, pats = setup(ctx, 2)
    exc = ctx.pick([TypeError, ValueError, IndexError, KeyError,
                    AttributeError, StopIteration, ZeroDivisionError,
                    np.linalg.LinAlgError])
    made = exc('of the function')
    calls = []

    def f(*a, **k):
        calls.append((a, k))
        raise made
    is_flat = ctx.chance(0.5)
    g = ctx.call('TransformFunctionOutput', paragami.TransformFunctionOutput,
                 f, pats, ctx.chance(0.5), is_flat)
    kw = {k: object() for k in ('scale', 'retnums') if ctx.chance(0.5)}
    ctx.log('call raising', exc.__name__, sorted(kw))
    try:
        g(1, [2], **kw)
    except Exception as e:
        ctx.check('exception-passed-on', e is made,
                  'another exception: {!r}'.format(e))
    else:
        ctx.check('exception-passed-on', False, 'the exception was dropped')
    ctx.check('called-once', len(calls) == 1 and calls[0][1] == kw,
              'calls {}'.format(calls))
    ctx.sig('raising', exc.__name__, len(kw), is_flat)


def recovering(ctx):
    """Calls which fail for what is returned do not matter to later ones."""
    sp, pats = setup(ctx, 3)
    n = len(sp)
    k = n + ctx.rint(1, 3)
    retnums = [int(i) for i in ctx.rng.permutation(k)[:n]]
    free = [ctx.chance(0.5) for _ in range(n)]
    is_flat = ctx.chance(0.5)
    script = []

    def fun():
        out = script.pop()
        if isinstance(out, Exception):
            raise out
        return out
    g = ctx.call('TransformFunctionOutput', paragami.TransformFunctionOutput,
                 fun, pats, free, is_flat, retnums)
    trace = []
    for _ in range(ctx.rint(3, 9)):
        vals = [s.gen(ctx.rng) for s in sp]
        refs = [s.build() for s in sp]
        rets, want = [object() for _ in range(k)], {}
        for i, j in enumerate(retnums):
            flat = refs[i].flatten(vals[i], free=free[i])
            rets[j] = flat if is_flat else vals[i]
            want[j] = refs[i].fold(np.array(flat), free=free[i]) if is_flat \
                else flat
        what = ctx.pick(['good', 'short', 'raise', 'malformed'])
        trace.append(what)
        if what == 'short' and max(retnums) > 1:
            script.append(tuple(rets[:ctx.rint(2, max(retnums))]))
            ctx.must_raise('bad-return-refused', ValueError, 'too few', g)
            continue
        if what == 'raise':
            e = ctx.pick([ValueError, KeyError, TypeError])('of the function')
            script.append(e)
            try:
                g()
            except Exception as got:
                ctx.check('exception-passed-on', got is e, 'another exception')
            else:
                ctx.check('exception-passed-on', False, 'dropped')
            continue
        if what == 'malformed' and is_flat:
            i = ctx.rint(0, n - 1)
            wrong = list(rets)
            wrong[retnums[i]] = np.zeros(want_length(sp[i], free[i]) + 2)
            script.append(tuple(wrong))
            ctx.must_raise('bad-return-refused', ValueError, 'malformed', g)
            continue
        script.append(tuple(rets))
        out = ctx.call('call', g)
        ctx.check('other-return', isinstance(out, tuple) and len(out) == k and
                  all(out[j] is rets[j] for j in range(k) if j not in retnums),
                  'other return values after {}'.format(trace))
        for i, j in enumerate(retnums):
            same_value(ctx, 'transformed-return', sp[i], not is_flat, free[i],
                       out[j], want[j], 'return value {} after {}'.format(
                           j, trace))
    ctx.sig('recovering', trace, retnums, is_flat)


def want_length(spec, free):
    return spec.free_len if free else spec.flat_len


def overlapping(ctx):
    """Calls of one wrapped function which overlap in time."""
    sp, pats = setup(ctx, 2)
    n = len(sp)
    free = [ctx.chance(0.5) for _ in range(n)]
    is_flat = ctx.chance(0.5)
    retnums = [int(i) + 1 for i in ctx.rng.permutation(n)]
    refs = [s.build() for s in sp]
    jobs = []
    for k in range(6):
        rets, want = [k] + [None] * n + [k], {}
        for i, j in enumerate(retnums):
            v = sp[i].gen(ctx.rng)
            if is_flat:
                rets[j] = refs[i].flatten(v, free=free[i])
                want[j] = refs[i].fold(np.array(rets[j]), free=free[i])
            else:
                rets[j], want[j] = v, refs[i].flatten(v, free=free[i])
        jobs.append((tuple(rets), want))

    def verify(monitor, k, got):
        want = jobs[k][1]
        ctx.check(monitor, isinstance(got, tuple) and len(got) == n + 2 and
                  got[0] == k and got[-1] == k,
                  'call {} returned {}'.format(k, got))
        for i, j in enumerate(retnums):
            same_value(ctx, monitor, sp[i], not is_flat, free[i], got[j],
                       want[j], 'return value {} of call {}'.format(j, k))

    def scripted_(k, nested=0):
        if nested:
            verify('re-entrant', k + 1, fun(k + 1, nested=nested - 1))
        return jobs[k][0]
    fun = ctx.call('TransformFunctionOutput', paragami.TransformFunctionOutput,
                   scripted_, pats, free, is_flat, retnums)
    verify('re-entrant', 0, ctx.call('call', fun, 0, nested=2))
    seen = []
    bad = concurrently(ctx, [
        (lambda k=k: seen.append((k, fun(k))), None)
        for k in range(len(jobs))])
    ctx.check('threads', not bad, 'concurrent: {}'.format(bad[:2]))
    for k, got in seen:
        verify('threads', k, got)
    ctx.sig('overlapping', n, retnums, free, is_flat, [s.sig() for s in sp])


WORKLOADS = [('overlapping', 1, overlapping),
             ('recovering', 1, recovering), ('main', 4, main), ('in-and-out', 3, in_and_out), ('bad', 1, bad),
             ('refilled', 1, refilled), ('raising', 1, raising)]
QUICK = 13500
THOROUGH = 100000
