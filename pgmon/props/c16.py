"""Functions of folded arguments as functions of flat ones, and back."""
import collections
import sys
import threading

import numpy as np

import paragami
from .. import specs
from ..common import snapshot
from ..specs import Dict

RULE = ('A recording function is wrapped for random patterns at random, '
        'unsorted argument positions among other positional and keyword '
        'arguments, per-argument or common mode, both directions, through the '
        'general and the convenience class, called several times with different '
        'values.  What the function receives is compared with arguments '
        'transformed one by one.  Distinct by positions, modes and structures.')
REQUIRED = {'transformed-argument': 500, 'other-argument': 300,
            'called-once': 300, 'bad-spec-refused': 100}


class Recorder:
    def __init__(self):
        self.calls = []
        self.__name__ = 'recorder'
        self.ret = None

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return self.ret


def setup(ctx, nmax=4):
    n = ctx.rint(1, nmax)
    sp = [specs.gen_spec(ctx.rng, 0.5, depth=2, fd=0.3) for _ in range(n)]
    pats = [s.build() for s in sp]
    if n > 1 and ctx.chance(0.2):      # one pattern for two positions
        i, j = (int(k) for k in ctx.rng.permutation(n)[:2])
        sp[i], pats[i] = sp[j], pats[j]
    return sp, pats


def flag_arg(ctx, sp, free):
    """The flags to give so that they mean ``free``: None stands for the
    default of the pattern."""
    given = [None if f == s.free_default and ctx.chance(0.4) else f
             for s, f in zip(sp, free)]
    if len(set(given)) == 1 and ctx.chance(0.5):
        return given[0]
    if None in given:
        return ctx.pick([given, tuple(given)])
    return ctx.pick([given, tuple(given), np.array(given)])


def same_value(ctx, monitor, spec, flat, free, got, want, msg):
    if flat:
        n = spec.free_len if free else spec.flat_len
        ctx.check(monitor, np.shape(got) == (n,), '{}: shape {}'.format(
            msg, np.shape(got)))
        tol = 1e-9 * (1 + np.abs(want)) if free else 0
        ctx.close(monitor, got, want, tol, msg)
    else:
        w = specs.flat_of(spec, want)
        tol = 1e-11 * (1 + np.abs(w)) if free else 0
        ctx.close(monitor, specs.flat_of(spec, got), w, tol, msg)


def arrays(v):
    if hasattr(v, 'keys'):
        return [a for k in v.keys() for a in arrays(v[k])]
    return [v] if isinstance(v, np.ndarray) else []


def scribble(got, arg):
    """Overwrite a transformed argument (but for views of the original)."""
    theirs = arrays(arg)
    for a in arrays(got):
        if a.flags.writeable and a.size and not any(
                np.shares_memory(a, b) for b in theirs):
            a[...] = 1 - 2 * a


def pattern_arg(ctx, pats):
    if len(pats) == 1 and ctx.chance(0.6):
        return pats[0]
    if ctx.chance(0.3):
        return tuple(pats)
    return list(pats)


Pair = collections.namedtuple('Pair', 'left right')


def main(ctx):
    sp, pats = setup(ctx)
    n = len(sp)
    total = n + (ctx.rint(0, 4) if ctx.chance(0.8) else ctx.rint(8, 14))
    argnums = [int(i) for i in ctx.rng.permutation(total)[:n]]
    implicit = ctx.chance(0.2)
    if implicit:
        argnums = list(range(n))
    free = [ctx.chance(0.5)] * n if ctx.chance(0.3) else \
        [ctx.chance(0.5) for _ in range(n)]
    free_arg = flag_arg(ctx, sp, free)
    is_flat = ctx.chance(0.5)
    ctx.notes.update(spec=[s.describe() for s in sp], argnums=argnums,
                     free=free, is_flat=is_flat)
    rec = Recorder()
    num_arg = argnums if n > 1 or ctx.chance(0.5) else argnums[0]
    if ctx.chance(0.2):
        num_arg = np.array(argnums, dtype=ctx.pick(
            ['int64', 'int32', 'int8', 'uint8', 'uint16']))
    kw = {} if implicit else {'argnums': num_arg}
    if ctx.chance(0.5):
        cls = paragami.FoldFunctionInput if is_flat else \
            paragami.FlattenFunctionInput
        fun = ctx.call(cls.__name__, cls, rec, pattern_arg(ctx, pats),
                       free_arg, **kw)
    else:
        fun = ctx.call('TransformFunctionInput',
                       paragami.TransformFunctionInput, rec,
                       pattern_arg(ctx, pats), free_arg, is_flat, **kw)
    last, again = {}, None
    for rep in range(ctx.rint(1, 4)):
        nargs = max(argnums) + 1 + ctx.rint(0, 3)
        args, want = [None] * nargs, [None] * nargs
        reused = rep > 0 and ctx.chance(0.5)
        for j in range(nargs):
            args[j] = ctx.pick([object(), 3, 'text', [1, 2], {'a': 1}, None,
                                np.arange(3.0), (1, 2), Pair(1, 2), (), ((1, 2),),
                                range(2), iter([1]), [], 'ab', {}])
            want[j] = args[j]
        for i, j in enumerate(argnums):
            val = sp[i].gen(ctx.rng)
            ref = sp[i].build()      # not the instance in the wrapper
            if is_flat:
                args[j] = specs.hostile(sp[i], ctx.rng, val)
                want[j] = ref.flatten(val, free=free[i])
            else:
                args[j] = ref.flatten(val, free=free[i])
                want[j] = ref.fold(np.array(args[j]), free=free[i])
            # The caller may have overwritten the arrays it gave before.
            if reused and isinstance(last.get(j), np.ndarray) and \
                    isinstance(args[j], np.ndarray) and \
                    last[j].shape == args[j].shape and \
                    last[j].dtype == args[j].dtype and \
                    last[j].flags.writeable:
                last[j][...] = args[j]
                args[j] = last[j]
        # The same objects, though the function changed what it was given.
        if again is not None and not reused and ctx.chance(0.5):
            args, want, nargs = list(again[0]), again[1], len(again[0])
        again = (tuple(args), want) if not reused else None
        last = {j: args[j] for j in argnums}
        kwargs = {k: ctx.pick([object(), {'a': [1]}, [1, 2], (3, 4), {5},
                               np.arange(3.0), None, 2.5, 'text'])
                  for k in ('alpha', 'free', 'x', 'argnums')
                  if ctx.chance(0.4)}
        kwbefore = {k: repr(v) for k, v in kwargs.items()}
        rec.ret = ctx.pick([object(), (1, 2), None, np.arange(2.0), 3.5])
        before = [snapshot(args[j]) for j in argnums]
        count = len(rec.calls)
        ret = ctx.call('call', fun, *args, **kwargs)
        ctx.check('called-once', len(rec.calls) == count + 1,
                  'the function was called {} times'.format(
                      len(rec.calls) - count))
        ctx.check('return-untouched', ret is rec.ret,
                  'the return value was changed')
        got, gotkw = rec.calls[-1]
        ctx.check('other-argument', len(got) == nargs,
                  '{} positional arguments and not {}'.format(len(got), nargs))
        ctx.check('other-argument', set(gotkw) == set(kwargs) and all(
            gotkw[k] is kwargs[k] for k in kwargs), 'keyword arguments')
        ctx.check('argument-intact', kwbefore == {
            k: repr(v) for k, v in kwargs.items()}, 'a keyword argument')
        for j in range(nargs):
            if j in argnums:
                i = argnums.index(j)
                same_value(ctx, 'transformed-argument', sp[i], is_flat, free[i],
                           got[j], want[j], 'argument {}'.format(j))
            else:
                ctx.check('other-argument', got[j] is args[j],
                          'argument {} was changed'.format(j))
        ctx.check('argument-intact',
                  [snapshot(args[j]) for j in argnums] == before,
                  'an argument was modified')
        if ctx.chance(0.4):
            for j in argnums:
                scribble(got[j], args[j])
    ctx.sig(argnums, free, is_flat, [s.sig() for s in sp])


def numeric_value(ctx):
    """f_flat(flatten(v)) == f(v), for a real function."""
    sp, pats = setup(ctx, 3)
    n = len(sp)
    ws = [ctx.rng.normal(size=s.flat_len) for s in sp]
    argnums = [int(i) + 1 for i in ctx.rng.permutation(n)]
    where = {argnums[i]: i for i in range(n)}

    def f(scale, *vals, shift=1.5):
        out = shift
        for j, v in enumerate(vals):
            i = where[j + 1]
            out = out * 0.5 + scale * np.sum(
                ws[i] * np.tanh(specs.flat_of(sp[i], v)))
        return out
    free = [ctx.chance(0.5) for _ in range(n)]
    fun = ctx.call('FlattenFunctionInput', paragami.FlattenFunctionInput, f,
                   pats, free, argnums)
    back = ctx.call('FoldFunctionInput', paragami.FoldFunctionInput, fun, pats,
                    free, argnums)
    vals = [s.gen(ctx.rng) for s in sp]
    byarg = [vals[where[j]] for j in sorted(where)]
    flats = [sp[where[j]].build().flatten(vals[where[j]], free=free[where[j]])
             for j in sorted(where)]
    want = f(2.0, *byarg, shift=0.25)
    sc = 1 + sum(np.sum(np.abs(w)) for w in ws)
    ctx.close('same-value', ctx.call('flat function', fun, 2.0, *flats,
                                     shift=0.25), want, 1e-9 * sc)
    ctx.close('same-value', ctx.call('folded again', back, 2.0, *byarg,
                                     shift=0.25), want, 1e-9 * sc)
    ctx.sig('value', argnums, free, [s.sig() for s in sp])


def bad(ctx):
    sp, pats = setup(ctx, 3)
    n = len(sp)
    M = 'bad-spec-refused'
    is_flat = ctx.chance(0.5)

    def make(patterns, free, argnums):
        return paragami.TransformFunctionInput(
            lambda *a: None, patterns, free, is_flat, argnums)
    good = list(range(n))
    ctx.must_raise(M, ValueError, 'too many argnums', make, pats, True,
                   good + [n])
    if n > 1:
        ctx.must_raise(M, ValueError, 'duplicates', make, pats, True,
                       [0] + good[:-1])
        ctx.must_raise(M, ValueError, 'too few argnums', make, pats, True,
                       good[:-1])
    ctx.must_raise(M, ValueError, 'free of another length', make, pats,
                   [True] * (n + 1), good)
    ctx.must_raise(M, ValueError, '2d patterns', make, [pats], True, good)
    ctx.must_raise(M, ValueError, '2d argnums', make, pats, True, [good])
    # Errors of the patterns and of the function come through.
    fun = make(pats, False, good)
    args = [s.build().flatten(s.gen(ctx.rng), free=False) for s in sp]
    if not is_flat:
        i = ctx.rint(0, n - 1)
        args[i] = np.append(args[i], 0.5)
        ctx.must_raise(M, ValueError, 'bad length', fun, *args)

    class Mine(Exception):
        pass

    def boom(*a):
        raise Mine()
    f = paragami.FlattenFunctionInput(boom, pats, False, good)
    args = [s.build().flatten(s.gen(ctx.rng), free=False) for s in sp]
    ctx.must_raise('exception-passed-on', Mine, 'raising function', f, *args)
    ctx.sig('bad', n, is_flat)


def raising(ctx):
    """Whatever the function raises comes through, after one call."""
    rng = ctx.rng
    sp, pats = setup(ctx, 3)
    n = len(sp)
    exc = ctx.pick([TypeError, ValueError, IndexError, KeyError,
                    AttributeError, AssertionError, StopIteration,
                    ZeroDivisionError, NotImplementedError, RuntimeError,
                    np.linalg.LinAlgError, FloatingPointError, MemoryError])
    made = exc('of the function')
    calls = []
    failing = ctx.chance(0.8)

    def f(*a, **k):
        calls.append((a, k))
        if failing or len(calls) < 2:
            raise made
        return 1.5
    free = [ctx.chance(0.5) for _ in range(n)]
    is_flat = ctx.chance(0.5)
    argnums = [int(i) for i in rng.permutation(n + 1)[:n]]
    g = ctx.call('TransformFunctionInput', paragami.TransformFunctionInput, f,
                 pats, free, is_flat, argnums)
    args = [object() for _ in range(n + 1)]
    for i, j in enumerate(argnums):
        v = sp[i].gen(rng)
        args[j] = v if is_flat else sp[i].build().flatten(v, free=free[i])
    kw = {k: object() for k in ('scale', 'free', 'argnums') if ctx.chance(0.5)}
    ctx.log('call raising', exc.__name__, sorted(kw))
    try:
        g(*args, **kw)
    except Exception as e:
        ctx.check('exception-passed-on', e is made,
                  'another exception: {!r}'.format(e))
    else:
        ctx.check('exception-passed-on', False, 'the exception was dropped')
    ctx.check('called-once', len(calls) == 1, '{} calls of a function which '
              'raises {}'.format(len(calls), exc.__name__))
    ctx.check('other-argument', calls[0][1].keys() == kw.keys() and all(
        calls[0][1][k] is kw[k] for k in kw), 'keyword arguments')
    # Neither does it matter to later calls.
    failing = True
    for _ in range(ctx.rint(0, 6)):
        try:
            g(*args, **kw)
        except Exception as e:
            ctx.check('exception-passed-on', e is made, 'another exception')
    failing, calls[:] = False, [None, None]
    ctx.check('other-argument', ctx.call('after failures', g, *args, **kw)
              == 1.5 and len(calls) == 3, 'another value after failures')
    got = calls[2][0]
    ctx.check('other-argument', len(got) == n + 1 and all(
        got[j] is args[j] for j in range(n + 1) if j not in argnums),
        'other arguments after failures')
    for i, j in enumerate(argnums):
        p = sp[i].build()
        same_value(ctx, 'transformed-argument', sp[i], is_flat, free[i], got[j],
                   (p.flatten if is_flat else p.fold)(args[j], free=free[i]),
                   'argument {} after failures'.format(j))
    ctx.sig('raising', exc.__name__, len(kw), argnums, failing)


def overlapping(ctx):
    """Calls of one wrapped function which overlap in time: from within the
    function itself, and from several threads."""
    sp, pats = setup(ctx, 2)
    n = len(sp)
    free = [ctx.chance(0.5) for _ in range(n)]
    is_flat = ctx.chance(0.5)
    argnums = [int(i) + 1 for i in ctx.rng.permutation(n)]
    refs = [s.build() for s in sp]
    jobs = []
    for k in range(6):
        args, want = [k] + [None] * n + [k], {}
        for i, j in enumerate(argnums):
            v = sp[i].gen(ctx.rng)
            if is_flat:
                args[j], want[j] = v, refs[i].flatten(v, free=free[i])
            else:
                args[j] = refs[i].flatten(v, free=free[i])
                want[j] = refs[i].fold(np.array(args[j]), free=free[i])
        jobs.append((args, want))

    def verify(monitor, k, got, kw):
        args, want = jobs[k]
        ctx.check(monitor, len(got) == n + 2 and got[0] == k and
                  got[-1] == k and kw == {'key': k},
                  'call {} received {} and {}'.format(k, got, kw))
        for i, j in enumerate(argnums):
            same_value(ctx, monitor, sp[i], is_flat, free[i], got[j], want[j],
                       'argument {} of call {}'.format(j, k))
    # From within the function.
    depth = []

    def inner(*a, **kw):
        k = a[0]
        depth.append(k)
        if k + 1 < 3:
            fun(*jobs[k + 1][0], key=k + 1)
        verify('re-entrant', k, a, kw)
        return k
    fun = ctx.call('TransformFunctionInput', paragami.TransformFunctionInput,
                   inner, pats, free, is_flat, argnums)
    ctx.check('re-entrant', ctx.call('call', fun, *jobs[0][0], key=0) == 0 and
              depth == [0, 1, 2], 'calls {}'.format(depth))
    # From several threads.
    seen = []

    def record(*a, **kw):
        seen.append((a, kw))
        return a[0]
    par = ctx.call('TransformFunctionInput', paragami.TransformFunctionInput,
                   record, pats, free, is_flat, argnums)
    bad = concurrently(ctx, [
        (lambda k=k: par(*jobs[k][0], key=k), k) for k in range(len(jobs))])
    ctx.check('threads', not bad, 'concurrent: {}'.format(bad[:2]))
    for a, kw in seen:
        verify('threads', a[0], a, kw)
    ctx.sig('overlapping', n, argnums, free, is_flat, [s.sig() for s in sp])


def concurrently(ctx, jobs, rounds=4):
    """Run every job in each of several threads; the wrong outcomes."""
    bad, ran = [], []
    go = threading.Barrier(3)
    orders = [[int(i) for i in ctx.rng.permutation(len(jobs) * rounds)]
              for _ in range(3)]

    def run(order):
        go.wait()
        with np.errstate(all='ignore'):
            for m in order:
                fn, want = jobs[m % len(jobs)]
                try:
                    got = fn()
                    if got != want:
                        bad.append('{!r} rather than {!r}'.format(got, want))
                except Exception as e:
                    bad.append(repr(e))
                ran.append(m)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(o,)) for o in orders]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.log('concurrent', len(ran))
    return bad


WORKLOADS = [('overlapping', 1, overlapping), ('main', 5, main), ('value', 2, numeric_value), ('bad', 1, bad),
             ('raising', 1, raising)]
QUICK = 12000
THOROUGH = 100000
