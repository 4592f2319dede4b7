"""Operations are pure: nothing is changed, shared or remembered."""
import copy
import decimal
import io
import os
import random
import sys
import threading
import warnings

import autograd
import autograd.numpy as anp
import numpy as np
import scipy.sparse as sp

import paragami

from .. import specs
from ..common import snapshot

from ..specs import Dict

RULE = ('Long interleaved histories of every operation on a few patterns '
        'which share parts, with arguments and results reused, written to by '
        'the caller and fed back; after every step all arguments and every '
        'result still held are compared with what they were, and earlier '
        'operations are repeated.  Also concurrent threads on one pattern with '
        'very short time slices; and the same argument arrays overwritten '
        'between calls, against fresh patterns and arrays.  Distinct by the sequence of operations and '
        'the patterns.')
REQUIRED = {'arguments-unchanged': 2000, 'results-unchanged': 2000,
            'repeatable': 800, 'no-sharing': 300, 'threads': 50, 'stale-results': 500}


def plain(res):
    """A result as comparable data."""
    if hasattr(res, 'keys'):
        return {k: plain(v) for k, v in res.items()}
    if sp.issparse(res):
        return np.asarray(res.todense())
    if isinstance(res, (tuple, list)):
        return [plain(r) for r in res]
    if isinstance(res, (np.ndarray, np.generic, float, int, bool)):
        return np.array(res)
    return res


def same(a, b, exact):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(
            same(a[k], b[k], exact) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(
            same(x, y, exact) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or \
                a.dtype != b.dtype:
            return False
        if exact or a.dtype.kind not in 'fc':
            return np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
        with np.errstate(all='ignore'):
            s = np.max(np.abs(a[np.isfinite(a)]), initial=0)
            return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) |
                               (np.abs(a - b) <= 1e-9 * (np.abs(a) + s))))
    return a == b


def arrays(res):
    if hasattr(res, 'keys'):
        for v in res.values():
            yield from arrays(v)
    elif sp.issparse(res):
        for a in ('data', 'indices', 'indptr', 'row', 'col'):
            if isinstance(getattr(res, a, None), np.ndarray):
                yield getattr(res, a)
    elif isinstance(res, np.ndarray):
        yield res
    elif isinstance(res, (tuple, list)):
        for r in res:
            yield from arrays(r)


def pool(ctx):
    """Patterns which share sub-patterns, with their specs."""
    base = specs.gen_array_valued(ctx.rng, 1, 0.4)
    bp = ctx.call('build', base.build)
    out = [(base, bp)]
    spec = Dict([(k, base) for k in ('b', 'a')])
    pat = paragami.PatternDict()
    pat['b'] = bp
    pat['a'] = bp
    out.append((spec, pat))
    arr = specs.Arr((2,), base)
    out.append((arr, paragami.PatternArray((2,), bp)))
    outer = Dict([('z', spec), ('k', base)])
    op = paragami.PatternDict()
    op['z'] = pat
    op['k'] = bp
    out.append((outer, op))
    other = specs.gen_spec(ctx.rng, size=0.4, depth=2)
    out.append((other, ctx.call('build', other.build)))
    return out


class Held:
    """A result still held by the caller."""
    def __init__(self, op, res):
        self.op, self.res = op, res
        self.now = plain(res)


OPS = ['flatten', 'fold', 'fold-free', 'flatten-free', 'jacobian', 'unjacobian',
       'names', 'indices', 'validate', 'json', 'mask', 'empty', 'wrapper',
       'grad', 'logdet', 'eq', 'as-dict', 'str']


def perform(ctx, pool_, i, op, arg):
    """Run one operation; returns the result and whether it is bit-exact."""
    spec, pat = pool_[i]
    val, x, flat = arg
    if op == 'flatten':
        return pat.flatten(val, free=False), True
    if op == 'fold':
        return pat.fold(flat, free=False, validate_value=False), True
    if op == 'fold-free':
        return pat.fold(x, free=True), False
    if op == 'flatten-free':
        return pat.flatten(val, free=True), False
    if op == 'jacobian':
        return pat.freeing_jacobian(val, sparse=True), False
    if op == 'unjacobian':
        return pat.unfreeing_jacobian(val, sparse=True), False
    if op == 'names':
        return pat.flat_names(free=False), True
    if op == 'indices':
        m = pat.empty_bool(True)
        return pat.flat_indices(m, free=bool(spec.flat_len % 2)), True
    if op == 'validate':
        return list(pat.validate_folded(val)), True
    if op == 'as-dict':
        return pat.as_dict(), True
    if op == 'str':
        return str(pat), True
    if op == 'json':
        return pat.to_json(), True
    if op == 'mask':
        return pat.empty_bool(False), True
    if op == 'empty':
        return pat.empty(True), True
    if op == 'wrapper':
        f = paragami.FlattenFunctionInput(
            lambda v: [np.array(a) for a in specs.tree_arrays(v)],
            pat, True)
        return f(x), False
    if op == 'grad':
        def h(t):
            return sum(anp.sum(anp.sin(a))
                       for a in specs.tree_arrays(pat.fold(t, free=True)))
        return autograd.grad(h)(x), False
    if op == 'logdet':
        if isinstance(spec, specs.Num):
            return pat.log_abs_det_freeing_jacobian(val), False
        return pat.flat_length(free=True), True
    if op == 'eq':
        return bool(pat == pool_[(i + 1) % len(pool_)][1]), True
    raise AssertionError(op)


def history(ctx):
    pats = pool(ctx)
    args = []
    for spec, _ in pats:
        for _ in range(2):
            val = specs.hostile(spec, ctx.rng, spec.gen(ctx.rng),
                                ['same', 'copy', 'f', 'strided', 'reversed'])
            x = specs.gen_free(spec, ctx.rng, 1.0)
            args.append([val, x, spec.ref_flat(val)])
    held, done, trace = [], [], []
    for step in range(ctx.rint(15, 40)):
        i = ctx.rint(0, len(pats) - 1)
        j = 2 * i + ctx.rint(0, 1)
        op = ctx.pick(OPS)
        spec, pat = pats[i]
        before = [snapshot(a) for a in args]
        fresh = True
        if done and ctx.chance(0.3):
            i, j, op, want = ctx.pick(done)
            fresh = False
        trace.append((op, i))
        res, exact = ctx.call(op, perform, ctx, pats, i, op, args[j])
        if not fresh:
            ctx.check('repeatable', same(want, plain(res), exact),
                      'repeating {} gave another result'.format(op),
                      first=want, again=res)
        else:
            done.append((i, j, op, plain(res)))
        ctx.check('arguments-unchanged',
                  [snapshot(a) for a in args] == before,
                  '{} changed an argument'.format(op))
        for h in held:
            ctx.check('results-unchanged', same(h.now, plain(h.res), True),
                      '{} changed an earlier result of {}'.format(op, h.op),
                      was=h.now, now=h.res)
        if op != 'fold':                # may be a view of the flat vector
            for a in arrays(res):
                for b in arrays(args[j]):
                    ctx.check('no-sharing', not np.may_share_memory(a, b) or
                              not np.shares_memory(a, b),
                              'the result of {} shares memory with its '
                              'argument'.format(op))
        held.append(Held(op, res))
        if len(held) > 8:
            del held[ctx.rint(0, 7)]
        # The caller may do as it likes with what it was given.
        if ctx.chance(0.4):
            h = ctx.pick(held)
            if h.op != 'fold':
                for a in arrays(h.res):
                    if a.flags.writeable and a.dtype.kind in 'fbiU':
                        a[...] = ~a if a.dtype.kind == 'b' else \
                            {'f': 7.25, 'i': 5, 'U': 'name'}[a.dtype.kind]
                if isinstance(h.res, dict):
                    h.res['new key'] = np.zeros(1)
                elif isinstance(h.res, list):
                    if h.res and isinstance(h.res[0], str):
                        h.res[0] = 'changed'
                    h.res.append('added')
                held = [k for k in held if k is not h]
    ctx.sig([s.sig() for s, _ in pats], trace)


def feed_back(ctx):
    """Buffers filled anew by the caller between calls, as optimizers do."""
    spec = specs.gen_spec(ctx.rng, size=0.6)
    pat = ctx.call('build', spec.build)
    x = specs.gen_free(spec, ctx.rng, 1.0)
    buf = np.array(x)
    seen = []
    for _ in range(ctx.rint(2, 5)):
        val = ctx.call('fold', pat.fold, buf, free=True)
        ref = ctx.call('fold', pat.fold, np.array(buf), free=True)
        ctx.check('repeatable', same(plain(ref), plain(val), False),
                  'a fresh copy folds to something else')
        keep = plain(val)
        flat = ctx.call('flatten', pat.flatten, val, free=True)
        nf = ctx.call('flatten', pat.flatten, val, free=False)
        nfk = np.array(nf)
        seen.append((val, keep))
        buf[:] = specs.gen_free(spec, ctx.rng, 1.0)
        flat[:] = np.nan
        for v, k in seen:
            ctx.check('results-unchanged', same(k, plain(v), True),
                      'a folded value changed with the free vector')
        ctx.exact('results-unchanged', nf, nfk, 'flat value')
        nf[:] = 0
        for v, k in seen:
            ctx.check('results-unchanged', same(k, plain(v), True),
                      'a folded value changed with its flat value')
    ctx.sig('buffer', spec.sig())


REUSE = ['flatten', 'fold', 'fold-free', 'flatten-free', 'jacobian',
         'unjacobian', 'validate', 'wrapper', 'grad', 'logdet', 'indices']


def assign(to, frm):
    """Overwrite the arrays of a folded value in place."""
    if hasattr(to, 'keys'):
        for k in to:
            assign(to[k], frm[k])
    else:
        to[...] = frm


def write_over(ctx):
    """The same argument objects, overwritten by the caller between calls."""
    spec = specs.gen_spec(ctx.rng, size=0.5)
    pat = ctx.call('build', spec.build)
    values = [(spec.gen(ctx.rng), specs.gen_free(spec, ctx.rng, 1.0))
              for _ in range(3)]
    bad = spec.gen_outside(ctx.rng)
    fresh = {}
    val, x = plain(values[0][0]), np.array(values[0][1])
    flat = np.array(spec.ref_flat(val))
    mine = [(spec, pat)]
    trace = []
    for step in range(ctx.rint(6, 16)):
        n = ctx.rint(0, 2)
        op = ctx.pick(REUSE)
        v, t = values[n]
        if op == 'validate' and bad is not None and ctx.chance(0.5):
            n, v = 3, bad
        assign(val, v)
        x[:] = t
        flat[:] = spec.ref_flat(v)
        trace.append((op, n))
        if (op, n) not in fresh:
            # On a pattern which never saw anything else.
            new = spec.build()
            fresh[op, n] = plain(ctx.call(
                op, perform, ctx, [(spec, new)], 0, op,
                (plain(v), np.array(t), np.array(spec.ref_flat(v))))[0])
        res, _ = ctx.call(op, perform, ctx, mine, 0, op, (val, x, flat))
        ctx.check('stale-results', same(fresh[op, n], plain(res), False),
                  '{} of an overwritten argument is not that of its present '
                  'content'.format(op), fresh=fresh[op, n], got=res)
        if op == 'jacobian' or op == 'unjacobian':
            sparse = ctx.chance(0.5)
            fn = pat.freeing_jacobian if op == 'jacobian' else \
                pat.unfreeing_jacobian
            res = ctx.call(op, fn, val, sparse=sparse)
            ctx.check('stale-results', same(fresh[op, n], plain(res), False),
                      '{} sparse={}'.format(op, sparse))
    ctx.sig('write-over', spec.sig(), trace)


def threads(ctx):
    """Several threads on one pattern see what one thread sees."""
    spec = specs.gen_spec(ctx.rng, size=0.5)
    pat = ctx.call('build', spec.build)
    jobs = []
    for _ in range(6):
        val, x = spec.gen(ctx.rng), specs.gen_free(spec, ctx.rng, 1.0)
        for op, fn in (
                ('flatten', lambda v=val: pat.flatten(v, free=False)),
                ('flatten free', lambda v=val: pat.flatten(v, free=True)),
                ('fold', lambda t=x: pat.fold(t, free=True)),
                ('lengths', lambda: [pat.flat_length(free=True),
                                     pat.flat_length(free=False)]),
                ('validate', lambda v=val: list(pat.validate_folded(v))),
                ('json', lambda: pat.to_json())):
            jobs.append((op, fn, plain(fn())))
    ctx.log('serial', len(jobs))
    bad, ran = [], [0] * 4
    go = threading.Barrier(4)

    def run(k, order):
        go.wait()
        with np.errstate(all='ignore'):
            for n in order:
                op, fn, want = jobs[n]
                try:
                    got = plain(fn())
                    if not same(want, got, False):
                        bad.append('{} gave {!r} rather than {!r}'.format(
                            op, got, want))
                except Exception as e:
                    bad.append('{} raised {!r}'.format(op, e))
                ran[k] += 1
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(
            k, ctx.rng.permutation(len(jobs)))) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.log('concurrent', sum(ran))
    ctx.check('threads', not bad, 'concurrent: ' + '; '.join(bad[:3])[:600])
    ctx.sig('threads', spec.sig())


def global_state(ctx):
    """The settings of numpy and its generator are left alone."""
    spec = specs.gen_spec(ctx.rng, size=0.5)
    pat = ctx.call('build', spec.build)
    val = spec.gen(ctx.rng)
    x = specs.gen_free(spec, ctx.rng, 1.0)
    m = pat.empty_bool(True)
    js = pat.to_json()
    # Any settings but the usual ones.
    with np.errstate(**{k: ctx.pick(['warn', 'ignore']) for k in (
            'under', 'over', 'divide', 'invalid')}), \
            np.printoptions(precision=ctx.rint(3, 12)), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if ctx.chance(0.3):
            warnings.simplefilter('always', UserWarning)
        settings(ctx, spec, pat, val, x, m, js)
    ctx.sig('global', spec.sig())


def process(ctx):
    return {'numpy errors': np.geterr(), 'printing': np.get_printoptions(),
            'warnings': list(warnings.filters), 'directory': os.getcwd(),
            'environment': dict(os.environ), 'path': list(sys.path),
            'recursion': sys.getrecursionlimit(),
            'generator': random.getstate(),
            'decimal': repr(decimal.getcontext())}


def refused(ctx, spec, pat):
    """Operations which are refused, or given what is not a number."""
    bad = spec.gen_outside(ctx.rng)
    odd = np.full(spec.free_len, ctx.pick([np.nan, np.inf, 800.0, -800.0]))
    out = [lambda: pat.fold(odd, free=True),
           lambda: pat.fold(np.zeros(spec.flat_len + 1), free=False),
           lambda: pat.fold(np.zeros(spec.free_len + 1), free=True),
           lambda: pat.fold(np.full(spec.flat_len, np.nan), free=False),
           lambda: paragami.get_pattern_from_json('{"pattern": "none"}')]
    if bad is not None:
        flat = np.array(spec.ref_flat(bad))
        out += [lambda: pat.validate_folded(bad),
                lambda: pat.flatten(bad, free=True),
                lambda: pat.flatten(bad, free=True, validate_value=False),
                lambda: pat.fold(flat, free=False),
                lambda: pat.freeing_jacobian(bad),
                lambda: pat.unfreeing_jacobian(bad)]
    return [out[i] for i in ctx.rng.permutation(len(out))[:ctx.rint(1, 4)]]


def saved(val, pat):
    buf = io.BytesIO()
    paragami.save_folded(buf, val, pat)
    buf.seek(0)
    return buf


def settings(ctx, spec, pat, val, x, m, js):
    before = process(ctx)
    st = np.random.get_state()
    for fn in (lambda: pat.flatten(val, free=True),
               lambda: pat.fold(x, free=True),
               lambda: pat.fold(spec.ref_flat(val), free=False),
               lambda: pat.freeing_jacobian(val),
               lambda: pat.unfreeing_jacobian(val),
               lambda: pat.empty(True), lambda: pat.empty_bool(True),
               lambda: pat.to_json(), lambda: str(pat),
               lambda: paragami.get_pattern_from_json(js),
               lambda: pat.flat_names(False), lambda: pat.validate_folded(val),
               lambda: pat.flat_indices(m, free=True),
               lambda: pat == pat, spec.build,
               lambda: pat.log_abs_det_freeing_jacobian(val),
               lambda: pat.log_abs_det_unfreeing_jacobian(val),
               lambda: copy.deepcopy(pat), lambda: pat.flat_length(True),
               lambda: autograd.grad(lambda y: anp.sum(pat.flatten(
                   pat.fold(y, free=True), free=False)))(x),
               lambda: paragami.load_folded(saved(val, pat)),
               lambda: paragami.FlattenFunctionInput(
                   lambda v: v, pat, True)(x),
               lambda: paragami.FoldFunctionOutput(
                   lambda: x, pat, True)(),
               *refused(ctx, spec, pat), pat.random):
        ctx.log('call')
        if fn == pat.random:
            now = np.random.get_state()
        try:
            fn()
        except (ValueError, KeyError, np.linalg.LinAlgError,
                NotImplementedError):
            pass
    after = process(ctx)
    for k in before:
        ctx.check('global-state', after[k] == before[k],
                  'settings changed: ' + k, was=before[k], now=after[k])
    ctx.check('global-state', st[0] == now[0] and np.array_equal(
        st[1], now[1]) and st[2:] == now[2:], 'the generator was used')


def invalid(ctx):
    """Values outside of the set, whether refused or let through, are left
    alone too, and leave no trace."""
    spec = specs.gen_spec(ctx.rng, size=0.5, dv=0.3)
    pat = ctx.call('build', spec.build)
    good, x = spec.gen(ctx.rng), specs.gen_free(spec, ctx.rng, 1.0)
    want = plain([pat.flatten(good, free=False), pat.flatten(good, free=True),
                  pat.fold(x, free=True)])
    bad = spec.ref_unflat(ctx.rng.normal(size=spec.flat_len) * 3)
    if ctx.chance(0.4):
        bad = spec.gen_outside(ctx.rng)
        if bad is None:
            return
    bad = specs.hostile(spec, ctx.rng, bad,
                        ['same', 'copy', 'f', 'strided', 'reversed'])
    flat = np.array(spec.ref_flat(bad))
    before = snapshot([bad, flat])
    trace = []
    for _ in range(ctx.rint(3, 8)):
        op = ctx.pick(['flatten', 'flatten', 'flatten', 'fold', 'validate',
                       'jacobian', 'unjacobian'])
        kw = {'validate_value': ctx.pick([None, True, False, False])}
        free = ctx.chance(0.6)
        ctx.log(op, free, kw)
        trace.append((op, free, kw['validate_value']))
        try:
            with np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if op == 'flatten':
                    pat.flatten(bad, free=free, **kw)
                elif op == 'fold':
                    pat.fold(flat, free=False, **kw)
                elif op == 'validate':
                    pat.validate_folded(bad, **kw)
                elif op == 'jacobian':
                    pat.freeing_jacobian(bad)
                else:
                    pat.unfreeing_jacobian(bad)
        except (ValueError, np.linalg.LinAlgError):
            pass
        ctx.check('arguments-unchanged', snapshot([bad, flat]) == before,
                  '{} changed an invalid argument'.format(op),
                  spec=spec.describe(), free=free, **kw)
    again = plain([pat.flatten(good, free=False), pat.flatten(good, free=True),
                   pat.fold(x, free=True)])
    ctx.check('repeatable', same(want, again, False),
              'results differ after invalid values')
    ctx.sig('invalid', spec.sig(), trace)


WORKLOADS = [('history', 6, history), ('invalid', 2, invalid), ('feed-back', 2, feed_back),
             ('write-over', 3, write_over), ('threads', 1, threads),
             ('global-state', 1, global_state)]
QUICK = 3800
THOROUGH = 40000
