"""OptimizationObjective: values, derivatives, counting, printing, logging."""
import contextlib
import io

import autograd
import autograd.numpy as anp
import numpy as np
import scipy.optimize

import paragami
from .c18 import function

RULE = ('Histories of evaluations, derivative evaluations, changes of print '
        'and log intervals and resets on one or several objectives, arguments '
        'reused and changed in place, real optimizers, overridden hooks and '
        'failing evaluations; printed lines, log and count are compared with a '
        'model after every step.  Distinct by sequence of operations.')
REQUIRED = {'value': 500, 'log': 500, 'count': 500, 'printed': 500,
            'derivative': 300}


class Model:
    def __init__(self, print_every, log_every):
        self.p, self.l, self.n = print_every, log_every, 0
        self.log = []

    def eval(self, x, v):
        out = None
        if self.p > 0 and self.n % self.p == 0:
            out = (self.n, v)
        if self.l > 0 and self.n % self.l == 0:
            self.log.append((self.n, np.array(x), v))
        self.n += 1
        return out


def captured(ctx, name, fn, *args):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        res = ctx.call(name, fn, *args)
    return res, buf.getvalue()


def check_log(ctx, obj, model):
    ctx.check('count', ctx.call('num_iterations', obj.num_iterations) ==
              model.n, 'count {} and not {}'.format(
                  obj.num_iterations(), model.n))
    log = obj.optimization_log
    ctx.check('log', len(log) == len(model.log), '{} log entries, not {}'.format(
        len(log), len(model.log)), log=log)
    for got, want in zip(log, model.log):
        ctx.check('log', len(got) == 3 and got[0] == want[0] and
                  np.array_equal(got[1], want[1]) and
                  np.array_equal(got[2], want[2], equal_nan=True),
                  'log entry differs', got=got, want=want)


def evaluate(ctx, obj, model, f, x):
    given = np.array(x)
    v, text = captured(ctx, 'f', obj.f, x)
    ctx.check('argument-unchanged', np.array_equal(x, given, equal_nan=True),
              'the argument was changed', before=given, after=x)
    want = f(given)
    ctx.check('value', np.array_equal(v, want), 'value {} and not {}'.format(
        v, want))
    out = model.eval(x, want)
    if out is None:
        ctx.check('printed', text == '', 'printed {!r}'.format(text))
    else:
        ctx.check('printed', text == 'Iter {}: f = {:0.8f}\n'.format(*out),
                  'printed {!r}, expected evaluation {}'.format(text, out))


def derivatives(ctx, obj, grad, hess, x):
    n = x.size
    g, text = captured(ctx, 'grad', obj.grad, x)
    ctx.close('derivative', g, grad(x), 1e-9 * (1 + np.max(np.abs(grad(x)))),
              'gradient')
    H, t2 = captured(ctx, 'hessian', obj.hessian, x)
    w = hess(x)
    ctx.close('derivative', H, w, 1e-9 * (1 + np.max(np.abs(w))), 'Hessian')
    v = ctx.rng.normal(size=n)
    hv, t3 = captured(ctx, 'hessian_vector_product',
                      obj.hessian_vector_product, x, v)
    ctx.close('derivative', hv, w @ v, 1e-9 * (1 + np.max(np.abs(w))) * n *
              (1 + np.max(np.abs(v))), 'Hessian-vector product')
    ctx.check('printed', text + t2 + t3 == '', 'derivatives printed')


def history(ctx):
    objs = []
    for _ in range(ctx.rint(1, 2)):
        n = ctx.rint(1, 5)
        f, grad, hess, _, _ = function(ctx, n)
        kw = {}
        if ctx.chance(0.7):
            kw['print_every'] = ctx.pick([0, 1, 2, 3, 5])
        if ctx.chance(0.7):
            kw['log_every'] = ctx.pick([0, 1, 2, 3, 7])
        obj = ctx.call('OptimizationObjective', paragami.OptimizationObjective,
                       f, **kw)
        objs.append((obj, Model(kw.get('print_every', 1),
                                kw.get('log_every', 0)), f, grad, hess, n,
                     np.zeros(n)))
    trace = []
    for _ in range(ctx.rint(8, 30)):
        obj, model, f, grad, hess, n, buf = ctx.pick(objs)
        op = ctx.pick(['f', 'f', 'f', 'f', 'f-inplace', 'f-inplace', 'deriv',
                       'print', 'log', 'reset', 'reset-count', 'reset-log'])
        trace.append(op)
        if op == 'f':
            x = ctx.rng.normal(size=n)
            evaluate(ctx, obj, model, f, x)
        elif op == 'f-inplace':
            # One array, changed in place between evaluations.
            evaluate(ctx, obj, model, f, buf)
            if ctx.chance(0.4):
                derivatives(ctx, obj, grad, hess, buf)
            buf += ctx.rng.normal(size=n)
        elif op == 'deriv':
            derivatives(ctx, obj, grad, hess, ctx.rng.normal(size=n))
        elif op == 'print':
            model.p = ctx.pick([0, 1, 2, 4])
            ctx.call('set_print_every', obj.set_print_every, model.p)
        elif op == 'log':
            model.l = ctx.pick([0, 1, 2, 3])
            ctx.call('set_log_every', obj.set_log_every, model.l)
        elif op == 'reset':
            ctx.call('reset', obj.reset)
            model.n, model.log = 0, []
        elif op == 'reset-count':
            ctx.call('reset_iteration_count', obj.reset_iteration_count)
            model.n = 0
        elif op == 'reset-log':
            ctx.call('reset_log', obj.reset_log)
            model.log = []
        for o, m, *_ in objs:
            check_log(ctx, o, m)
    ctx.sig(trace)


def kept(ctx):
    """A log taken out before a reset keeps its entries."""
    f, _, _, _, _ = function(ctx, 2)
    obj = paragami.OptimizationObjective(f, print_every=0, log_every=1)
    xs = ctx.rng.normal(size=(ctx.rint(1, 5), 2))
    for x in xs:
        ctx.call('f', obj.f, x)
    old = obj.optimization_log
    n = len(old)
    ctx.call('reset_log', obj.reset_log)
    ctx.check('log', len(obj.optimization_log) == 0, 'not cleared')
    ctx.call('f', obj.f, xs[0])
    ctx.check('log', len(old) == n and len(obj.optimization_log) == 1 and
              all(np.array_equal(e[1], x) for e, x in zip(old, xs)),
              'the old log was changed')
    ctx.check('count', obj.num_iterations() == n + 1, 'count')
    ctx.sig('kept', n)



def failing(ctx):
    """A failing evaluation is not counted, logged or printed."""
    bad = {'on': False}
    Boom = ctx.pick([type('Boom', (Exception,), {}), TypeError, ValueError,
                     FloatingPointError, ZeroDivisionError, StopIteration,
                     np.linalg.LinAlgError, KeyError])

    def f(x):
        if bad['on']:
            raise Boom()
        return anp.sum(x ** 2)
    obj = paragami.OptimizationObjective(f, print_every=1, log_every=1)
    model = Model(1, 1)
    for _ in range(ctx.rint(3, 8)):
        x = ctx.rng.normal(size=3)
        bad['on'] = ctx.chance(0.4)
        if bad['on']:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                ctx.must_raise('failure-passed-on', Boom, 'f', obj.f, x)
            ctx.check('printed', buf.getvalue() == '', 'printed')
        else:
            evaluate(ctx, obj, model, f, x)
        check_log(ctx, obj, model)
    ctx.sig('failing', model.n, Boom.__name__)


def special(ctx):
    """Values which are not finite, and of other types."""
    vals = [float('nan'), float('inf'), -float('inf'), 0.0, -0.0, 1e300,
            5e-324, 3, np.float64(2.5), np.float32(0.1), np.array(1.25),
            True, -7.5e12]
    script = [ctx.pick(vals) for _ in range(ctx.rint(3, 10))]
    it = iter(script)
    obj = paragami.OptimizationObjective(
        lambda x: next(it), print_every=ctx.pick([1, 2]),
        log_every=ctx.pick([1, 2]))
    pe, le = ctx.pick([0, 1, 2]), ctx.pick([0, 1, 3])
    obj.set_print_every(pe)
    obj.set_log_every(le)
    model = Model(pe, le)
    for v in script:
        x = ctx.rng.normal(size=2)
        if ctx.chance(0.2):
            x[0] = ctx.pick([np.nan, np.inf])
        got, text = captured(ctx, 'f', obj.f, x)
        ctx.check('value', got is v, 'value {!r} and not {!r}'.format(got, v))
        out = model.eval(x, v)
        ctx.check('printed', text == ('' if out is None else
                  'Iter {}: f = {:0.8f}\n'.format(*out)),
                  'printed {!r}, expected {}'.format(text, out))
        ctx.check('count', obj.num_iterations() == model.n, 'count')
        ctx.check('log', len(obj.optimization_log) == len(model.log) and all(
            a[0] == b[0] and np.array_equal(a[1], b[1], equal_nan=True) and
            a[2] is b[2] for a, b in zip(obj.optimization_log, model.log)),
            'log', got=obj.optimization_log, want=model.log)
    ctx.sig('special', [repr(v) for v in script], pe, le)


def optimizer(ctx):
    """Under real optimizers every evaluation is seen once, in order."""
    n = ctx.rint(1, 4)
    b = ctx.rng.normal(size=(n, n))
    q = b @ b.T + np.eye(n)
    c = ctx.rng.normal(size=n)
    seen = []

    def f(x):
        if isinstance(x, np.ndarray):
            seen.append(np.array(x))
        return 0.5 * anp.dot(x, anp.dot(q, x)) + anp.dot(c, x)
    le = ctx.pick([1, 2, 3])
    obj = paragami.OptimizationObjective(f, print_every=0, log_every=le)
    method = ctx.pick(['Nelder-Mead', 'BFGS', 'trust-ncg', 'Newton-CG',
                       'L-BFGS-B'])
    kw = {}
    if method != 'Nelder-Mead':
        kw['jac'] = obj.grad
    if method == 'trust-ncg':
        kw['hess'] = obj.hessian
    if method == 'Newton-CG':
        kw['hessp'] = obj.hessian_vector_product
    _, text = captured(ctx, 'minimize', lambda: scipy.optimize.minimize(
        lambda x: obj.f(x), np.zeros(n), method=method,
        options={'maxiter': 25}, **kw))
    ctx.check('printed', text == '', 'printed')
    ctx.check('count', obj.num_iterations() == len(seen), 'count {} of {}'.format(
        obj.num_iterations(), len(seen)))
    log = obj.optimization_log
    want = [(i, x) for i, x in enumerate(seen) if i % le == 0]
    ctx.check('log', len(log) == len(want), 'length of the log')
    for e, (i, x) in zip(log, want):
        ctx.check('log', e[0] == i and np.array_equal(e[1], x) and
                  e[2] == 0.5 * np.dot(x, q @ x) + np.dot(c, x),
                  'log entry differs', got=e, want=(i, x))
    ctx.sig(method, n, len(seen))


def overridden(ctx):
    """Custom printing and logging are used, with the documented arguments."""
    rec = []

    class Mine(paragami.OptimizationObjective):
        def print_value(self, num_f_evals, x, f_val):
            rec.append(('print', num_f_evals, np.array(x), f_val))

        def log_value(self, num_f_evals, x, f_val):
            rec.append(('log', num_f_evals, np.array(x), f_val))
            if entry is not None:
                self.optimization_log.append(entry)
    # Custom logs may hold anything.
    entry = ctx.pick([None, (1000, 0.0), (-5,), 'text', {'x': 1}, 17])
    f, _, _, _, _ = function(ctx, 2)
    pe, le = ctx.pick([0, 1, 2]), ctx.pick([0, 1, 3])
    if ctx.chance(0.5):
        obj = Mine(f, print_every=pe, log_every=le)
    else:
        # Replaced on the object itself.
        obj = paragami.OptimizationObjective(f, print_every=pe, log_every=le)
        for name in ('print_value', 'log_value'):
            setattr(obj, name, getattr(Mine, name).__get__(obj))
    want = []
    for i in range(ctx.rint(3, 9)):
        x = ctx.rng.normal(size=2)
        v, text = captured(ctx, 'f', obj.f, x)
        ctx.check('printed', text == '', 'printed')
        if pe and i % pe == 0:
            want.append(('print', i, x, v))
        if le and i % le == 0:
            want.append(('log', i, x, v))
    ctx.check('count', obj.num_iterations() == i + 1,
              '{} counted of {}'.format(obj.num_iterations(), i + 1))
    if entry is not None:
        ctx.check('log', list(obj.optimization_log) == [entry] * sum(
            w[0] == 'log' for w in want), 'a custom log')
    ctx.check('log', len(rec) == len(want) and sorted(
        (r[1], r[0]) for r in rec) == sorted((r[1], r[0]) for r in want),
        'hooks were not called as documented')
    for r, w in zip(sorted(rec, key=lambda t: t[:2]),
                    sorted(want, key=lambda t: t[:2])):
        ctx.check('log', np.array_equal(r[2], w[2]) and r[3] == w[3], 'values')
    ctx.sig(pe, le, len(want))


def nested(ctx):
    """Evaluations made while another one is under way are counted, too."""
    total, where = [0], 'function'
    depth = ctx.rint(1, 3)

    def f(x):
        total[0] += 1
        if x[0] > 0.5:
            obj.f(x - 1.0)
        return float(np.sum(x ** 2))
    obj = paragami.OptimizationObjective(f, print_every=0, log_every=1)
    for i in range(ctx.rint(2, 6)):
        x = np.array([float(ctx.rint(0, depth)), ctx.rng.normal()])
        v = ctx.call('f', obj.f, x)
        ctx.check('value', v == float(np.sum(x ** 2)), 'value')
        ctx.check('count', obj.num_iterations() == total[0],
                  '{} counted of {}, some of them made from the {}'.format(
                      obj.num_iterations(), total[0], where))
    ctx.sig('nested', where, depth, total[0])


def long(ctx):
    """Thousands of evaluations, as optimizers make."""
    n = int(10 ** ctx.rng.uniform(2, 3.7))
    pe, le = (ctx.pick([0, 1, 7, 100, 256, 1000]) for _ in range(2))
    if pe and n // pe > 500:
        pe = 100
    calls = [0]

    def f(x):
        calls[0] += 1
        return 0.25 * calls[0]
    obj = paragami.OptimizationObjective(f, print_every=pe, log_every=le)
    x = np.zeros(1)

    def many():
        for i in range(n):
            x[0] = i
            obj.f(x)
    _, text = captured(ctx, 'f', many)
    ctx.check('count', obj.num_iterations() == n, 'count {} and not {}'.format(
        obj.num_iterations(), n))
    ctx.check('printed', text == ''.join(
        'Iter {}: f = {:0.8f}\n'.format(i, 0.25 * (i + 1))
        for i in (range(0, n, pe) if pe else ())), 'printed', text=text)
    want = [(i, float(i), 0.25 * (i + 1))
            for i in (range(0, n, le) if le else ())]
    ctx.check('log', [(e[0], e[1][0], e[2]) for e in obj.optimization_log] ==
              want, 'the log of many evaluations differs')
    ctx.check('count', calls[0] == n, 'evaluated {} times'.format(calls[0]))
    ctx.sig('long', n, pe, le)


def wide(ctx):
    """Arguments of many entries, in one array changed in place."""
    n = int(10 ** ctx.rng.uniform(1.5, 3.7))
    c = ctx.rng.normal(size=n)

    def f(x):
        return anp.dot(c, x) + 0.5 * anp.sum(x ** 2)
    pe, le = ctx.pick([0, 0, 1, 3]), ctx.pick([1, 2, 3])
    obj = paragami.OptimizationObjective(f, print_every=pe, log_every=le)
    model = Model(pe, le)
    x = np.zeros(n)
    for _ in range(ctx.rint(3, 8)):
        if ctx.chance(0.8):
            x[:] = ctx.rng.normal(size=n) * 10.0 ** ctx.pick([0, 0, -12, 6])
            if ctx.chance(0.3):
                x *= 10.0 ** ctx.rng.uniform(-20, 0, size=n)
        else:
            x[ctx.rint(0, n - 1)] += 1.0
        evaluate(ctx, obj, model, f, x)
        check_log(ctx, obj, model)
        if ctx.chance(0.3):
            g = ctx.call('grad', obj.grad, x)
            ctx.close('derivative', g, c + x, 1e-12 * (
                1 + np.abs(c) + np.abs(x)))
            hv = ctx.call('hvp', obj.hessian_vector_product, x, c)
            ctx.close('derivative', hv, c, 1e-12 * (1 + np.abs(c)))
            check_log(ctx, obj, model)
    ctx.sig('wide', n, pe, le, model.n)


WORKLOADS = [('history', 5, history), ('kept', 1, kept), ('long', 1, long), ('wide', 1, wide),
             ('failing', 1, failing), ('nested', 1, nested), ('optimizer', 1, optimizer),
             ('overridden', 1, overridden), ('special', 1, special)]
QUICK = 11000
THOROUGH = 60000
