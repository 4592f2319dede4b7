"""Log-absolute-determinants equal those of the Jacobians."""
import autograd
import numpy as np

from .. import specs
from ..common import dense, dir_fd
from ..specs import Dict

RULE = ('Numeric patterns with every kind of bound and (nested) dictionaries of '
        'them, at interior, near-boundary and extreme values, against the '
        'slogdet of the reported Jacobian, an independent closed form, the '
        'negated opposite direction, and (gradients) finite differences.  '
        'Distinct by structure and kind of value.')
REQUIRED = {'slogdet': 300, 'closed-form': 300, 'gradient': 100}


def gen(ctx, depth=2):
    rng = ctx.rng
    if depth == 0 or ctx.chance(0.4):
        return specs.gen_num(rng, max_len=20, fd=0.2)
    n = ctx.rint(1, 4)
    members = []
    for _ in range(n):       # some of them the same pattern
        members.append(ctx.pick(members) if members and ctx.chance(0.15)
                       else gen(ctx, depth - 1))
    keys = [specs.KEYS[i] for i in rng.permutation(len(specs.KEYS))[:n]]
    return Dict(list(zip(keys, members)),
                free_default=specs.gen_fd(rng, 0.2))


def closed(spec, val):
    if isinstance(spec, Dict):
        return sum(np.array(closed(s, val[k])) for k, s in spec.items)
    v = np.asarray(val, float).reshape(-1)
    lo, hi = v - float(spec.lb), float(spec.ub) - v
    with np.errstate(all='ignore'):
        t = np.log(1.0 / lo + 1.0 / hi) if spec.bound_kind() else 0 * v
        return np.array([np.sum(t), np.sum(np.abs(t)) + v.size])


def main(ctx):
    spec = gen(ctx, ctx.rint(0, 3))
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for mode in ('typical', ctx.pick(['edge', 'extreme', 'mixed', 'deep'])):
        val = spec.gen(ctx.rng, mode)
        given = specs.hostile(spec, ctx.rng, val)
        f = ctx.call('log_abs_det_freeing_jacobian',
                     pat.log_abs_det_freeing_jacobian, given)
        u = ctx.call('log_abs_det_unfreeing_jacobian',
                     pat.log_abs_det_unfreeing_jacobian, given)
        ctx.check('scalar', np.ndim(f) == 0 and np.ndim(u) == 0, 'not scalars')
        want, size = closed(spec, val)
        tol = 1e-9 * (1 + size)
        ctx.close('closed-form', f, want, tol, 'freeing', value=val)
        ctx.close('closed-form', u, -want, tol, 'unfreeing', value=val)
        for which, got in (('freeing_jacobian', f), ('unfreeing_jacobian', u)):
            j = dense(ctx.call(which, getattr(pat, which), given))
            # Sum the logarithms: the product of extreme entries overflows.
            if mode == 'typical':
                sign, ld = np.linalg.slogdet(j)
                ctx.check('slogdet', sign == 1, 'sign {}'.format(sign))
            else:
                ld = np.sum(np.log(np.abs(np.diag(j))))
            ctx.close('slogdet', got, ld, tol, which, value=val)
        ctx.sig(spec.sig(), mode)


def small(ctx):
    """Several members, most of which contribute next to nothing."""
    n = ctx.rint(3, 8)
    items, val, want, size = [], {}, 0.0, 0.0
    for i in range(n):
        m = ctx.rint(1, 3)
        s = ctx.pick([specs.Num((m,), 0.0, specs.INF),
                      specs.Num((m,), 1.0, specs.INF),
                      specs.Num((m,), -specs.INF, 0.0),
                      specs.Num((m,), 0.0, 4.0)])
        e = ctx.rng.normal(size=m) * 10.0 ** ctx.rng.uniform(-7, -3)
        if s.bound_kind() == 'lu':
            v = 2 + e          # where the derivative is 1
        elif s.bound_kind() == 'u':
            v = -np.exp(e)
        else:
            v = float(s.lb) + np.exp(e)
        k = specs.KEYS[i]
        items.append((k, s))
        val[k] = v
        w, z = closed(s, v)
        want, size = want + w, size + np.sum(np.abs(e)) + 1e-3
    spec = Dict(items)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for name, w in (('log_abs_det_freeing_jacobian', want),
                    ('log_abs_det_unfreeing_jacobian', -want)):
        got = ctx.call(name, getattr(pat, name), val)
        ctx.close('closed-form', got, w, 1e-10 * size, name, value=val)
    ctx.sig('small', spec.sig(), want)


def long(ctx):
    """Many entries, all far from one in the same direction."""
    n = ctx.rint(80, 600)
    lb, ub = ctx.pick([(0.0, specs.INF), (-specs.INF, 0.0), (0.0, 1e-3),
                       (0, 1), specs.gen_bounds(ctx.rng), (0.0, 1e8)])
    spec = specs.Num((n,) if ctx.chance(0.5) else (n // 8, 8), lb, ub)
    ctx.notes['spec'] = spec.describe()
    e = ctx.pick([-9.0, -5.0, 0.0, 5.0, 9.0]) + ctx.rng.normal(size=spec.flat_len)
    d = 10.0 ** e
    if spec.bound_kind() == 'lu':
        w = float(ub) - float(lb)
        d = np.minimum(d, w / 3)
        v = np.where(ctx.rng.random(d.size) < 0.5, float(lb) + d, float(ub) - d)
        v = np.clip(v, np.nextafter(float(lb), specs.INF),
                    np.nextafter(float(ub), -specs.INF))
    elif spec.bound_kind() == 'u':
        v = np.minimum(float(ub) - d, np.nextafter(float(ub), -specs.INF))
    elif spec.bound_kind() == 'l':
        v = np.maximum(float(lb) + d, np.nextafter(float(lb), specs.INF))
    else:
        v = d
    val = v.reshape(spec.shape)
    inner = spec
    if ctx.chance(0.5):
        spec = Dict([('x', inner), ('y', specs.Num((2,)))])
        val = {'x': val, 'y': np.array([1.0, -2.0])}
    pat = ctx.call('build', spec.build)
    want, size = closed(spec, val)
    for name, w in (('log_abs_det_freeing_jacobian', want),
                    ('log_abs_det_unfreeing_jacobian', -want)):
        got = ctx.call(name, getattr(pat, name), val)
        ctx.check('finite', np.isfinite(got), 'not finite', got=got)
        ctx.close('closed-form', got, w, 1e-9 * (1 + size), name)
    ctx.sig('long', inner.sig(), e.mean())


def integers(ctx):
    """Values held as integers have the determinants of these numbers."""
    n = ctx.rint(1, 3)
    while True:
        spec = specs.gen_num(ctx.rng, max_len=12)
        if spec.ub - spec.lb >= 3:
            break
    if ctx.chance(0.5):
        spec = Dict([(specs.KEYS[i], spec) for i in range(n)])
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    val = specs.gen_integers(spec, ctx.rng)
    want, size = closed(spec, val)
    for name, w in (('log_abs_det_freeing_jacobian', want),
                    ('log_abs_det_unfreeing_jacobian', -want)):
        got = ctx.call(name, getattr(pat, name), val)
        ctx.close('closed-form', got, w, 1e-9 * (1 + size), name, value=val)
    ctx.sig('integers', spec.sig())


def gradient(ctx):
    spec = gen(ctx, ctx.rint(0, 2))
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    x = ctx.rng.normal(size=spec.free_len) * 0.7
    d = ctx.rng.normal(size=spec.free_len)
    for name in ('log_abs_det_freeing_jacobian',
                 'log_abs_det_unfreeing_jacobian'):
        def fun(y):
            return getattr(pat, name)(pat.fold(y, free=True))
        g = ctx.call('grad ' + name, autograd.grad(fun), x)
        fd = dir_fd(fun, x, d, 2e-3)
        # What rounding of bounds does to values close to them.
        t = spec.free_tol(x)
        noise = np.sum(np.where(np.isfinite(t), t, 1.0)) * 1e3
        ctx.close('gradient', g @ d, fd, 1e-6 * (1 + np.sum(np.abs(g))) + noise,
                  name, x=x, d=d)
    ctx.sig(spec.sig(), 'gradient')


def unsupported(ctx):
    """A dictionary does not answer for a member which does not."""
    spec = gen(ctx, ctx.rint(0, 2))
    other = ctx.pick([specs.PSD(ctx.rint(1, 3)), specs.Simplex(
        ctx.rint(2, 3), (ctx.rint(1, 2),))])
    if ctx.chance(0.3):
        other = Dict([('inner', other)])
    items = [('x', spec), ('y', other)]
    if ctx.chance(0.5):
        items.reverse()
    whole = Dict(items)
    if ctx.chance(0.3):
        whole = Dict([('outer', whole), ('z', specs.Num((2,)))])
    ctx.notes['spec'] = whole.describe()
    pat, part = ctx.call('build', whole.build), other.build()
    val = whole.gen(ctx.rng)
    at = val['outer']['y'] if 'outer' in val else val['y']
    for name in ('log_abs_det_freeing_jacobian',
                 'log_abs_det_unfreeing_jacobian'):
        try:
            getattr(part, name)(at)
        except NotImplementedError:
            ctx.must_raise('unsupported-refused', NotImplementedError, name,
                           getattr(pat, name), val)
    ctx.sig('unsupported', whole.sig())


WORKLOADS = [('main', 6, main), ('gradient', 2, gradient),
             ('long', 2, long), ('unsupported', 1, unsupported),
             ('integers', 1, integers), ('small', 1, small)]
QUICK = 15000
THOROUGH = 80000
