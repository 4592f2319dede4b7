"""Validation accepts exactly the constraint set."""
import numpy as np

from .. import specs
from ..common import free_kw
from ..rt import EPS
from ..specs import Arr, Dict, INF, Num, PSD, Simplex

RULE = ('Random pattern trees; values inside, exactly on the boundary, and '
        'outside by margins from one unit in the last place upwards, in one '
        'component only; every combination of validate_value (None, True, '
        'False) and of each pattern\'s own default (argument or attribute).  '
        'validate_folded, fold and flatten must all give the independent '
        'verdict.  Distinct by structure, kind of value and flags.')
REQUIRED = {'accepts-valid': 500, 'rejects-invalid': 300,
            'unvalidated-accepts': 200}


def expected(spec, val, vv):
    """The verdict: values are checked where the flag, or else the default of
    the pattern concerned, says so."""
    if isinstance(spec, Dict):
        return all(expected(s, val[k], vv) for k, s in spec.items)
    if isinstance(spec, Arr):
        return all(expected(spec.base, val[it], vv) for it in spec.items())
    use = spec.default_validate if vv is None else vv
    if not use:
        return True
    return in_validated_set(spec, np.asarray(val))


def in_validated_set(spec, v):
    if isinstance(spec, PSD):      # documented: definiteness is not checked
        return bool(np.array_equal(v, v.T) and
                    np.all(np.diag(v) >= spec.diag_lb))
    if isinstance(spec, Simplex):
        return bool(np.all(v >= 0) and
                    np.all(np.abs(v.sum(axis=-1) - 1) <= 1e-12))
    return spec.in_set(v)


def verdicts(ctx, spec, pat, val, vv, want, kind):
    monitor = 'accepts-valid' if want else 'rejects-invalid'
    if want and vv is False:
        monitor = 'unvalidated-accepts'
    given = specs.hostile(spec, ctx.rng, val)
    if isinstance(spec, Num) and ctx.chance(0.2):
        # Numeric patterns read lists, and numbers as vectors of length one.
        given = val.tolist()
        if spec.shape == (1,) and ctx.chance(0.7):
            given = ctx.pick([given[0], np.float64(given[0]),
                              np.array(given[0])])
    kw = {} if vv is None and ctx.chance(0.5) else {'validate_value': vv}
    res = ctx.call('validate_folded', pat.validate_folded, given, **kw)
    ctx.check('verdict-form', isinstance(res, tuple) and len(res) == 2 and
              isinstance(res[1], str) and
              isinstance(res[0], (bool, np.bool_)),
              'validate_folded returned {!r}'.format(res))
    ctx.check(monitor, bool(res[0]) == want,
              'validate_folded says {} for a value which is {}'.format(
                  res, 'valid' if want else 'invalid'),
              value=val, spec=spec.describe(), kind=kind, validate_value=vv)
    if not want:
        ctx.check('reason-given', len(res[1]) > 0, 'no reason for rejection')
    flat = spec.ref_flat(val)
    if want:
        ctx.call('flatten', pat.flatten, given, free=False, **kw)
        ctx.call('fold', pat.fold, flat, free=False, **kw)
        ctx.monitors[monitor] += 2
    else:
        ctx.must_raise(monitor, ValueError, 'flatten', pat.flatten, given,
                       free=False, **kw)
        ctx.must_raise(monitor, ValueError, 'fold', pat.fold, flat, free=False,
                       **kw)
        ctx.must_raise(monitor, ValueError, 'flatten free', pat.flatten, given,
                       free=True, **kw)
    ctx.sig(spec.sig(), kind, vv, want)


def main(ctx):
    spec = specs.gen_spec(ctx.rng, dv=ctx.pick([0.0, 0.3, 1.0]))
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for kind in ('inside', 'boundary', 'outside', 'outside'):
        if kind == 'inside':
            val = spec.gen(ctx.rng, ctx.pick(['typical', 'edge', 'extreme',
                                               'deep']))
        elif kind == 'boundary':
            val = spec.gen_boundary(ctx.rng)
        else:
            val = spec.gen_outside(ctx.rng)
            if val is None:
                continue
        for vv in (None, True, False):
            verdicts(ctx, spec, pat, val, vv, expected(spec, val, vv), kind)


def leaf(ctx):
    """One leaf, many values; the default is also reassigned."""
    spec = specs.gen_leaf(ctx.rng, 2, custom=False, dv=0.4)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    for _ in range(8):
        kind = ctx.pick(['inside', 'boundary', 'outside', 'outside',
                         'outside', 'close'])
        if kind == 'inside':
            val = spec.gen(ctx.rng, 'mixed')
        elif kind == 'boundary':
            val = spec.gen_boundary(ctx.rng)
        elif kind == 'outside':
            val = spec.gen_outside(ctx.rng)
        else:
            val = close(ctx, spec)
        if val is None:
            continue
        vv = ctx.pick([None, None, True, False])
        verdicts(ctx, spec, pat, val, vv, expected(spec, val, vv), kind)
        if ctx.chance(0.3):
            spec.default_validate = not spec.default_validate
            pat.default_validate = spec.default_validate
            ctx.log('default_validate', spec.default_validate)


def integers(ctx):
    """Values held as integers, around bounds which are not."""
    if ctx.chance(0.5):
        lo = float(ctx.pick([0.5, -0.5, 0.999, 1.25, -3.7, 1e-9, 0.0, 2]))
        hi = lo + float(ctx.pick([1.5, 4.0, 0.75, 2.001]))
        lb, ub = ctx.pick([(lo, INF), (-INF, hi), (lo, hi)])
        spec = Num(ctx.pick([(1,), (3,), (2, 2)]), lb, ub,
                   default_validate=ctx.chance(0.8))
        val = ctx.rng.integers(int(np.floor(lo)) - 1, int(np.ceil(hi)) + 1,
                               spec.shape, endpoint=True)
        if ctx.chance(0.5):
            val = np.full(spec.shape, ctx.pick(
                [int(np.floor(lo)), int(np.ceil(lo)), int(np.floor(hi)),
                 int(np.ceil(hi))]))
            val[tuple(0 for _ in spec.shape)] += ctx.rint(-1, 1)
    elif ctx.chance(0.6):
        spec = PSD(ctx.rint(1, 3), ctx.pick([0.5, 1.5, 0.0, 1, 2.999]),
                   default_validate=ctx.chance(0.8))
        val = ctx.rng.integers(0, 4, spec.shape)
        val = np.maximum(val, val.T)
        if ctx.chance(0.3):
            i, j = ctx.rint(0, spec.size - 1), ctx.rint(0, spec.size - 1)
            val[i, j] += 1
    else:
        spec = Simplex(ctx.rint(2, 4), ctx.pick([(), (2,)]),
                       default_validate=ctx.chance(0.8))
        val = np.eye(spec.size, dtype=int)[ctx.rng.integers(
            0, spec.size, spec.array_shape)]
        if ctx.chance(0.5):
            v = val.reshape(-1, spec.size)
            v[ctx.rint(0, len(v) - 1), ctx.rint(0, spec.size - 1)] += \
                ctx.pick([-1, 1])
    val = val.astype(ctx.pick([np.int64, np.int64, np.int32, np.int8]))
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    whole, value = spec, val
    if ctx.chance(0.3):
        whole = Dict([('y', Num((2,))), ('x', spec)])
        value = {'x': val, 'y': np.zeros(2)}
        pat = ctx.call('build', whole.build)
    for vv in (None, True, False):
        want = expected(spec, val.astype(float), vv)
        res = ctx.call('validate_folded', pat.validate_folded, value,
                       validate_value=vv)
        monitor = 'accepts-valid' if want else 'rejects-invalid'
        ctx.check(monitor, bool(res[0]) == want,
                  'validate_folded says {} for integers which are {}'.format(
                      res, 'valid' if want else 'invalid'), value=val)
        flat = whole.ref_flat(value)
        if whole is spec:
            flat = flat.astype(val.dtype)
        if want:
            ctx.call('flatten', pat.flatten, value, free=False,
                     validate_value=vv)
            ctx.call('fold', pat.fold, flat, free=False, validate_value=vv)
        else:
            ctx.must_raise(monitor, ValueError, 'flatten', pat.flatten, value,
                           free=False, validate_value=vv)
            ctx.must_raise(monitor, ValueError, 'fold', pat.fold, flat,
                           free=False, validate_value=vv)
        ctx.sig('integers', spec.sig(), str(val.dtype), vv, want)


def close(ctx, spec):
    """Values a hair on either side, and what is not a number."""
    rng = ctx.rng
    if ctx.chance(0.1) and not isinstance(spec, Num) or \
            isinstance(spec, Num) and ctx.chance(0.1) and spec.bound_kind():
        v = spec.gen(rng)
        v.reshape(-1)[int(rng.integers(v.size))] = np.nan
        return v
    if isinstance(spec, Simplex):
        v = spec.gen(rng).reshape(-1, spec.size)
        i, j = int(rng.integers(len(v))), int(rng.integers(spec.size))
        if ctx.chance(0.3):
            # Beneath zero by so little that the sum is still right.
            k = (j + 1) % spec.size
            v[i, k] += v[i, j]
            v[i, j] = ctx.pick([-5e-324, -1e-300, -1e-17, -1e-14, -3e-13,
                                0.0, -0.0])
            return v.reshape(spec.shape)
        d = ctx.pick([1e-13, -1e-13, 2.1e-12, -2.1e-12, 3e-12, -3e-12,
                      2e-11, -2e-11, 1e-9, -1e-9])
        if v[i, j] + d < 0:
            return None
        v[i, j] += d
        v = v.reshape(spec.shape)
        # Leave out what the accuracy of a sum cannot decide.
        off = np.abs(v.sum(axis=-1) - 1)
        if np.any((off > 5e-13) & (off < 2e-12)):
            return None
        return v
    if isinstance(spec, PSD):
        m = spec.gen(rng)
        i = int(rng.integers(spec.size))
        if spec.size > 1 and ctx.chance(0.6):
            j = (i + 1) % spec.size
            m[i, j] = np.nextafter(m[j, i], ctx.pick([-INF, INF]))
        else:
            m[i, i] = np.nextafter(spec.diag_lb, ctx.pick([-INF, INF])) \
                if ctx.chance(0.6) else spec.diag_lb
        return m
    v = spec.gen(rng).reshape(-1)
    i = int(rng.integers(v.size))
    bs = [b for b in (spec.lb, spec.ub) if np.isfinite(b)]
    if not bs:
        return None
    b = float(ctx.pick(bs))
    v[i] = ctx.pick([b, np.nextafter(b, INF), np.nextafter(b, -INF)])
    return v.reshape(spec.shape)


def indefinite(ctx):
    """Symmetric with good diagonal but not definite: documented as accepted
    by validation; and every entry pair is looked at for symmetry."""
    n = ctx.rint(2, 9)
    spec = PSD(n, ctx.pick([0.0, 0.5, 2.0]))
    ctx.notes['spec'] = spec.describe()
    pat = spec.build()
    m = ctx.rng.normal(size=(n, n)) * 5
    m = np.tril(m) + np.tril(m, -1).T
    m[np.arange(n), np.arange(n)] = spec.diag_lb + np.abs(np.diag(m))
    verdicts(ctx, spec, pat, m, True, True, 'indefinite')
    for i in range(n):
        for j in range(n):
            w = np.array(m)
            if i == j:
                w[i, i] = spec.diag_lb - 1e-9
            else:
                w[i, j] += 1e-9
            ok, _ = ctx.call('validate_folded', pat.validate_folded, w)
            ctx.check('rejects-invalid', not ok,
                      'entry {},{} is not checked'.format(i, j), value=w)


def free_unvalidated(ctx):
    """Values which are not validated are flattened freely, too: what is
    above the diagonal, or the sum of a simplex, does not stop it."""
    spec = specs.gen_spec(ctx.rng, custom=False, dv=ctx.pick([0.5, 1.0, 1.1]))
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    flat = np.array(spec.ref_flat(spec.gen(ctx.rng)), dtype=float)
    kinds = []
    for _, s, fo, _ in specs.leaves(spec):
        if s.flat_len == 0 or ctx.chance(0.5):
            continue
        if isinstance(s, PSD) and s.size > 1:
            flat[fo + s.size - 1] *= 1 + ctx.pick([1e-15, 1e-9, 0.5])
            flat[fo + s.size - 1] += ctx.pick([1e-300, 1e-9, 0.1])
        elif isinstance(s, Simplex):
            flat[fo:fo + s.size] *= ctx.pick([1 + 1e-10, 0.5, 3.0])
        elif isinstance(s, Num) and s.bound_kind():
            b = s.lb if np.isfinite(s.lb) else s.ub
            sign = 1 if np.isfinite(s.lb) else -1
            flat[fo] = b - sign * 10.0 ** ctx.rng.uniform(-6, 3)
        else:
            continue
        kinds.append(type(s).__name__)
    val = spec.ref_unflat(flat)
    with np.errstate(all='ignore'):
        for vv in (None, False, True):
            given = specs.hostile(spec, ctx.rng, val)
            kw = {'validate_value': vv}
            if expected(spec, val, vv):
                got = ctx.call('flatten free', pat.flatten, given, free=True,
                               **kw)
                ctx.check('unvalidated-accepts', np.shape(got) ==
                          (spec.free_len,), 'free vector of another length')
            else:
                ctx.must_raise('rejects-invalid', ValueError, 'flatten free',
                               pat.flatten, given, free=True, **kw)
    ctx.sig('free-unvalidated', spec.sig(), kinds)


def each_entry(ctx):
    """Each entry of an array, and each simplex, is looked at."""
    spec = specs.gen_spec(ctx.rng, 0.6, custom=False)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    base = spec.ref_flat(spec.gen(ctx.rng))
    probe_entries(ctx, spec, pat, base)
    ctx.sig(spec.sig(), 'each')


def large(ctx):
    spec = specs.gen_big(ctx.rng)
    ctx.notes['spec'] = spec.describe()
    pat = ctx.call('build', spec.build)
    val = spec.gen(ctx.rng)
    ok, why = ctx.call('validate_folded', pat.validate_folded, val)
    ctx.check('accepts-valid', ok, 'a valid value is refused: ' + why)
    probe_entries(ctx, spec, pat, spec.ref_flat(val), 12)
    ctx.sig(spec.sig(), 'large')


def probe_entries(ctx, spec, pat, base, most=80):
    for path, leafspec, fo, _ in specs.leaves(spec):
        if isinstance(leafspec, specs.Custom):
            continue
        for i in range(leafspec.flat_len):
            if spec.flat_len > most and not ctx.chance(most / spec.flat_len):
                continue
            f = np.array(base)
            if isinstance(leafspec, Num):
                if not leafspec.bound_kind():
                    continue
                b = [b for b in (leafspec.lb, leafspec.ub) if np.isfinite(b)]
                b = ctx.pick(b)
                f[fo + i] = b - 0.01 if b == leafspec.lb else b + 0.01
                if ctx.chance(0.1):
                    f[fo + i] = np.nan
            elif isinstance(leafspec, Simplex):
                f[fo + i] += ctx.pick([0.01, -2.0, 0.01, -2.0, np.nan])
            else:
                r, c = divmod(i, leafspec.size)
                f[fo + i] = leafspec.diag_lb - 0.01 if r == c \
                    else f[fo + i] + 0.01
                if ctx.chance(0.1):
                    f[fo + i] = np.nan
            val = spec.ref_unflat(f)
            ok, _ = ctx.call('validate_folded', pat.validate_folded, val)
            ctx.check('rejects-invalid', not ok,
                      'flat entry {} is not checked'.format(fo + i),
                      spec=spec.describe(), value=val)


WORKLOADS = [('main', 4, main), ('leaf', 4, leaf), ('indefinite', 1, indefinite),
             ('each-entry', 2, each_entry), ('large', 1, large),
             ('integers', 2, integers),
             ('free-unvalidated', 2, free_unvalidated)]
QUICK = 8000
THOROUGH = 100000
