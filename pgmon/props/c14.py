"""Saved folded values are loaded exactly, with pattern and extra data."""
import io
import os
import pathlib
import shutil
import tempfile
from collections import OrderedDict

import numpy as np

import paragami
from .. import specs
from ..common import check_folded, equal_folded, snapshot
from ..rt import Violation

RULE = ('Histories of saves and loads of random pattern trees in a scratch '
        'directory: names with and without extension, Path and file objects, '
        'overwriting, several files, extra arrays, invalid values; then faults: '
        'the file truncated at a random byte, or a byte flipped, where loading '
        'must fail or give exactly what was saved.  Distinct by structure and '
        'target, and by fault outcome.')
REQUIRED = {'loaded-value-exact': 300, 'loaded-pattern': 300,
            'fault-detected': 200}
ASSUMPTIONS = ['a flipped byte outside of what the zip checksum covers may be '
               'harmless; then the loaded value must be the saved one']


EXTRAS = ('x', 'notes', 'n_obs', 'flat', 'pattern2', 'lb', '_seed', '__init',
          'arr_0', 'Flat_val', 'a b', 'folded', 'free', 'é', 'allow_pickle2',
          'flat_val_', 'npy')


def extra(ctx):
    out = {}
    for k in EXTRAS:
        if ctx.chance(0.15):
            out[k] = ctx.pick([
                ctx.rng.normal(size=(2, 3)), np.arange(4), 'text é', 3.5,
                np.array([], dtype=float), np.array([True, False]),
                np.array(['a', 'bb']), np.array(['x']), np.ones((1, 1)),
                np.array([7.5]), np.array([[b'y']]), 2 ** 62 + 1,
                np.array([2 ** 62 + 1, -3]), np.arange(3, dtype='uint8'),
                np.array([0.1, 1e30], dtype='float32'),
                np.array([1 + 2j, -0.5j]), np.array(-0.0),
                np.array('2020-01-02', dtype='datetime64[D]'), b'bytes',
                np.zeros((0, 3), dtype='int16'), [[1, 2], [3, 4]], True,
                np.array([np.nan, np.inf, 5e-324]),
                np.asfortranarray(ctx.rng.normal(size=(3, 2)))])
    return out


def compare(ctx, spec, pat, val, ex, res):
    ctx.check('load-form', isinstance(res, tuple) and len(res) == 3,
              'load_folded returned {!r}'.format(type(res)))
    got, newpat, data = res
    equal_folded(ctx, 'loaded-value-exact', spec, got, val, None, 'value')
    ctx.check('loaded-pattern', newpat == pat and type(newpat) is type(pat)
              and newpat.to_json() == pat.to_json(),
              'the loaded pattern is another one')
    for k in EXTRAS:
        ctx.check('loaded-extra', k in ex or k not in data,
                  'an extra {!r} which was not saved'.format(k))
    for k, v in ex.items():
        ctx.check('loaded-extra', k in data, 'extra {!r} is missing'.format(k))
        ctx.exact('loaded-extra', data[k], np.asarray(v), k)
        ctx.check('loaded-extra', data[k].dtype == np.asarray(v).dtype,
                  'extra {!r} of type {} and not {}'.format(
                      k, data[k].dtype, np.asarray(v).dtype))
    if ctx.chance(0.3):       # the loaded pattern works
        flat = ctx.call('flatten', newpat.flatten, got, free=False)
        ctx.exact('loaded-value-exact', flat, spec.ref_flat(val))


def scratch():
    return tempfile.mkdtemp(prefix='pgmon-c14-')


def make(ctx, mode=None):
    if ctx.chance(0.15):
        # What is not validated by default may be anything.
        spec = specs.gen_spec(ctx.rng, custom=False, fd=0.3, dv=1.1)
        val = spec.gen_outside(ctx.rng)
        if val is not None:
            return spec, spec.build(), val
    if ctx.chance(0.06):                # held as integers
        spec = specs.gen_integer_spec(ctx.rng)
        return spec, spec.build(), specs.gen_integers(spec, ctx.rng)
    spec = specs.gen_spec(ctx.rng, fd=0.3, dv=0.3) if ctx.chance(0.96) \
        else specs.gen_big(ctx.rng)
    val = spec.gen_boundary(ctx.rng) if ctx.chance(0.25) else \
        spec.gen(ctx.rng, mode or ctx.pick(['typical', 'edge', 'extreme', 'deep']))
    return spec, spec.build(), val


def histories(ctx):
    d = scratch()
    try:
        model = {}
        names = ['a', 'b.npz', 'c.dat', 'sub dir/é', 'a.b.c']
        if ctx.chance(0.5):      # which another may be derived from
            names = ['a', 'a.npz.npz', 'a.tmp', 'tmp', 'a_tmp', '.a', 'a~',
                     'a.bak', 'a.npz.tmp', 'a.json', 'A', 'a0', 'a_old']
            names = names[:1] + [names[i] for i in 1 + ctx.rng.permutation(
                len(names) - 1)[:3]]
        for step in range(ctx.rint(2, 8)):
            name = ctx.pick(names)
            path = os.path.join(d, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            real = path if path.endswith('.npz') else path + '.npz'
            if real in model and ctx.chance(0.4):
                res = ctx.call('load_folded', paragami.load_folded, real)
                compare(ctx, *model[real], res)
                res[2].close()
                continue
            spec, pat, val = make(ctx)
            ex = extra(ctx)
            given = specs.hostile(spec, ctx.rng, val)
            before = snapshot(given)
            target = pathlib.Path(path) if ctx.chance(0.3) else path
            ctx.call('save_folded', paragami.save_folded, target, given, pat,
                     **ex)
            ctx.check('argument-intact', snapshot(given) == before, 'changed')
            ctx.check('saved-where-asked', os.path.isfile(real),
                      'no file at {}'.format(real))
            model[real] = (spec, pat, val, ex)
            ctx.sig(spec.sig(), name, len(ex))
        for real, what in model.items():
            res = ctx.call('load_folded', paragami.load_folded, real)
            compare(ctx, *what, res)
            res[2].close()
        ctx.check('saved-where-asked', sorted(
            os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)
            == sorted(model), 'stray or missing files')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def file_objects(ctx):
    spec, pat, val = make(ctx)
    ex = extra(ctx)
    buf = io.BytesIO()
    ctx.call('save_folded', paragami.save_folded, buf,
             specs.hostile(spec, ctx.rng, val), pat, **ex)
    buf.seek(0)
    compare(ctx, spec, pat, val, ex,
            ctx.call('load_folded', paragami.load_folded, buf))
    ctx.sig(spec.sig(), 'buffer')


def refused(ctx):
    """An invalid value is not saved."""
    spec = specs.gen_spec(ctx.rng)
    bad = spec.gen_outside(ctx.rng)
    if bad is None:
        return
    d = scratch()
    try:
        path = os.path.join(d, 'f.npz')
        ctx.must_raise('invalid-not-saved', ValueError, 'save_folded',
                       paragami.save_folded, path, bad, spec.build())
        ctx.check('invalid-not-saved', not os.path.exists(path), 'a file')
        # A good file is not clobbered by the refusal.
        val = spec.gen(ctx.rng)
        pat = spec.build()
        ctx.call('save_folded', paragami.save_folded, path, val, pat)
        ctx.must_raise('invalid-not-saved', ValueError, 'save_folded',
                       paragami.save_folded, path, bad, pat)
        res = ctx.call('load_folded', paragami.load_folded, path)
        compare(ctx, spec, pat, val, {}, res)
        res[2].close()
        ctx.sig(spec.sig(), 'refused')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def faults(ctx):
    """Never a wrong value out of a damaged file."""
    spec, pat, val = make(ctx)
    buf = io.BytesIO()
    paragami.save_folded(buf, val, pat, x=np.arange(3))
    raw = buf.getvalue()
    for _ in range(8):
        kind = ctx.pick(['truncate', 'flip', 'zero-tail'])
        cut = ctx.rint(0, len(raw) - 1)
        if kind == 'truncate':
            bad = raw[:cut]
        elif kind == 'flip':
            b = bytearray(raw)
            b[cut] ^= 1 << ctx.rint(0, 7)
            bad = bytes(b)
        else:
            bad = raw[:cut] + bytes(len(raw) - cut)
        ctx.log('fault', kind, cut)
        try:
            got, newpat, _ = paragami.load_folded(io.BytesIO(bad))
        except Exception as e:
            ctx.monitors['fault-detected'] += 1
            ctx.sig(kind, type(e).__name__)
            continue
        ctx.check('fault-harmless', newpat == pat,
                  'a damaged file loaded as another pattern', fault=kind,
                  at=cut)
        equal_folded(ctx, 'fault-harmless', spec, got, val, None,
                     'a damaged file loaded as another value')
        ctx.sig(kind, 'harmless')


WORKLOADS = [('histories', 3, histories), ('file-objects', 3, file_objects),
             ('refused', 1, refused), ('faults', 1, faults)]
QUICK = 5000
THOROUGH = 50000
