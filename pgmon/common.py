"""Helpers shared by the property modules."""
import numpy as np
import scipy.sparse

from . import rt, specs
from .rt import EPS
from .specs import Arr, Dict, INF


def free_kw(ctx, pat, free):
    """One of the ways to ask for a mode: keyword, or the default."""
    if ctx.chance(0.7):
        return {'free': free}
    pat.free_default = free
    return {}


def check_flat(ctx, flat, length, what='flat value'):
    ctx.check('flat-form', isinstance(flat, np.ndarray) and flat.ndim == 1 and
              flat.shape == (length,),
              '{}: expected a vector of length {}, got {} of shape {}'.format(
                  what, length, type(flat).__name__, np.shape(flat)))


def check_folded(ctx, spec, val):
    why = specs.same_structure(spec, val)
    ctx.check('folded-form', not why, why)


def equal_folded(ctx, monitor, spec, got, want, tol=None, msg=''):
    check_folded(ctx, spec, got)
    if tol is None:
        ctx.exact(monitor, spec.ref_flat(got), spec.ref_flat(want), msg)
    else:
        ctx.close(monitor, spec.ref_flat(got), spec.ref_flat(want), tol, msg)


def flat_form(ctx, x):
    """The same flat vector as another accepted object."""
    k = ctx.rint(0, 5)
    if k == 0:
        return list(float(i) for i in x) if x.dtype.kind == 'f' \
            else [i.item() for i in x]
    if k == 1:
        big = np.zeros(2 * x.size, dtype=x.dtype)
        big[::2] = x
        return big[::2]
    if k == 2:
        y = np.array(x)
        y.flags.writeable = False
        return y
    if k == 3:
        return np.array(x[::-1])[::-1]
    return x


def dense(a):
    return np.asarray(a.todense()) if scipy.sparse.issparse(a) \
        else np.asarray(a)


def jac_fd(f, x, h=2e-3):
    """Fourth order central differences; columns are d f / d x_j."""
    x = np.asarray(x, dtype=float)
    cols = []
    for j in range(x.size):
        e = np.zeros(x.size)
        e[j] = h
        cols.append((8 * (f(x + e) - f(x - e)) - (f(x + 2 * e) - f(x - 2 * e)))
                    / (12 * h))
    return np.stack(cols, axis=-1) if cols else np.zeros(f(x).shape + (0,))


def dir_fd(f, x, d, h=2e-3):
    """Fourth order central difference of f at x along d."""
    return (8 * (f(x + h * d) - f(x - h * d))
            - (f(x + 2 * h * d) - f(x - 2 * h * d))) / (12 * h)


def snapshot(val):
    """A deep copy including dtypes, for later exact comparison."""
    if hasattr(val, 'keys'):
        return [(k, snapshot(val[k])) for k in val.keys()]
    if isinstance(val, (list, tuple)):
        return [snapshot(v) for v in val]
    a = np.asarray(val)
    return (a.dtype.str, a.shape, a.tobytes(), a.flags.writeable)
