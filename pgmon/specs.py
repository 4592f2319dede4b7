"""Descriptions of patterns, and an independent reference for each.

A spec says what a pattern is; ``build`` makes the real pattern from the public
API.  Everything else in a spec (layout, membership in the constraint set,
values, tolerances) is computed here, without the monitored code.
"""
import itertools
import zlib
from collections import OrderedDict

import numpy as np

import paragami
from paragami.base_patterns import Pattern

from .rt import EPS

INF = float('inf')


# --------------------------------------------------------------------------
# User-defined patterns, as the documentation of the package invites.

class Ordered(Pattern):
    """A strictly increasing vector (free: first value and log increments)."""
    def __init__(self, n, free_default=None):
        self.n = n
        super().__init__(n, n, free_default=free_default)

    def __str__(self):
        return 'Ordered {}'.format(self.n)

    def as_dict(self):
        return {'pattern': self.json_typename(), 'n': self.n,
                'free_default': self.free_default}

    def empty(self, valid):
        return np.arange(self.n) * 1.0

    def validate_folded(self, folded_val, validate_value=None):
        if np.shape(folded_val) != (self.n,):
            return False, 'Wrong shape.'
        if validate_value is None:
            validate_value = True
        if validate_value and np.any(folded_val[1:] < folded_val[:-1]):
            return False, 'Not increasing.'
        return True, ''

    def fold(self, flat_val, free=None, validate_value=None):
        import autograd.numpy as anp
        free = self._free_with_default(free)
        flat_val = anp.atleast_1d(flat_val)
        if flat_val.shape != (self.n,):
            raise ValueError('Wrong size.')
        if free:
            inc = anp.hstack([flat_val[:1], anp.exp(flat_val[1:])])
            return anp.cumsum(inc)
        ok, msg = self.validate_folded(flat_val, validate_value)
        if not ok:
            raise ValueError(msg)
        return anp.array(flat_val)

    def flatten(self, folded_val, free=None, validate_value=None):
        import autograd.numpy as anp
        free = self._free_with_default(free)
        ok, msg = self.validate_folded(folded_val, validate_value)
        if not ok:
            raise ValueError(msg)
        if free:
            return anp.hstack([folded_val[:1],
                               anp.log(folded_val[1:] - folded_val[:-1])])
        return anp.array(folded_val)

    def flat_indices(self, folded_bool, free=None):
        free = self._free_with_default(free)
        if np.shape(folded_bool) != (self.n,):
            raise ValueError('Wrong shape.')
        if free:
            on = np.flatnonzero(folded_bool)
            return np.arange(on[-1] + 1 if len(on) else 0)
        return np.flatnonzero(folded_bool)


class SumZero(Pattern):
    """A vector which sums to zero (free: all entries but the last)."""
    def __init__(self, n, free_default=None):
        self.n = n
        super().__init__(n, n - 1, free_default=free_default)

    def __str__(self):
        return 'SumZero {}'.format(self.n)

    def as_dict(self):
        return {'pattern': self.json_typename(), 'n': self.n,
                'free_default': self.free_default}

    def empty(self, valid):
        return np.zeros(self.n)

    def validate_folded(self, folded_val, validate_value=None):
        if np.shape(folded_val) != (self.n,):
            return False, 'Wrong shape.'
        if validate_value is None:
            validate_value = True
        import autograd.numpy as anp
        if validate_value and abs(anp.sum(folded_val)) > \
                1e-9 * (1 + anp.sum(anp.abs(folded_val))):
            return False, 'Does not sum to zero.'
        return True, ''

    def fold(self, flat_val, free=None, validate_value=None):
        import autograd.numpy as anp
        free = self._free_with_default(free)
        flat_val = anp.atleast_1d(flat_val)
        if flat_val.shape != (self.flat_length(free),):
            raise ValueError('Wrong size.')
        if free:
            return anp.hstack([flat_val, -1 * anp.sum(flat_val)])
        ok, msg = self.validate_folded(flat_val, validate_value)
        if not ok:
            raise ValueError(msg)
        return anp.array(flat_val)

    def flatten(self, folded_val, free=None, validate_value=None):
        import autograd.numpy as anp
        free = self._free_with_default(free)
        ok, msg = self.validate_folded(folded_val, validate_value)
        if not ok:
            raise ValueError(msg)
        return anp.array(folded_val[:-1] if free else folded_val)

    def flat_indices(self, folded_bool, free=None):
        free = self._free_with_default(free)
        if np.shape(folded_bool) != (self.n,):
            raise ValueError('Wrong shape.')
        on = np.flatnonzero(folded_bool)
        if not free:
            return on
        if len(on) and on[-1] == self.n - 1:
            return np.arange(self.n - 1)
        return on


def register_custom():
    for cls in (Ordered, SumZero):
        try:
            paragami.register_pattern_json(cls)
        except ValueError:
            pass


register_custom()


# --------------------------------------------------------------------------
# Specs

def given_args(spec, **kw):
    """For half of the specs, leave out the arguments which equal the
    documented defaults."""
    defaults = {'lb': -INF, 'ub': INF, 'diag_lb': 0.0,
                'default_validate': True, 'free_default': None}
    if zlib.crc32(spec.describe().encode()) % 2:
        kw = {k: v for k, v in kw.items()
              if not (k in defaults and defaults[k] == v)}
    return kw


class Spec:
    """Base.  flat_len, free_len, shape (None for dictionaries)."""
    free_default = None
    shape = None

    def __repr__(self):
        return self.describe()

    def walk(self):
        yield self

    def depth(self):
        return 1


class ArraySpec(Spec):
    """A spec whose folded values are numpy arrays, flattened row-major."""
    def ref_flat(self, val):
        val = np.asarray(val)
        out = np.empty(self.flat_len, dtype=val.dtype)
        for i, item in enumerate(itertools.product(
                *[range(n) for n in self.shape])):
            out[i] = val[item]
        return out

    def ref_unflat(self, flat):
        flat = np.asarray(flat)
        out = np.empty(self.shape, dtype=flat.dtype)
        for i, item in enumerate(itertools.product(
                *[range(n) for n in self.shape])):
            out[item] = flat[i]
        return out


class Num(ArraySpec):
    def __init__(self, shape, lb=-INF, ub=INF, default_validate=True,
                 free_default=None, cls='array'):
        self.shape = tuple(shape)
        self.lb, self.ub = lb, ub
        self.default_validate = default_validate
        self.free_default = free_default
        self.cls = cls
        self.flat_len = self.free_len = int(np.prod(self.shape))

    def describe(self):
        return 'Num{}({},lb={!r},ub={!r},dv={},fd={})'.format(
            '' if self.cls == 'array' else ':' + self.cls, self.shape, self.lb,
            self.ub, self.default_validate, self.free_default)

    def sig(self):
        return ('num', self.cls, self.shape, self.bound_kind())

    def bound_kind(self):
        return ('l' if self.lb > -INF else '') + ('u' if self.ub < INF else '')

    def build(self):
        kw = given_args(self, lb=self.lb, ub=self.ub,
                        default_validate=self.default_validate,
                        free_default=self.free_default)
        if self.cls == 'scalar':
            return paragami.NumericScalarPattern(**kw)
        if self.cls == 'vector':
            return paragami.NumericVectorPattern(length=self.shape[0], **kw)
        return paragami.NumericArrayPattern(shape=self.shape, **kw)

    def in_set(self, val, slack=0.0):
        val = np.asarray(val, dtype=float)
        if val.shape != self.shape or np.any(np.isnan(val)):
            return False
        return bool(np.all(val >= self.lb - slack) and
                    np.all(val <= self.ub + slack))

    def width(self):
        return float(self.ub) - float(self.lb)

    def gen(self, rng, mode='typical'):
        lb, ub, n = float(self.lb), float(self.ub), self.flat_len
        kind = self.bound_kind()
        if mode == 'mixed':
            mode = str(rng.choice(['typical', 'typical', 'edge', 'extreme']))
        if kind == 'lu':
            w = ub - lb
            if mode == 'typical':
                u = rng.uniform(0.03, 0.97, n)
            else:
                t = 10.0 ** rng.uniform(-6, -1, n)
                u = np.where(rng.random(n) < 0.5, t, 1 - t)
            v = lb + w * u
            # stay strictly inside after rounding
            v = np.clip(v, np.nextafter(lb, INF), np.nextafter(ub, -INF))
        else:
            if mode == 'typical':
                d = np.exp(rng.normal(size=n))
                z = rng.normal(size=n) * 2
            elif mode == 'edge':
                d = 10.0 ** rng.uniform(-6, 1, n)
                z = rng.choice([0.0, -0.0, 1e-12, -1e-12, 1.0, -1.0], n)
            elif mode == 'deep':
                # As near to a bound of zero, and as far, as doubles go.
                b = lb if kind == 'l' else ub
                d = 10.0 ** rng.uniform(-307 if b == 0 else -3, 307, n)
                z = rng.normal(size=n) * 10.0 ** rng.uniform(-307, 307, n)
                z[rng.random(n) < 0.1] = 5e-324
            else:
                d = 10.0 ** rng.uniform(-3, 8, n)
                z = rng.normal(size=n) * 10.0 ** rng.uniform(-8, 12, n)
            if kind == 'l':
                v = np.maximum(lb + d, np.nextafter(lb, INF))
            elif kind == 'u':
                v = np.minimum(ub - d, np.nextafter(ub, -INF))
            else:
                v = z
        return v.reshape(self.shape)

    def gen_boundary(self, rng):
        """On the (inclusive) boundary, at least in part."""
        v = self.gen(rng).reshape(-1)
        on = rng.random(v.size) < 0.6
        if self.lb > -INF:
            v[on] = self.lb
        if self.ub < INF:
            on = rng.random(v.size) < 0.4
            v[on] = self.ub
        if self.width() == INF and rng.random() < 0.15:
            # The bounds are inclusive, those which are infinite too.
            on = rng.random(v.size) < 0.4
            v[on] = self.ub if self.ub == INF else self.lb
        return v.reshape(self.shape)

    def gen_outside(self, rng):
        """A value just or far outside, or None when there is no outside."""
        if not self.bound_kind() or not self.flat_len:
            return None
        v = self.gen(rng).reshape(-1)
        i = int(rng.integers(v.size))
        down = self.lb > -INF and (self.ub == INF or rng.random() < 0.5)
        b = float(self.lb if down else self.ub)
        far = [np.nextafter(b, -INF if down else INF),
               b + (-1 if down else 1) * 1e-9 * max(1, abs(b)),
               b + (-1 if down else 1) * 10.0 ** rng.uniform(-6, 6)]
        v[i] = far[int(rng.integers(3))]
        if not (v[i] < b if down else v[i] > b):
            v[i] = np.nextafter(b, -INF if down else INF)
        return v.reshape(self.shape)

    def value_tol(self, val):
        """Tolerance for fold(flatten(val, free), free) == val, flat."""
        v = self.ref_flat(np.asarray(val, dtype=float))
        kind = self.bound_kind()
        if not kind:
            return np.zeros(v.size)
        lb, ub = float(self.lb), float(self.ub)
        C = 64 * EPS
        with np.errstate(all='ignore'):
            if kind == 'l':
                x = np.log(v - lb)
                return C * ((v - lb) * (1 + np.abs(x)) + abs(lb) + np.abs(v))
            if kind == 'u':
                x = np.log(ub - v)
                return C * ((ub - v) * (1 + np.abs(x)) + abs(ub) + np.abs(v))
            x = np.abs(np.log(v - lb)) + np.abs(np.log(ub - v))
            s = np.minimum(v - lb, ub - v)
            return C * (s * (1 + x) + abs(lb) + abs(ub) + np.abs(v))

    def free_tol(self, x):
        """Tolerance for flatten(fold(x, free), free) == x; inf: undefined."""
        x = np.asarray(x, dtype=float)
        lb, ub = float(self.lb), float(self.ub)
        C = 64 * EPS
        with np.errstate(all='ignore'):
            kind = self.bound_kind()
            if not kind:
                return np.zeros(x.size)
            if kind == 'l':
                d = np.exp(x)
                t = C * ((np.abs(lb + d) + abs(lb) + d) / d + 1 + np.abs(x))
            elif kind == 'u':
                d = np.exp(-x)
                t = C * ((np.abs(ub - d) + abs(ub) + d) / d + 1 + np.abs(x))
            else:
                w = ub - lb
                a = w / (1 + np.exp(-x))
                b = w / (1 + np.exp(x))
                m = abs(lb) + abs(ub) + w
                d = np.minimum(a, b)
                t = C * (m / a + m / b + 1 + np.abs(x))
            t = t + 32 * 5e-324 / d         # spacing of the denormals
            return np.where(np.isfinite(t) & (t < 1e-3), t, INF)

    def free_safe(self, x):
        """Which free entries cannot overflow."""
        return np.abs(x) < 700.0

    def blocks(self):
        return [(np.array([i]), np.array([i])) for i in range(self.flat_len)]

    def ref_names(self):
        return ['[' + ','.join(str(i) for i in item) + ']'
                for item in itertools.product(*[range(n) for n in self.shape])]

    def free_scale(self, x):
        return 1.0


class PSD(ArraySpec):
    def __init__(self, size, diag_lb=0.0, default_validate=True,
                 free_default=None):
        self.size, self.diag_lb = size, diag_lb
        self.default_validate = default_validate
        self.free_default = free_default
        self.shape = (size, size)
        self.flat_len = size * size
        self.free_len = size * (size + 1) // 2

    def describe(self):
        return 'PSD({},lb={!r},dv={},fd={})'.format(
            self.size, self.diag_lb, self.default_validate, self.free_default)

    def sig(self):
        return ('psd', self.size, self.diag_lb > 0)

    def build(self):
        return paragami.PSDSymmetricMatrixPattern(**given_args(
            self, size=self.size, diag_lb=self.diag_lb,
            default_validate=self.default_validate,
            free_default=self.free_default))

    def in_set(self, val, slack=0.0):
        """Symmetric, diagonal at least the bound, M - lb I PSD to rounding."""
        val = np.asarray(val, dtype=float)
        if val.shape != self.shape or not np.all(np.isfinite(val)):
            return False
        if not np.array_equal(val, val.T):
            return False
        if np.any(np.diag(val) < self.diag_lb):
            return False
        sc = np.max(np.abs(val)) + self.diag_lb
        if sc == 0:
            return True
        ev = np.linalg.eigvalsh(val / sc - (self.diag_lb / sc) * np.eye(self.size))
        return bool(ev[0] >= -1e-12 * self.size)

    def gen(self, rng, mode='typical'):
        n, lb = self.size, float(self.diag_lb)
        if mode == 'mixed':
            mode = str(rng.choice(['typical', 'typical', 'edge', 'extreme']))
        sc = max(lb, 1.0) if lb > 0 else 1.0
        if mode == 'extreme':
            sc = sc * 10.0 ** (rng.uniform(-40, 40) if lb == 0 else rng.uniform(0, 6))
        elif mode == 'deep':
            sc = sc * 10.0 ** (rng.uniform(-280, 280) if lb == 0
                               else rng.uniform(0, 12))
        kind = int(rng.integers(6))
        if kind == 0:
            s = np.diag(np.exp(rng.normal(size=n)))
        elif kind == 1:
            t = rng.normal(size=(n, 1))
            s = t @ t.T + np.diag(0.1 + rng.random(n))
        elif kind == 2:        # banded with exact zeros
            s = np.zeros((n, n))
            for i in range(n):
                s[i, i] = 2.0 + rng.random()
                if i:
                    s[i, i - 1] = s[i - 1, i] = rng.uniform(-0.9, 0.9)
        else:
            a = rng.normal(size=(n, n))
            q, _ = np.linalg.qr(a)
            lo = -1.0 if mode != 'edge' else -6.0
            e = 10.0 ** rng.uniform(lo, 0.5, n)
            s = (q * e) @ q.T
        s = 0.5 * (s + s.T)
        m = sc * s + lb * np.eye(n)
        m = np.tril(m) + np.tril(m, -1).T
        d = np.diag(m).copy()
        m[np.arange(n), np.arange(n)] = np.maximum(d, lb * (1 + 1e-9))
        return m

    def gen_boundary(self, rng):
        """Singular after removing the bound; diagonal exactly at it in part."""
        n, lb = self.size, float(self.diag_lb)
        t = rng.normal(size=(n, max(1, n - 1))) * (rng.random((n, 1)) < 0.7)
        m = t @ t.T
        m = np.tril(m) + np.tril(m, -1).T
        return m + lb * np.eye(n)

    def gen_outside(self, rng):
        m = self.gen(rng)
        n, lb = self.size, float(self.diag_lb)
        if n == 1 or rng.random() < 0.5:
            i = int(rng.integers(n))
            m[i, i] = [np.nextafter(lb, -INF), lb - 10.0 ** rng.uniform(-9, 3),
                       lb - 1e-12 * max(lb, 1)][int(rng.integers(3))]
            return m
        i, j = rng.choice(n, 2, replace=False)
        d = 10.0 ** rng.uniform(-12, 1)
        while m[i, j] + d == m[j, i]:
            d *= 10
        m[i, j] = m[j, i] + d
        return m

    def _cond(self, m):
        m = np.asarray(m, dtype=float)
        s = m - self.diag_lb * np.eye(self.size)
        s = 0.5 * (s + s.T)
        ev = np.linalg.eigvalsh(s)
        return float(max(ev[-1], 0)), float(ev[0]), np.max(np.abs(m))

    def value_tol(self, val):
        hi, lo, mx = self._cond(val)
        lo = max(lo, 1e-300)
        lg = 1 + max(abs(np.log(hi + 1e-300)), abs(np.log(lo)))
        return np.full(self.flat_len, 64 * EPS * self.size * (
            hi * lg + self.diag_lb + mx))

    def free_tol_at(self, m):
        hi, lo, mx = self._cond(m)
        if not lo > 0:
            return INF
        k = (mx + self.diag_lb + hi) / lo
        t = 64 * EPS * self.size * k * max(np.sqrt(hi), np.sqrt(hi / lo), 1)
        return t if np.isfinite(t) and t < 1e-3 else INF

    def chol_of_free(self, x):
        """The lower triangle, row by row, holds the factor with log diagonal
        in the package; here only used to bound conditioning, not values."""
        n = self.size
        L = np.zeros((n, n))
        L[np.tril_indices(n)] = x
        L[np.arange(n), np.arange(n)] = np.exp(np.diag(L))
        return L

    def free_tol(self, x):
        x = np.asarray(x, dtype=float)
        if np.max(np.abs(x)) > 100:
            return np.full(x.size, INF)
        L = self.chol_of_free(x)
        m = L @ L.T + self.diag_lb * np.eye(self.size)
        sv = np.linalg.svd(L, compute_uv=False)
        hi, lo = sv[0] ** 2, sv[-1] ** 2
        if not lo > 0:
            return np.full(x.size, INF)
        k = (np.max(np.abs(m)) + self.diag_lb + hi) / lo
        t = 64 * EPS * self.size * k * max(np.sqrt(hi), np.sqrt(hi / lo), 1)
        return np.full(x.size, t if np.isfinite(t) and t < 1e-3 else INF)

    def free_safe(self, x):
        return np.abs(x) < 300.0

    def blocks(self):
        return [(np.arange(self.flat_len), np.arange(self.free_len))]


class Simplex(ArraySpec):
    def __init__(self, size, array_shape, default_validate=True,
                 free_default=None):
        self.size, self.array_shape = size, tuple(array_shape)
        self.default_validate = default_validate
        self.free_default = free_default
        self.shape = self.array_shape + (size,)
        self.n_simplex = int(np.prod(self.array_shape))
        self.flat_len = self.n_simplex * size
        self.free_len = self.n_simplex * (size - 1)

    def describe(self):
        return 'Simplex({},{},dv={},fd={})'.format(
            self.size, self.array_shape, self.default_validate,
            self.free_default)

    def sig(self):
        return ('simplex', self.size, self.array_shape)

    def build(self):
        return paragami.SimplexArrayPattern(**given_args(
            self, simplex_size=self.size, array_shape=self.array_shape,
            default_validate=self.default_validate,
            free_default=self.free_default))

    def in_set(self, val, slack=1e-12):
        val = np.asarray(val, dtype=float)
        if val.shape != self.shape or not np.all(np.isfinite(val)):
            return False
        return bool(np.all(val >= 0) and np.all(
            np.abs(val.sum(axis=-1) - 1) <= slack))

    def gen(self, rng, mode='typical'):
        if mode == 'mixed':
            mode = str(rng.choice(['typical', 'typical', 'edge', 'extreme']))
        g = rng.gamma(1.0 if mode == 'typical' else 0.5,
                      size=(self.n_simplex, self.size)) + 1e-3
        if mode == 'edge':
            g = g * 10.0 ** rng.uniform(-6, 0, g.shape)
        elif mode == 'extreme':
            g = g * 10.0 ** rng.uniform(-60, 0, g.shape)
        elif mode == 'deep':
            g = g * 10.0 ** rng.uniform(-300, 0, g.shape)
        v = g / g.sum(axis=1, keepdims=True)
        v = v / v.sum(axis=1, keepdims=True)
        return v.reshape(self.shape)

    def gen_boundary(self, rng):
        v = np.zeros((self.n_simplex, self.size))
        for i in range(self.n_simplex):
            k = int(rng.integers(1, self.size + 1))
            on = rng.choice(self.size, k, replace=False)
            v[i, on] = 1.0 / k
        return v.reshape(self.shape)

    def gen_outside(self, rng):
        v = self.gen(rng).reshape(self.n_simplex, self.size)
        i = int(rng.integers(self.n_simplex))
        kind = int(rng.integers(4))
        if kind == 3 and self.n_simplex > 1:
            # Two simplexes off in opposite directions.
            k = (i + 1 + int(rng.integers(self.n_simplex - 1))) % \
                self.n_simplex
            d = 10.0 ** rng.uniform(-9, -3)
            j = int(np.argmax(v[k]))
            v[i, j] += d
            v[k, j] -= d
        elif kind == 0:        # negative entry, sum kept
            j, k = rng.choice(self.size, 2, replace=False)
            d = v[i, j] + 10.0 ** rng.uniform(-9, 1)
            v[i, j] -= d
            v[i, k] += d
            if v[i, j] >= 0:
                v[i, j] = -1e-9
        else:                  # sum off
            j = int(rng.integers(self.size))
            v[i, j] += 10.0 ** rng.uniform(-8, 1) * (1 if kind == 1 else -1)
        return v.reshape(self.shape)

    def value_tol(self, val):
        v = np.asarray(val, dtype=float).reshape(self.n_simplex, self.size)
        lg = 1 + np.max(np.abs(np.log(v)), axis=1, keepdims=True)
        off = np.abs(v.sum(axis=1, keepdims=True) - 1)
        return (v * (64 * EPS * (lg + self.size) + 4 * off)).reshape(-1)

    def free_tol(self, x):
        x = np.asarray(x, dtype=float).reshape(self.n_simplex, self.size - 1)
        lo = np.minimum(x.min(axis=1), 0)
        hi = np.maximum(x.max(axis=1), 0)
        ok = (hi - lo) < 650
        t = np.where(ok, 64 * EPS * (1 + hi - lo + np.abs(hi) + np.abs(lo)
                                     + self.size), INF)
        return np.repeat(t, self.size - 1)

    def free_safe(self, x):
        return np.ones(np.shape(x), dtype=bool)

    def blocks(self):
        return [(np.arange(i * self.size, (i + 1) * self.size),
                 np.arange(i * (self.size - 1), (i + 1) * (self.size - 1)))
                for i in range(self.n_simplex)]


class Custom(ArraySpec):
    def __init__(self, kind, n, free_default=None):
        self.kind, self.n, self.free_default = kind, n, free_default
        self.shape = (n,)
        self.flat_len = n
        self.free_len = n if kind == 'ordered' else n - 1

    default_validate = True

    def describe(self):
        return 'Custom:{}({},fd={})'.format(self.kind, self.n, self.free_default)

    def sig(self):
        return ('custom', self.kind, self.n)

    def build(self):
        cls = Ordered if self.kind == 'ordered' else SumZero
        return cls(self.n, free_default=self.free_default)

    def in_set(self, val, slack=0.0):
        val = np.asarray(val, dtype=float)
        if val.shape != self.shape or not np.all(np.isfinite(val)):
            return False
        if self.kind == 'ordered':
            return bool(np.all(np.diff(val) >= 0))
        return bool(abs(val.sum()) <= 1e-9 * (1 + np.abs(val).sum()))

    def gen(self, rng, mode='typical'):
        if self.kind == 'ordered':
            return np.cumsum(rng.uniform(0.2, 2.0, self.n)) - 3.0
        v = rng.normal(size=self.n)
        v[-1] = -np.sum(v[:-1])
        return v

    def gen_boundary(self, rng):
        return self.gen(rng)

    def gen_outside(self, rng):
        v = self.gen(rng)
        if self.kind == 'ordered':
            i = int(rng.integers(1, self.n))
            v[i] = v[i - 1] - 0.5
            return v
        v[int(rng.integers(self.n))] += 1.0
        return v

    def value_tol(self, val):
        v = np.asarray(val, dtype=float)
        return np.full(self.n, 1e-12 * (1 + np.sum(np.abs(v))))

    def free_tol(self, x):
        x = np.asarray(x, dtype=float)
        if self.kind == 'sumzero':
            return np.zeros(x.size)
        if np.max(np.abs(x)) > 20:
            return np.full(x.size, INF)
        tot = np.abs(x[0]) + np.sum(np.exp(x[1:]))
        t = 64 * EPS * self.n * tot / np.min(np.exp(np.hstack([0, x[1:]])))
        return np.full(x.size, t if t < 1e-3 else INF)

    def free_safe(self, x):
        return np.abs(x) < 300

    def blocks(self):
        return [(np.arange(self.flat_len), np.arange(self.free_len))]


class Arr(ArraySpec):
    """PatternArray of an array-valued base."""
    def __init__(self, array_shape, base, free_default=None):
        self.array_shape, self.base = tuple(array_shape), base
        self.free_default = free_default
        self.shape = self.array_shape + base.shape
        self.count = int(np.prod(self.array_shape))
        self.flat_len = self.count * base.flat_len
        self.free_len = self.count * base.free_len

    def describe(self):
        return 'Arr({},{},fd={})'.format(
            self.array_shape, self.base.describe(), self.free_default)

    def sig(self):
        return ('arr', self.array_shape, self.base.sig())

    def walk(self):
        yield self
        yield from self.base.walk()

    def depth(self):
        return 1 + self.base.depth()

    def build(self):
        return paragami.PatternArray(**given_args(
            self, array_shape=self.array_shape,
            base_pattern=self.base.build(),
            free_default=self.free_default))

    def items(self):
        return list(itertools.product(*[range(n) for n in self.array_shape]))

    def in_set(self, val, **kw):
        val = np.asarray(val)
        if val.shape != self.shape:
            return False
        return all(self.base.in_set(val[it], **kw) for it in self.items())

    def _each(self, fn):
        out = np.empty(self.shape)
        for it in self.items():
            out[it] = fn()
        return out

    def gen(self, rng, mode='typical'):
        return self._each(lambda: self.base.gen(rng, mode))

    def gen_boundary(self, rng):
        return self._each(lambda: self.base.gen_boundary(rng))

    def gen_outside(self, rng):
        bad = self.base.gen_outside(rng)
        if bad is None:
            return None
        v = self.gen(rng)
        its = self.items()
        v[its[int(rng.integers(len(its)))]] = bad
        return v

    def value_tol(self, val):
        val = np.asarray(val)
        return np.hstack([self.base.value_tol(val[it]) for it in self.items()])

    def free_tol(self, x):
        x = np.asarray(x).reshape(self.count, self.base.free_len)
        return np.hstack([self.base.free_tol(r) for r in x])

    def free_safe(self, x):
        x = np.asarray(x).reshape(self.count, self.base.free_len)
        return np.hstack([self.base.free_safe(r) for r in x])

    def blocks(self):
        out = []
        for i in range(self.count):
            out += [(f + i * self.base.flat_len, r + i * self.base.free_len)
                    for f, r in self.base.blocks()]
        return out


def _join(parts, dtype=float):
    parts = [p for p in parts if len(p)]
    return np.hstack(parts) if parts else np.zeros(0, dtype=dtype)


class Dict(Spec):
    """PatternDict; ``items`` in the order of insertion."""
    def __init__(self, items, free_default=None):
        self.items = list(items)
        self.free_default = free_default
        self.flat_len = sum(s.flat_len for _, s in self.items)
        self.free_len = sum(s.free_len for _, s in self.items)

    def describe(self):
        return 'Dict({},fd={})'.format(
            ', '.join('{!r}: {}'.format(k, s.describe())
                      for k, s in self.items), self.free_default)

    def sig(self):
        return ('dict',) + tuple((k, s.sig()) for k, s in self.items)

    def walk(self):
        yield self
        for _, s in self.items:
            yield from s.walk()

    def depth(self):
        return 1 + max((s.depth() for _, s in self.items), default=0)

    def build(self):
        pat = paragami.PatternDict(**given_args(
            self, free_default=self.free_default))
        made = {}      # a description given twice is one pattern, used twice
        for k, s in self.items:
            if id(s) not in made:
                made[id(s)] = s.build()
            pat[k] = made[id(s)]
        return pat

    def in_set(self, val, **kw):
        try:
            keys = list(val.keys())
        except AttributeError:
            return False
        if set(keys) != set(k for k, _ in self.items):
            return False
        return all(s.in_set(val[k], **kw) for k, s in self.items)

    def _each(self, fn):
        return OrderedDict((k, fn(s)) for k, s in self.items)

    def gen(self, rng, mode='typical'):
        return self._each(lambda s: s.gen(rng, mode))

    def gen_boundary(self, rng):
        return self._each(lambda s: s.gen_boundary(rng))

    def gen_outside(self, rng):
        order = rng.permutation(len(self.items))
        for i in order:
            bad = self.items[i][1].gen_outside(rng)
            if bad is not None:
                v = self.gen(rng)
                v[self.items[i][0]] = bad
                return v
        return None

    def ref_flat(self, val):
        return _join([s.ref_flat(val[k]) for k, s in self.items])

    def ref_unflat(self, flat):
        flat = np.asarray(flat)
        out, o = OrderedDict(), 0
        for k, s in self.items:
            out[k] = s.ref_unflat(flat[o:o + s.flat_len])
            o += s.flat_len
        return out

    def value_tol(self, val):
        return _join([s.value_tol(val[k]) for k, s in self.items])

    def _split_free(self, x):
        o = 0
        for _, s in self.items:
            yield s, x[o:o + s.free_len]
            o += s.free_len

    def free_tol(self, x):
        return _join([s.free_tol(r) for s, r in self._split_free(x)])

    def free_safe(self, x):
        return _join([s.free_safe(r) for s, r in self._split_free(x)], bool)

    def blocks(self):
        out, fo, ro = [], 0, 0
        for _, s in self.items:
            out += [(f + fo, r + ro) for f, r in s.blocks()]
            fo += s.flat_len
            ro += s.free_len
        return out


def leaves(spec, path=()):
    """(path, leaf, flat offset, free offset) of each non-container pattern."""
    if isinstance(spec, Dict):
        fo = ro = 0
        for k, s in spec.items:
            for p, l, f, r in leaves(s, path + (k,)):
                yield p, l, f + fo, r + ro
            fo += s.flat_len
            ro += s.free_len
    elif isinstance(spec, Arr):
        for i, it in enumerate(spec.items()):
            for p, l, f, r in leaves(spec.base, path + (it,)):
                yield p, l, f + i * spec.base.flat_len, \
                    r + i * spec.base.free_len
    else:
        yield path, spec, 0, 0


def same_structure(spec, val):
    """Does ``val`` have the documented folded form?  Returns '' or why not."""
    if isinstance(spec, Dict):
        if not hasattr(val, 'keys'):
            return 'expected a dictionary, got {}'.format(type(val).__name__)
        if list(val.keys()) != [k for k, _ in spec.items]:
            return 'keys {} rather than {}'.format(
                list(val.keys()), [k for k, _ in spec.items])
        for k, s in spec.items:
            why = same_structure(s, val[k])
            if why:
                return '[{!r}]: {}'.format(k, why)
        return ''
    if not isinstance(val, np.ndarray):
        return 'expected an array, got {}'.format(type(val).__name__)
    if val.shape != spec.shape:
        return 'shape {} rather than {}'.format(val.shape, spec.shape)
    return ''


def flat_of(spec, val, monitor_ctx=None):
    """Reference flat vector of a folded value returned by the package."""
    why = same_structure(spec, val)
    if why:
        from .rt import Violation
        raise Violation('folded-structure', why)
    return spec.ref_flat(val)


# --------------------------------------------------------------------------
# Generators

KEYS = ['b', 'a', 'z', 'mu', 'Sigma', 'x_1', 'x_10', 'x_2', 'beta hat', 'Z',
        'é', 'αβ', '0', '1', '10', 'a_b', 'a.b', '[0]', ' ', '', 'pattern',
        'keys', 'contents', 'free', "it's", 'q"uote', 'tab\tkey', 'lambda',
        'A', 'aa', 'long_' * 8, 'shape', 'lb', 'None', '{}', '50%', 'x{0}%s',
        'a\nb', 'a/b', ' padded ', 'e\u0301', 'a\\b']


def gen_bounds(rng):
    k = int(rng.integers(26))
    lo = float(np.round(rng.normal() * 3, 3))
    return [
        (-INF, INF), (-INF, INF), (0, INF), (0.0, INF), (lo, INF), (-INF, lo),
        (-INF, 0), (lo, lo + float(np.exp(rng.normal()))), (0, 1), (-1.0, 1.0),
        (lo, lo + 1e-3), (-1e6, 1e6), (100.0, INF), (-INF, -50.5),
        (5, 1000), (-1000.0, -5.5), (0, 1e5), (-3e4, 0.0), (1e5, 1e5 + 1),
        (-7, 300), (1e7, 1e7 + 1), (-3e8, -3e8 + 100.0), (0, 1e12),
        (-1e13, 1e11), (0, 1e-8), (-2e-9, 1e-9)][k]


def gen_fd(rng, p=0.0):
    return [True, False][int(rng.integers(2))] if rng.random() < p else None


# How often a member of a dictionary is numeric without any entries.
ZERO = 0.03
# How often it is the same pattern object as another member.
SHARED = 0.06
# How often it is a dictionary without members.
EMPTY = 0.02


def gen_zero_num(rng, fd=0.0, dv=0.0):
    shape = [(0,), (0,), (0, 3), (2, 0), (1, 0, 2)][int(rng.integers(5))]
    lb, ub = gen_bounds(rng)
    return Num(shape, lb, ub, default_validate=not (rng.random() < dv),
               free_default=gen_fd(rng, fd),
               cls='vector' if len(shape) == 1 else 'array')


def gen_num(rng, max_len=24, fd=0.0, dv=0.0):
    lb, ub = gen_bounds(rng)
    dval = not (rng.random() < dv)
    cls = str(rng.choice(['array', 'array', 'vector', 'scalar']))
    if cls == 'scalar':
        shape = (1,)
    elif cls == 'vector':
        shape = (int(rng.choice([1, 2, 3, 5, 8, 13, 30])),)
        if shape[0] > max_len:
            shape = (max(1, max_len // 2),)
    else:
        nd = int(rng.choice([1, 2, 2, 3, 4, 5]))
        while True:
            shape = tuple(int(i) for i in rng.integers(1, 5, nd))
            if rng.random() < 0.1:
                shape = tuple(int(i) for i in rng.integers(1, 13, 2))
            if np.prod(shape) <= max_len:
                break
            nd = max(1, nd - 1)
    return Num(shape, lb, ub, default_validate=dval,
               free_default=gen_fd(rng, fd), cls=cls)


def gen_psd(rng, max_size=5, fd=0.0, dv=0.0):
    n = int(rng.integers(1, max_size + 1))
    if max_size >= 5 and rng.random() < 0.05:
        n = int(rng.integers(6, 11))
    lb = [0.0, 0, 0.5, 1, 1e-4, 3.25, 100.0][int(rng.integers(7))] \
        if rng.random() < 0.6 else 0.0
    return PSD(n, lb, default_validate=not (rng.random() < dv),
               free_default=gen_fd(rng, fd))


def gen_simplex(rng, max_len=30, fd=0.0, dv=0.0):
    size = int(rng.choice([2, 2, 3, 4, 5, 7, 12]))
    while True:
        nd = int(rng.choice([0, 1, 1, 2, 3]))
        ash = tuple(int(i) for i in rng.integers(1, 4, nd))
        if np.prod(ash + (size,)) <= max_len or nd == 0:
            break
    return Simplex(size, ash, default_validate=not (rng.random() < dv),
                   free_default=gen_fd(rng, fd))


def gen_custom(rng, fd=0.0):
    return Custom(str(rng.choice(['ordered', 'sumzero'])),
                  int(rng.integers(2, 6)), free_default=gen_fd(rng, fd))


def gen_leaf(rng, size=1, fd=0.0, dv=0.0, custom=True):
    k = rng.random()
    if k < 0.42:
        return gen_num(rng, max_len=int(24 * size), fd=fd, dv=dv)
    if k < 0.68:
        return gen_psd(rng, max_size=max(2, int(5 * size)), fd=fd, dv=dv)
    if k < 0.94 or not custom:
        return gen_simplex(rng, max_len=int(30 * size), fd=fd, dv=dv)
    return gen_custom(rng, fd=fd)


def gen_outer(rng):
    """The outer shape of an array of patterns."""
    nd = int(rng.choice([1, 2, 3, 4, 5], p=[.38, .38, .16, .05, .03]))
    return tuple(int(i) for i in rng.integers(1, 4 if nd < 4 else 3, nd))


def gen_array_valued(rng, depth=2, size=1, **kw):
    if depth > 0 and rng.random() < 0.45:
        base = gen_array_valued(rng, depth - 1, size * 0.5, **kw)
        ash = gen_outer(rng)
        return Arr(ash, base, free_default=gen_fd(rng, kw.get('fd', 0.0)))
    return gen_leaf(rng, size, **kw)


def gen_dict(rng, depth=3, size=1, max_keys=5, **kw):
    n = int(rng.integers(1, max_keys + 1))
    if rng.random() < 0.08:
        n = int(rng.integers(9, 15))
    keys = [KEYS[i] for i in rng.permutation(len(KEYS))[:n]]
    items = []
    for k in keys:
        if len(items) and rng.random() < SHARED:
            items.append((k, items[int(rng.integers(len(items)))][1]))
        elif len(items) and rng.random() < ZERO:
            items.insert(int(rng.integers(len(items) + 1)), (k, gen_zero_num(
                rng, kw.get('fd', 0.0), kw.get('dv', 0.0))))
        elif len(items) and depth > 1 and rng.random() < EMPTY:
            items.insert(int(rng.integers(len(items) + 1)), (k, Dict(
                [], free_default=gen_fd(rng, kw.get('fd', 0.0)))))
        elif depth > 1 and rng.random() < 0.3:
            items.append((k, gen_dict(rng, depth - 1, size * 0.7, 3, **kw)))
        else:
            items.append((k, gen_array_valued(
                rng, 1 if n < 9 else 0, size * (0.7 if n < 9 else 0.3), **kw)))
    return Dict(items, free_default=gen_fd(rng, kw.get('fd', 0.0)))


# How often a pattern is larger than most in one respect.
MEDIUM = 0.015


def gen_medium(rng, fd=0.0, dv=0.0, custom=True):
    """Larger than most in one respect, and small in the others."""
    k = int(rng.integers(6))
    kw = dict(fd=fd, dv=dv)
    dval = not (rng.random() < dv)
    fdv = gen_fd(rng, fd)
    if k == 0:
        return Num((int(rng.integers(25, 160)),), *gen_bounds(rng),
                   default_validate=dval, free_default=fdv)
    if k == 1:
        return PSD(int(rng.integers(6, 13)), 0.0, default_validate=dval,
                   free_default=fdv)
    if k == 2:
        return Simplex(int(rng.integers(10, 60)), (),
                       default_validate=dval, free_default=fdv)
    if k == 3:
        return Simplex(int(rng.integers(2, 4)), (int(rng.integers(9, 40)),),
                       default_validate=dval, free_default=fdv)
    small = lambda: gen_leaf(rng, 0.15, custom=custom, **kw)     # noqa: E731
    if k == 4:
        return Arr((int(rng.integers(12, 40)),), small(), free_default=fdv)
    n = int(rng.integers(12, 26))
    return Dict([(KEYS[i], small()) for i in rng.permutation(len(KEYS))[:n]],
                free_default=fdv)


def gen_spec(rng, size=1, custom=True, fd=0.0, dv=0.0, depth=3):
    """Any pattern; the mix favours containers."""
    if size >= 0.5 and rng.random() < MEDIUM:
        return gen_medium(rng, fd, dv, custom)
    k = rng.random()
    kw = dict(fd=fd, dv=dv, custom=custom)
    if k < 0.32:
        return gen_leaf(rng, size, **kw)
    if k < 0.55:
        base = gen_array_valued(rng, 1, size * 0.6, **kw)
        ash = gen_outer(rng)
        return Arr(ash, base, free_default=gen_fd(rng, fd))
    return gen_dict(rng, depth, size, **kw)


def gen_big(rng):
    """A large instance of one kind."""
    k = int(rng.integers(7))
    if k == 0:
        return Num((int(rng.integers(200, 3000)),), *gen_bounds(rng))
    if k == 6:
        nd = int(rng.integers(2, 5))
        hi = {2: 60, 3: 14, 4: 8}[nd]
        return Num(tuple(int(i) for i in rng.integers(hi // 3, hi + 1, nd)),
                   *gen_bounds(rng))
    if k == 1:
        hi = 17 if rng.random() < 0.7 else 41
        return PSD(int(rng.integers(8, hi)), float(rng.choice([0.0, 0.3])))
    if k == 2:
        return Simplex(int(rng.integers(13, 80)), (int(rng.integers(1, 6)),))
    if k == 3:
        ash = (int(rng.integers(8, 15)), int(rng.integers(2, 4)))
        if rng.random() < 0.5:
            ash = (int(rng.integers(40, 150)),)
        return Arr(ash, gen_leaf(rng, 0.5 if len(ash) > 1 else 0.2))
    if k == 4:
        return Simplex(3, (int(rng.integers(11, 40)), 2))
    n = int(rng.integers(12, 30))
    return Dict([(KEYS[i], gen_leaf(rng, 0.3))
                 for i in rng.permutation(len(KEYS))[:n]])


def gen_free(spec, rng, scale=None):
    if scale is None:
        scale = float(rng.choice([0.1, 1.0, 1.0, 3.0, 10.0]))
    x = rng.normal(size=spec.free_len) * scale
    if rng.random() < 0.2:
        x[rng.random(x.size) < 0.5] = 0.0
    return x


# --------------------------------------------------------------------------
# Representations of the same value

def hostile_array(rng, v, kinds=None):
    """The same numbers in a different memory layout."""
    v = np.asarray(v)
    kinds = kinds or ['same', 'copy', 'f', 'strided', 'reversed', 'readonly',
                      'swap']
    k = str(rng.choice(kinds))
    if k == 'same':
        return v
    if k == 'copy':
        return np.array(v)
    if k == 'f':
        return np.asfortranarray(v)
    if k == 'strided':
        big = np.full(tuple(2 * n for n in v.shape), np.nan)
        big = big.astype(v.dtype) if v.dtype.kind == 'f' else \
            np.zeros(big.shape, dtype=v.dtype)
        big[tuple(slice(None, None, 2) for _ in v.shape)] = v
        return big[tuple(slice(None, None, 2) for _ in v.shape)]
    if k == 'reversed':
        return np.array(v[::-1])[::-1]
    if k == 'readonly':
        w = np.array(v)
        w.flags.writeable = False
        return w
    if k == 'swap':
        return np.array(np.swapaxes(v, 0, -1), order='C').swapaxes(0, -1)
    raise AssertionError(k)


def hostile(spec, rng, val, kinds=None):
    """The same folded value in a different representation."""
    if isinstance(spec, Dict):
        items = [(k, hostile(s, rng, val[k], kinds)) for k, s in spec.items]
        how = int(rng.integers(4))
        if how == 0:
            return OrderedDict(items)
        if how == 1:
            return dict(items)
        perm = rng.permutation(len(items))
        items = [items[i] for i in perm]
        return OrderedDict(items) if how == 2 else dict(items)
    return hostile_array(rng, val, kinds)


def gen_integer_spec(rng, depth=2):
    """A pattern whose constraint set has integers in its interior."""
    k = rng.random()
    if depth and k < 0.3:
        n = int(rng.integers(1, 4))
        return Dict([(KEYS[i], gen_integer_spec(rng, depth - 1))
                     for i in rng.permutation(len(KEYS))[:n]])
    if depth and k < 0.5:
        while True:
            base = gen_integer_spec(rng, 0)
            if not isinstance(base, Dict):
                return Arr(gen_outer(rng)[:2], base)
    if k < 0.75:
        while True:
            s = gen_num(rng, max_len=12)
            if s.ub - s.lb >= 3:
                return s
    return PSD(int(rng.integers(1, 5)),
               [0, 0.0, 0.5, 1.25, 2, 0.1][int(rng.integers(6))])


def gen_integers(spec, rng, types=(np.int64, np.int64, np.int32)):
    """A value in the interior, of integers, and held as such."""
    if isinstance(spec, Dict):
        return OrderedDict((k, gen_integers(s, rng, types))
                           for k, s in spec.items)
    t = types[int(rng.integers(len(types)))]
    if isinstance(spec, Arr):
        out = np.empty(spec.shape, dtype=t)
        for it in spec.items():
            out[it] = gen_integers(spec.base, rng, types)
        return out
    if isinstance(spec, PSD):
        n = spec.size
        m = rng.integers(-3, 4, size=(n, n))
        m = m + m.T
        np.fill_diagonal(m, 0)
        np.fill_diagonal(m, np.sum(np.abs(m), axis=1) +
                         int(np.ceil(spec.diag_lb)) + rng.integers(1, 4, n))
        return m.astype(t)
    lo, hi = float(spec.lb), float(spec.ub)
    if lo == -INF:
        lo = -40.0 if hi == INF else hi - 40
    if hi == INF:
        hi = lo + 40
    lo, hi = max(lo, -2e9), min(hi, 2e9)
    return rng.integers(int(np.floor(lo)) + 1, int(np.ceil(hi)) - 1,
                        spec.shape, endpoint=True).astype(t)


def tree_map(fn, val):
    if hasattr(val, 'keys'):
        return OrderedDict((k, tree_map(fn, v)) for k, v in val.items())
    return fn(val)


def tree_arrays(val):
    if hasattr(val, 'keys'):
        for v in val.values():
            yield from tree_arrays(v)
    else:
        yield val


def deepcopy_val(val):
    return tree_map(np.array, val)
