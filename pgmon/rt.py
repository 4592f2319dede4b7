"""Runtime: case contexts, event recording, verdicts, line coverage."""
import hashlib
import os
import sys
import traceback
import zlib
from collections import Counter

import numpy as np

EPS = float(np.finfo(float).eps)
REPO = os.environ.get('PGMON_REPO', '/repo')


class Violation(Exception):
    """The monitored code broke the property."""
    def __init__(self, monitor, msg, **details):
        super().__init__('[{}] {}'.format(monitor, msg))
        self.monitor = monitor
        self.msg = msg
        self.details = details


class KnownFinding(Exception):
    """A case stopped at a listed known finding."""
    def __init__(self, key):
        super().__init__(key)
        self.key = key


class NoSkip(Exception):
    pass


def short(x, n=400):
    try:
        with np.printoptions(threshold=40, precision=17):
            s = repr(x)
    except Exception as e:          # a repr must never decide a verdict
        s = '<unprintable {}: {}>'.format(type(x).__name__, e)
    return s if len(s) <= n else s[:n] + '...'


def rng_for(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))


class Ctx:
    """One case: its random state, its event log and its monitors."""
    MAX_EVENTS = 400

    def __init__(self, prop, workload, seed, tier, index):
        self.prop = prop
        self.workload = workload
        self.seed = seed
        self.tier = tier
        self.index = index
        self.rng = rng_for(prop, workload, seed, index)
        self.events = []
        self.n_events = 0
        self.monitors = Counter()
        self.ops = Counter()
        self.sigs = set()
        self.sample = None
        self.notes = {}

    # -- events
    def log(self, op, *info):
        self.n_events += 1
        self.ops[op] += 1
        if len(self.events) >= self.MAX_EVENTS:
            del self.events[0]
        self.events.append((self.n_events, op) + tuple(
            i if isinstance(i, str) else short(i) for i in info))

    def call(self, op, fn, *args, **kw):
        """A call into the monitored code which must succeed."""
        self.log('call ' + op, *args)
        try:
            with np.errstate(all='ignore'):
                res = fn(*args, **kw)
        except (Violation, KnownFinding):
            raise
        except Exception as e:
            self.log('raise ' + op, repr(e))
            raise Violation(
                'no-unexpected-exception',
                '{} raised {!r}'.format(op, e),
                traceback=traceback.format_exc(limit=12),
                args=[short(a) for a in args])
        self.log('ret ' + op, res)
        return res

    def must_raise(self, monitor, exc, op, fn, *args, **kw):
        """A call into the monitored code which must be refused."""
        self.monitors[monitor] += 1
        self.log('call! ' + op, *args)
        try:
            with np.errstate(all='ignore'):
                res = fn(*args, **kw)
        except exc as e:
            self.log('refused ' + op, repr(e))
            return e
        except Exception as e:
            raise Violation(
                monitor, '{} raised {!r} rather than {}'.format(
                    op, e, exc), args=[short(a) for a in args],
                traceback=traceback.format_exc(limit=12))
        raise Violation(
            monitor, '{} was accepted and returned {}; expected {}'.format(
                op, short(res), exc), args=[short(a) for a in args])

    # -- monitors
    def check(self, monitor, cond, msg='', **details):
        self.monitors[monitor] += 1
        if not bool(cond):
            raise Violation(
                monitor, msg, **{k: short(v, 1500) for k, v in details.items()})

    def close(self, monitor, got, want, tol, msg='', **details):
        """|got - want| <= tol elementwise, same shape; nan never passes."""
        self.monitors[monitor] += 1
        try:
            got_a = np.asarray(got, dtype=float)
        except Exception as e:
            raise Violation(monitor, '{}: not numeric: {} ({!r})'.format(
                msg, short(got), e))
        want_a = np.asarray(want, dtype=float)
        if got_a.shape != want_a.shape:
            raise Violation(
                monitor, '{}: shape {} but expected {}'.format(
                    msg, got_a.shape, want_a.shape),
                got=short(got), want=short(want))
        with np.errstate(all='ignore'):
            ok = (got_a == want_a) | (np.abs(got_a - want_a) <= tol)
        if not np.all(ok):
            with np.errstate(all='ignore'):
                err = np.abs(got_a - want_a)
            raise Violation(
                monitor, '{}: max error {} over tolerance {}'.format(
                    msg, np.max(err), short(np.max(tol))),
                got=short(got, 1500), want=short(want, 1500),
                tol=short(tol), **{k: short(v, 1500) for k, v in details.items()})

    def exact(self, monitor, got, want, msg='', **details):
        self.monitors[monitor] += 1
        got_a, want_a = np.asarray(got), np.asarray(want)
        if got_a.shape != want_a.shape or not np.array_equal(
                got_a, want_a, equal_nan=got_a.dtype.kind in 'fc'):
            raise Violation(
                monitor, '{}: not equal (shapes {} and {})'.format(
                    msg, got_a.shape, want_a.shape),
                got=short(got, 1500), want=short(want, 1500),
                **{k: short(v, 1500) for k, v in details.items()})

    def sig(self, *key):
        """Register what makes this case distinct and non-trivial."""
        self.sigs.add(zlib.crc32(repr(key).encode()) |
                      (zlib.adler32(repr(key).encode()) << 32))
        if self.sample is None:
            self.sample = short(key, 600)

    # -- choices
    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def rint(self, lo, hi):
        """Integer in [lo, hi]."""
        return int(self.rng.integers(lo, hi + 1))


class LineCoverage:
    """Which lines of the package ran (sys.monitoring, each line once)."""
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.hit = {}
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(mon.COVERAGE_ID, 'pgmon')
        except ValueError:
            return
        root, hit, disable = self.root, self.hit, mon.DISABLE

        def line(code, lineno):
            f = code.co_filename
            if f.startswith(root) and '/tests/' not in f:
                hit.setdefault(f[len(root):], set()).add(lineno)
            return disable
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            mon = sys.monitoring
            mon.set_events(mon.COVERAGE_ID, 0)
            mon.free_tool_id(mon.COVERAGE_ID)
            self.on = False
