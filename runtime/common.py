"""Bounded stand-ins and replay: seeded generation of inputs for the real code, judged by oracles written from the
property text.  Runs under the repository's own interpreter; imports anticipy from /repo."""
import os
import sys
import copy
import json
import zlib
import warnings
import logging
import signal

warnings.simplefilter('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path.insert(0, os.environ.get('ANTICIPY_REPO', '/repo'))

import numpy as np
import pandas as pd

logging.disable(logging.CRITICAL)


class Violation(Exception):
    pass


class Skip(Exception):
    pass


CHECKS = []


def check(prop, name, n=30, t=None, weight=1):
    """register a bounded check: fn(c) is run n times (quick) or t times (thorough) with fresh seeds"""
    def deco(fn):
        CHECKS.append(dict(prop=prop, name=name, fn=fn, n=n, t=t if t is not None else n * 12, weight=weight))
        return fn
    return deco


def seed_of(base, name, i):
    return zlib.crc32(('%s|%s|%d' % (base, name, i)).encode()) & 0x7fffffff


def brief(v, limit=1500):
    try:
        if isinstance(v, pd.DataFrame):
            s = v.to_csv(index=True, float_format='%.17g')
        elif isinstance(v, (pd.Series, pd.Index)):
            s = repr(list(v))
        elif isinstance(v, np.ndarray):
            s = repr(v.tolist())
        else:
            s = repr(v)
    except Exception as e:
        s = '<%s>' % type(v).__name__
    return s if len(s) <= limit else s[:limit] + '...'


def _harvest():
    """numbers worth trying: those of a counterexample, and the literals of the package's own text"""
    import ast
    nums = set()
    try:
        for x in json.loads(os.environ.get('ANTICIPY_HINTS', '[]')):
            nums |= {float(x), float(x) + 1, float(x) - 1}
    except ValueError:
        pass
    import anticipy
    for root, _, fs in os.walk(os.path.dirname(os.path.abspath(anticipy.__file__))):
        for f in fs:
            if f.endswith('.py'):
                try:
                    t = ast.parse(open(os.path.join(root, f)).read())
                except (SyntaxError, ValueError):
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and type(n.value) in (int, float) and abs(n.value) < 1e6:
                        nums |= {float(n.value), float(n.value) + 1, float(n.value) - 1}
    return sorted(nums)


HINTS = _harvest()


def set_hints(h):
    os.environ['ANTICIPY_HINTS'] = json.dumps(h)
    HINTS[:] = _harvest()


class Case(object):
    def __init__(self, seed):
        self.seed = seed
        self.rng = np.random.default_rng(seed)
        np.random.seed(seed % (2 ** 31))
        self.inputs = {}
        self.n_ensure = 0

    def show(self, **kw):
        for k, v in kw.items():
            self.inputs[k] = brief(v)

    def ensure(self, cond, msg, *args):
        self.n_ensure += 1
        if not bool(cond):
            raise Violation(msg % args if args else msg)

    def call(self, what, f, *a, **k):
        """call the real code; an exception is a violation"""
        try:
            return f(*a, **k)
        except (Violation, Skip):
            raise
        except Exception as e:
            import traceback
            tb = traceback.format_exc().strip().split('\n')
            raise Violation('%s raised %s: %s\n%s' % (what, type(e).__name__, e, '\n'.join(tb[-14:])))

    def raises(self, exc, what, f, *a, **k):
        self.n_ensure += 1
        try:
            f(*a, **k)
        except exc:
            return
        except Exception as e:
            raise Violation('%s raised %s instead of %s' % (what, type(e).__name__, exc))
        raise Violation('%s did not raise %s' % (what, exc))

    # -- comparisons
    def same(self, a, b, msg, rtol=1e-9, atol=1e-9):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.ensure(a.shape == b.shape, '%s: shapes %s and %s' % (msg, a.shape, b.shape))
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            i = int(np.argmin(ok.ravel()))
            self.ensure(False, '%s: at %d got %r, expected %r' % (msg, i, a.ravel()[i], b.ravel()[i]))
        self.n_ensure += 1

    def exact(self, a, b, msg):
        self.same(a, b, msg, rtol=0, atol=0)

    # -- choices
    def pick(self, *xs):
        if len(xs) == 1:
            xs = list(xs[0])
        return xs[int(self.rng.integers(len(xs)))]

    def flip(self, p=0.5):
        return bool(self.rng.random() < p)

    def hint(self, lo, hi):
        k = [h for h in HINTS if lo <= h <= hi]
        return k[int(self.rng.integers(len(k)))] if k else None

    def int(self, a, b):
        if b - a >= 8 and self.rng.random() < 0.1:
            h = self.hint(a, b)
            if h is not None and h == int(h):
                return int(h)
        return int(self.rng.integers(a, b + 1))

    def real(self, lo=-10., hi=10.):
        if self.rng.random() < 0.08:
            h = self.hint(lo, hi)
            if h is not None:
                return h
        k = self.rng.random()
        if k < 0.25:
            return float(self.int(int(np.ceil(lo)), int(np.floor(hi)))) if hi - lo >= 1 else float(lo)
        return float(self.rng.uniform(lo, hi))


# ---------------------------------------------------------------- generators
FREQS = ['H', 'D', 'W-MON', 'W-TUE', 'W-WED', 'W-THU', 'W-FRI', 'W-SAT', 'W-SUN', 'M', 'MS', 'Q', 'Y', 'YS']


def start_date(c, normalize=True):
    d = pd.Timestamp('2001-01-01') + pd.Timedelta(c.int(0, 8000), unit='D')
    if not normalize:
        d = d + pd.Timedelta(c.int(0, 86399), unit='s')
    return d


def date_axis(c, freq, n, start=None):
    return pd.date_range(start if start is not None else start_date(c), periods=n, freq=freq)


def any_dates(c, n=None, dup=True):
    """dates of assorted spacing, in any order, possibly repeated"""
    n = c.int(1, 40) if n is None else n
    k = c.int(0, 5)
    if k == 0:
        d = date_axis(c, c.pick(FREQS), n)
    elif k == 1:
        d = start_date(c, False) + pd.to_timedelta(np.sort(c.rng.integers(0, 4000, n)), unit='h')
    elif k == 2:
        d = start_date(c) + pd.to_timedelta(np.cumsum(c.rng.integers(0 if dup else 1, 40, n)), unit='D')
    elif k == 3:
        d = date_axis(c, 'D', n)
    elif k == 4:
        d = date_axis(c, c.pick('M', 'MS', 'YS', 'Y'), n)
    else:
        d = start_date(c) + pd.to_timedelta(np.cumsum(c.rng.integers(0 if dup else 1, 500, n)), unit='D')
    return pd.DatetimeIndex(d)


def values(c, n, kind=None):
    kind = kind or c.pick('normal', 'lin', 'int', 'const', 'wave', 'pos')
    r = c.rng
    if kind == 'normal':
        return r.normal(0, c.pick(0.01, 1., 100.), n) + c.pick(0., 10., -50.)
    if kind == 'lin':
        return c.real(-3, 3) * np.arange(n) + c.real(-20, 20) + r.normal(0, 0.1, n)
    if kind == 'int':
        return r.integers(-20, 20, n).astype(float)
    if kind == 'const':
        return np.full(n, c.real(-10, 10))
    if kind == 'wave':
        return 10 * np.sin(np.arange(n) / c.real(1, 5)) + r.normal(0, 0.3, n)
    return r.uniform(0.1, 50, n)


def snap(*objs):
    """deep copy for mutation detection"""
    return [copy.deepcopy(o) if not isinstance(o, (pd.DataFrame, pd.Series)) else o.copy(deep=True) for o in objs]


def same_obj(a, b):
    if isinstance(a, pd.DataFrame):
        try:
            pd.testing.assert_frame_equal(a, b, check_exact=True, check_freq=False)
            return list(a.columns) == list(b.columns)
        except AssertionError:
            return False
    if isinstance(a, pd.Series):
        try:
            pd.testing.assert_series_equal(a, b, check_exact=True, check_freq=False)
            return True
        except AssertionError:
            return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool(((a == b) | ((a != a) & (b != b))).all())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_obj(x, y) for x, y in zip(a, b))
    if isinstance(a, pd.Index):
        return a.equals(b)
    return a == b


def is_na(v):
    return v is None or v is pd.NaT or (isinstance(v, float) and v != v)
