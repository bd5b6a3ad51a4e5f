from common import *
import math
from fractions import Fraction
from anticipy import model_utils as mu


def ref_aicc(E, n, k):
    # E as an exact binary fraction: log(E) = log(m) + e log 2
    m, e = math.frexp(E)
    return n * (math.log(m) + e * math.log(2) - math.log(n)) + 2 * k + float(Fraction(2 * k * (k + 1), n - k - 1))


def err(c):
    t = c.int(0, 4)
    if t == 0:
        return float(10.0 ** c.rng.uniform(-323, 300))
    if t == 1:
        return float(c.pick(5e-324, 1e-323, 1e-320, 2.2250738585072014e-308, 1.0, 1e-300, 1e300, 1.7e308))
    if t == 2:
        return float(c.int(1, 100))
    return float(10.0 ** c.rng.uniform(-6, 6))


@check('C07', 'the score formula', 800)
def a(c):
    k = c.pick(c.int(0, 6), c.int(0, 60))
    n = k + 2 + c.pick(0, c.int(0, 5), c.int(0, 100000))
    E = err(c)
    conv = c.pick(lambda v: v, np.float64)
    c.show(E=E, n=n, k=k)
    s = c.call('get_aic_c', mu.get_aic_c, conv(E), n, k)
    e = ref_aicc(E, n, k)
    c.ensure(abs(s - e) <= 1e-9 * max(1, abs(e), abs(n * math.log(n))), 'AICc(%r, %s, %s) = %r, expected %r', E, n, k, s, e)
    c.ensure(c.call('get_aic_c', mu.get_aic_c, conv(E), np.int64(n), np.int64(k)) == s, 'integer types')
    # strictly growing in the error
    E2 = E * c.pick(1.01, 2., 10.)
    if E2 > E * 1.005 and np.isfinite(E2):
        c.ensure(mu.get_aic_c(E2, n, k) > s, 'grows with the error: %r -> %r', E, E2)
    # growing in the number of parameters
    if n > k + 2:
        c.ensure(mu.get_aic_c(E, n, k + 1) > s, 'grows with the number of parameters (k=%s)', k)
    # perfect fit: below any noticeable error
    z = c.call('perfect fit', mu.get_aic_c, conv(0.0), n, k)
    c.ensure(not np.isnan(z), 'score of a perfect fit is %r', z)
    if E > 1e-290:
        c.ensure(z < s, 'a perfect fit scores %r, error %r scores %r', z, E, s)


@check('C07', 'too short series are refused', 200)
def b(c):
    k = c.int(0, 30)
    n = c.int(0, k + 1)
    E = c.pick(0.0, err(c))
    c.show(E=E, n=n, k=k)
    c.raises(ValueError, 'too short (n=%d, k=%d)' % (n, k), mu.get_aic_c, E, n, k)


@check('C07', 'the best key', 600)
def key(c):
    n = c.int(0, 8)
    pool = [c.pick(-np.inf, -np.inf, np.inf, np.nan, np.nan, c.real(), float(c.int(-2, 2))) for _ in range(n)]
    if c.flip(0.1):
        pool = [np.nan] * n
    if c.flip(0.1):
        pool = [c.pick(np.inf, np.nan) for _ in range(n)]
    kind = c.int(0, 3)
    if kind == 0:
        idx = list(range(n))
    elif kind == 1:
        idx = ['m%d' % i for i in c.rng.permutation(n)]
    elif kind == 2:
        idx = [int(v) for v in c.rng.permutation(n) + c.int(0, 3)]
    else:
        idx = [(i, 'k%d' % (i % 2)) for i in c.rng.permutation(n)]
        idx = pd.MultiIndex.from_tuples([(int(a_), b_) for a_, b_ in idx]) if n else []
    s = pd.Series(pool, index=idx, dtype=float)
    c.show(scores=pool, index=list(idx))
    before = s.copy()
    r = c.call('best key', mu.get_s_aic_c_best_result_key, s)
    c.ensure(same_obj(before, s), 'the table of scores was modified')
    if all(np.isnan(v) for v in pool):
        c.ensure(r is None, 'no key for all-null scores, got %r', r)
        return
    c.ensure(r is not None, 'no key although there are scores')
    keys = list(s.index)
    r = tuple(r) if isinstance(r, tuple) else (r.item() if isinstance(r, np.generic) else r)
    c.ensure(r in keys, '%r is no key of the table', r)
    v = pool[keys.index(r)]
    m = min(v for v in pool if not np.isnan(v))
    c.ensure(v == m, 'key %r has score %r, the minimum is %r', r, v, m)
