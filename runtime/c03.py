from common import *
import ref
from anticipy import forecast_models as fm

FAMS = [ref.PLAIN, ref.POSITIVE, ref.DATED, ref.DUMMY, ref.MULTI, ref.POSITIONAL]


def series(c, n):
    k = c.int(0, 5)
    if k == 0:
        x = np.arange(n).astype(float)
    elif k == 1:
        x = np.sort(c.rng.integers(-5, 2 * n, n)).astype(float)
    elif k == 2:
        x = np.sort(c.rng.uniform(-50, 50, n))
    elif k == 3:
        x = np.full(n, c.real())
    elif k == 4:
        x = np.arange(n) * c.pick(1, 7, 30) + c.int(-10, 1000)
    else:
        x = np.sort(np.concatenate([np.full(n - n // 3, c.real()), c.rng.uniform(-20, 20, n // 3)]))
    kk = c.int(0, 4)
    if kk == 0:
        y = values(c, n)
    elif kk == 1:
        y = np.full(n, c.real())
        y[c.int(0, n - 1)] += c.real()
    elif kk == 2:
        y = -np.abs(values(c, n)) - c.pick(0., 1000.)
    elif kk == 3:
        y = np.abs(values(c, n)) + c.pick(0.001, 1000.)
    else:
        y = values(c, n, 'const')
    return x, y


def judge(c, m, k, x, y, d, what):
    ip = c.call('%s: f_init_params' % m.name, m.f_init_params, x, y, d) if d is not None else \
        c.call('%s: f_init_params' % m.name, m.f_init_params, x, y)
    lo, hi = c.call('%s: f_bounds' % m.name, m.f_bounds, x, y)
    i0 = np.asarray(ip, dtype=float)
    lo, hi = np.asarray(lo, dtype=float), np.asarray(hi, dtype=float)
    c.ensure(i0.shape == (k,), '%s: initial guess %s for %d parameters', m.name, i0, k)
    c.ensure(lo.shape == (k,) and hi.shape == (k,), '%s: bounds %s %s for %d parameters', m.name, lo, hi, k)
    c.ensure((lo <= hi).all(), '%s: bounds not ordered: %s %s', m.name, lo, hi)
    c.ensure(((lo <= i0) & (i0 <= hi)).all(), '%s: guess %s outside of bounds %s %s (%s)', m.name, i0, lo, hi, what)


@check('C03', 'predefined models on usable series', 900)
def a(c):
    n = c.int(3, 40)
    x, y = series(c, n)
    d = pd.DatetimeIndex(pd.Timestamp('2012-03-05') + pd.to_timedelta(np.floor(x - x.min()), unit='D'))
    R = ref.leaf(c, d, FAMS)
    m = R.model
    c.show(model=R.tag, x=x, y=y)
    c.ensure(m.n_params == R.k, '%s has %s parameters', m.name, m.n_params)
    if n < m.n_params + 2 or not c.call('validate_input', m.validate_input, x, y, d):
        raise Skip('not usable')
    judge(c, m, R.k, x, y, None, 'without dates')
    judge(c, m, R.k, x, y, d, 'with dates')


@check('C03', 'compositions of predefined models on usable series', 250)
def a2(c):
    n = c.int(5, 60)
    x, y = series(c, n)
    d = pd.DatetimeIndex(pd.Timestamp('2012-03-05') + pd.to_timedelta(np.floor(x - x.min()), unit='D'))
    R = ref.tree(c, d, FAMS, c.int(2, 3))
    m = R.model
    c.show(model=R.tag, x=x, y=y)
    if n < m.n_params + 2 or not c.call('validate_input', m.validate_input, x, y, d):
        raise Skip('not usable')
    lo, hi = m.f_bounds(x, y)
    i0 = m.f_init_params(x, y)
    if '*' in R.tag:
        c.ensure(len(i0) == R.k and np.shape(lo) == (R.k,) and np.shape(hi) == (R.k,), 'lengths')
        c.ensure((np.asarray(lo) <= np.asarray(hi)).all(), 'bounds ordered')
    else:
        judge(c, m, R.k, x, y, None, 'composition')


@check('C03', 'shortest accepted series', 200)
def sh(c):
    R = ref.leaf(c, None, [ref.PLAIN, ref.POSITIVE, ref.POSITIONAL])
    n = R.k + 2
    x, y = series(c, n)
    m = R.model
    c.show(model=R.tag, x=x, y=y)
    if not m.validate_input(x, y, None):
        raise Skip('not usable')
    judge(c, m, R.k, x, y, None, 'shortest')


@check('C03', 'lengths without data, default guess', 300)
def nodata(c):
    d = any_dates(c)
    R = ref.leaf(c, d, FAMS)
    m = R.model
    c.show(model=R.tag)
    i0 = np.asarray(c.call('f_init_params', m.f_init_params, None, None), dtype=float)
    lo, hi = c.call('f_bounds', m.f_bounds, None, None)
    c.ensure(i0.shape == (R.k,), '%s: guess %s for %d parameters without data', m.name, i0, R.k)
    c.ensure(np.shape(lo) == (R.k,) and np.shape(hi) == (R.k,), '%s: bounds %s %s without data', m.name, lo, hi)
    c.ensure((np.asarray(lo) <= np.asarray(hi)).all(), '%s: bounds order', m.name)
    i0 = np.asarray(c.call('f_init_params', m.f_init_params), dtype=float)
    c.ensure(i0.shape == (R.k,), '%s: guess %s for %d parameters without arguments', m.name, i0, R.k)
    k = c.int(0, 8)
    q = fm.ForecastModel('q', k, lambda a_x, a_date, params, is_mult=False, **kw: a_x)
    n = c.int(1, 20)
    x, y = series(c, n)
    for args in ((), (None, None), (x, y), (x, y, None), (x, y, d, True)):
        i0 = np.asarray(c.call('default guess', q.f_init_params, *args))
        c.ensure(i0.shape == (k,) and (i0 > 0).all() and (i0 <= 1).all(), 'default guess %s', i0)
        lo, hi = c.call('default bounds', q.f_bounds, *args[:3])
        c.ensure(list(lo) == [-np.inf] * k and list(hi) == [np.inf] * k, 'default bounds %s %s', lo, hi)
    for m in (fm.model_quasilinear, fm.model_exp, fm.model_sigmoid, fm.model_season_wday, fm.model_season_month_old):
        i0 = np.asarray(m.f_init_params(x, y))
        lo, hi = m.f_bounds(x, y)
        c.ensure(i0.shape == (m.n_params,) and (i0 > 0).all() and (i0 <= 1).all(), '%s: default guess %s', m.name, i0)
        c.ensure(list(lo) == [-np.inf] * m.n_params and list(hi) == [np.inf] * m.n_params, '%s: default bounds', m.name)
