from common import *
import ref
from anticipy import forecast_models as fm

CACHED = [ref.DATED[2:], ref.DUMMY, ref.MULTI]
ALL = CACHED + [ref.PLAIN]


def cached_eval(c, R, x, d, p, mult):
    kw = c.call('init_cache', R.model.init_cache, x, d)
    c.ensure(isinstance(kw, dict), 'init_cache result')
    return kw, c.call('cached evaluation of ' + R.tag, R.model, x, d, p, mult, **kw)


@check('C04', 'cached and uncached evaluation agree', 400)
def a(c):
    x, d = ref.samples(c)
    R = ref.tree(c, d, CACHED, 1) if c.flip(0.4) else ref.tree(c, d, ALL, c.int(2, 4))
    p = R.params(c, x, d)
    mult = c.flip()
    c.show(model=R.tag, x=x, date=d, params=p, is_mult=mult)
    plain = c.call(R.tag, R.model, x, d, p, mult)
    kw, y = cached_eval(c, R, x, d, np.array(p), mult)
    c.same(y, plain, 'cached evaluation', 1e-12, 1e-12)
    e = R.evaluate(x, d, p, mult)
    ok = np.isfinite(e)
    c.same(np.asarray(plain, dtype=float)[ok], e[ok], 'uncached value', 1e-7, 1e-7)
    c.same(np.asarray(y, dtype=float)[ok], e[ok], 'cached value', 1e-7, 1e-7)
    # a cache prepared for other input belongs to that input only
    x2, d2 = ref.samples(c)
    kw2 = R.model.init_cache(x2, d2)
    p2 = R.params(c, x2, d2)
    if not R.positional:
        c.same(R.model(x2, d2, p2, mult, **kw2), R.model(x2, d2, p2, mult), 'cache of other dates', 1e-12, 1e-12)
    c.same(R.model(x, d, p, mult, **kw), plain, 'cached evaluation after another cache was prepared', 1e-12, 1e-12)
    c.same(R.model(x, d, p, mult), plain, 'uncached evaluation repeated', 1e-12, 1e-12)


@check('C04', 'dummy variables never share a cache entry', 250)
def b(c):
    x, d = ref.samples(c)
    n = c.int(2, 5)
    name = [c.pick('dummy', 'dummy', 'a b', 'x') for _ in range(n)]
    fs, models = [], []
    bits = []
    for i in range(n):
        kind = c.int(0, 3)
        if kind == 0:
            l = [float(v) for v in c.rng.integers(-5, 30, c.int(1, 5))]
            models.append(fm.get_model_dummy(name[i], l))
            bits.append(lambda xx, dd, l=l: np.isin(xx, l).astype(float))
        elif kind == 1:
            l = [d[j] for j in c.rng.integers(0, len(d), c.int(1, 3))]
            models.append(fm.get_model_dummy(name[i], pd.DatetimeIndex(l)))
            bits.append(lambda xx, dd, l=l: np.array([v in set(l) for v in dd], dtype=float))
        elif kind == 2:
            k = c.int(0, 6)
            f = lambda a_x, a_date, k=k, **kw: (np.asarray(a_date.weekday) == k).astype(float)
            models.append(fm.get_model_dummy(name[i], f))
            bits.append(lambda xx, dd, f=f: f(xx, dd))
        else:
            cal = c.pick(fm.CalendarBankHolUK, fm.CalendarChristmasUK, fm.CalendarBankHolIta)()
            models.append(fm.get_model_dummy(name[i], cal))
            s = ref.calendar_dates(cal, min(d), max(d))
            bits.append(lambda xx, dd, s=s: np.array([v in s for v in dd], dtype=float))
    mult = c.flip()
    M = models[0]
    for m in models[1:]:
        M = M * m if mult else M + m
    p = [c.real() for _ in range(n)]
    c.show(names=name, x=x, date=d, params=p, mult=mult)
    cols = [b_(x, d) for b_ in bits]
    e = np.ones(len(x)) if mult else np.zeros(len(x))
    for q, col in zip(p, cols):
        e = e * (1 + q * col) if mult else e + q * col
    c.same(c.call('dummies', M, x, d, p), e, 'uncached dummies')
    kw = c.call('init_cache', M.init_cache, x, d)
    c.same(c.call('dummies', M, x, d, p, **kw), e, 'cached dummies')
    keys = [set(m.init_cache(x, d)) for m in models]
    for i in range(n):
        for j in range(i):
            c.ensure(not (keys[i] & keys[j]), 'dummies %d and %d share the cache entries %s', j, i, keys[i] & keys[j])


@check('C04', 'fitting with and without the cache', 25)
def f(c):
    from anticipy import forecast
    n = c.int(30, 90)
    d = pd.date_range(start_date(c), periods=n, freq='D')
    x = np.arange(n).astype(float)
    l = [d[j] for j in c.rng.integers(0, n, 4)]
    R = fm.model_linear + fm.model_season_wday + fm.get_model_dummy('d', pd.DatetimeIndex(l))
    y = 2 * x + 10 * d.weekday.values + 30 * np.isin(d, l) + c.rng.normal(0, 0.1, n)
    df = pd.DataFrame(dict(x=x, date=d, y=y))
    c.show(start=d[0], n=n, y=y, special=[str(v) for v in l])
    r = []
    for cache in (True, False):
        np.random.seed(1)
        m = c.call('fit_model', forecast.fit_model, R, df, 'D', use_cache=cache)['metadata']
        r.append((m.params.iloc[0], m.cost.iloc[0]))
    c.same(r[0][0], r[1][0], 'fitted parameters with and without cache', 1e-6, 1e-6)
    c.same(r[0][1], r[1][1], 'cost with and without cache', 1e-6, 1e-9)


@check('C04', 'naive models composed with a caching model', 60)
def nv(c):
    n = c.int(8, 30)
    x = np.arange(float(n))
    d = pd.date_range('2020-01-01', periods=n)
    y = np.array([np.nan if c.flip(0.1) else c.real() for _ in range(n)])
    y[0] = 1.
    df = pd.DataFrame({'date': d, 'x': x, 'y': y})
    m = c.pick(fm.model_naive, fm.model_snaive_wday)
    o = c.pick(fm.model_season_wday, fm.model_season_month, fm.model_dummy_christmas)
    mult = c.flip()
    k = m * o if mult else m + o
    if c.flip():
        k = o * m if mult else o + m
    p = [c.real() for _ in range(k.n_params)]
    if c.flip(0.3):
        k, p = fm.fix_params_fmodel(k, p), []
    c.show(model=k.name, table=df, params=p)
    kw = c.call('init_cache', k.init_cache, x, d)
    r0 = c.call('uncached', k, x, d, p, df_actuals=df)
    r1 = c.call('cached', k, x, d, p, df_actuals=df, **kw)
    c.same(r1, r0, 'cached evaluation', 1e-12, 1e-12)
    c.same(r0, (np.multiply if mult else np.add)(m(x, d, [], df_actuals=df), o(x, d, p, mult)) if p else r0, 'sum of the parts', 1e-9, 1e-9)
