from scen import *
import ref

KNOWN = [('constant', fm.model_constant), ('linear', fm.model_linear), ('linear_nondec', fm.model_linear_nondec), ('ramp', fm.model_ramp),
         ('step', fm.model_step), ('linear+ramp', fm.model_linear + fm.model_ramp), ('two_steps', fm.model_two_steps),
         ('sigmoid_step', fm.model_sigmoid_step), ('linear*step', fm.model_linear * fm.model_step), ('decay', fm.model_decay)]
DATED = [('wday', fm.model_season_wday), ('linear+wday', fm.model_linear + fm.model_season_wday), ('wday_2', fm.model_season_wday_2),
         ('linear+wday_2', fm.model_linear + fm.model_season_wday_2)]


def series(c):
    n = c.pick(c.int(0, 8), c.int(0, 8), c.int(5, 40))
    dated = c.flip(0.6)
    x = np.arange(n) + c.pick(0, 3)
    dup = c.flip(0.2) and n > 2
    if dup:
        x = np.sort(c.rng.integers(0, n, n))
    df = pd.DataFrame(dict(x=x, y=values(c, n) if n else np.zeros(0)))
    if dated:
        df['date'] = pd.Timestamp('2019-01-01') + pd.to_timedelta(x, unit='D')
    if c.flip(0.4):
        df['weight'] = np.where(c.rng.random(n) < 0.25, c.pick(0., np.nan), c.pick(1., 2.5))
    if c.flip(0.3):
        df.loc[c.rng.random(n) < 0.3, 'y'] = np.nan
    return df, dated


def bounds_equal(m, u):
    return None


def xrange_of(u, dated):
    if dated:
        a, b = u.date.min(), u.date.max()
        return '%s::%s' % (a.date(), b.date())
    return '%s::%s' % (u.x.min(), u.x.max())


@check('C10', 'status and metadata', 250, t=3000)
def a(c):
    df, dated = series(c)
    name, m = c.pick(KNOWN + (DATED if dated else []))
    u = usable(df)
    src, freq = c.pick('abc', 's:1', 'test'), c.pick('D', 'W', None)
    c.show(df=df, model=name, source=src, freq=freq)
    np.random.seed(c.int(0, 9))
    r = c.call('fit_model', fc.fit_model, m, df, freq=freq, source=src)
    md, oi = r['metadata'], r['optimize_info']
    c.ensure(len(md) == 1 and len(oi) == 1, '%d metadata rows, %d optimisation rows', len(md), len(oi))
    md = md.iloc[0]
    c.ensure(bool(md.is_fit) == (md.status == 'FIT'), 'is_fit %s with status %s', md.is_fit, md.status)
    c.ensure(md.source == src and md.freq == freq, 'source %s, freq %s', md.source, md.freq)
    if len(u) == 0:
        exp = 'EMPTY_TS'
    elif len(u) < m.n_params + 2:
        exp = 'TS_TOO_SHORT'
    elif not m.validate_input(u.x.values, u.y.values, pd.DatetimeIndex(u.date) if dated else None):
        exp = 'INPUT_ERR'
    else:
        exp = 'FIT'
    if exp == 'FIT':
        c.ensure(md.status in ('FIT', 'NO-FIT'), 'status %s for %d usable samples and %d parameters', md.status, len(u), m.n_params)
    else:
        c.ensure(md.status == exp, 'status %s, expected %s (%d usable samples, %d parameters)', md.status, exp, len(u), m.n_params)
        c.ensure(np.size(md.params) == 0, 'parameters %s without a fit', md.params)
        c.ensure(md.cost != md.cost and md.aic_c != md.aic_c, 'cost %s, score %s without a fit', md.cost, md.aic_c)
        c.ensure(md.model == m.name and md.model_obj is m, 'model of the metadata')
        if exp != 'EMPTY_TS':
            c.ensure(md.actuals_x_range == xrange_of(u, dated), 'range %s, expected %s', md.actuals_x_range, xrange_of(u, dated))
        return
    if md.status != 'FIT':
        return
    judge(c, md, m, u, dated)


def judge(c, md, m, u, dated, df_actuals=None):
    p = np.asarray(md.params, dtype=float)
    c.ensure(p.ndim == 1 and p.size == md.model_obj.n_params, '%d parameters for a model of %d', p.size, md.model_obj.n_params)
    c.ensure(np.isfinite(p).all(), 'parameters %s', p)
    c.ensure(md.model == md.model_obj.name, 'model %s is reported as %s', md.model_obj.name, md.model)
    c.ensure(md.actuals_x_range == xrange_of(u, dated), 'range %s, expected %s', md.actuals_x_range, xrange_of(u, dated))
    c.ensure(np.isfinite(md.cost) and md.cost >= 0, 'cost %r', md.cost)
    x = u.x.values / 100. if m.name in ('sigmoid', 'logistic') else u.x.values
    w = weights_of(u)
    with np.errstate(all='ignore'):
        pred = np.asarray(md.model_obj(x, pd.DatetimeIndex(u.date) if dated else None, p, df_actuals=df_actuals), dtype=float)
    cost = 0.5 * np.nansum(((u.y.values - pred) * w) ** 2)
    c.ensure(abs(cost - md.cost) <= 1e-7 * cost + 1e-12, 'cost %r, half the sum of squared residuals is %r', md.cost, cost)
    n, ok = len(u), []
    if md.cost / n == 0:
        c.ensure(md.aic_c < ref_aic(1e-290, n, m.n_params), 'score %r of a perfect fit', md.aic_c)
        return
    for k in {m.n_params, md.model_obj.n_params}:
        e = ref_aic(md.cost, n, k)
        ok.append(abs(md.aic_c - e) <= 1e-9 * (1 + abs(e)))
    c.ensure(any(ok), 'score %r, expected %r (cost %r, %d samples, %d parameters)', md.aic_c, ref_aic(md.cost, n, m.n_params), md.cost, n, m.n_params)


@check('C10', 'models rejected or without parameters', 120, t=1200)
def b(c):
    k = c.pick('nodate', 'naive', 'null', 'refuse', 'fixed')
    n = c.int(3, 20)
    df = pd.DataFrame(dict(x=np.arange(n), y=values(c, n), date=pd.date_range('2018-01-01', periods=n)))
    if c.flip(0.4):
        df['weight'] = c.rng.uniform(0.5, 2, n)
    c.show(kind=k, df=df)
    if k == 'nodate':
        m = fm.model_season_wday
        df = pd.concat([df, df.assign(x=df.x + n)], ignore_index=True) if n < 8 else df
        df = pd.concat([df, df.assign(x=df.x + 2 * n)], ignore_index=True) if n < 8 else df
        md = c.call('fit_model', fc.fit_model, m, df.drop(columns='date'), 'D')['metadata'].iloc[0]
        c.ensure(md.status == 'INPUT_ERR' and not md.is_fit and np.size(md.params) == 0 and md.aic_c != md.aic_c, 'a dated model without dates: %s', md.status)
    elif k == 'refuse':
        m = fm.ForecastModel('refusing', 1, lambda a_x, a_date, params, **kw: params[0] + 0 * a_x, l_f_validate_input=[lambda *a, **kw: (_ for _ in ()).throw(AssertionError('no'))])
        md = c.call('fit_model', fc.fit_model, m, df, 'D')['metadata'].iloc[0]
        c.ensure(md.status == 'INPUT_ERR' and not md.is_fit, 'a rejected input: %s', md.status)
    elif k == 'fixed':
        # every parameter bounded to one value: nothing is left to optimise
        v = c.real()
        m = fm.ForecastModel('pinned', 1, lambda a_x, a_date, params, is_mult=False, **kw: params[0] + 0. * a_x, f_bounds=lambda a_x=None, a_y=None, a_date=None: ([v], [v]),
                             f_init_params=lambda a_x=None, a_y=None, a_date=None, is_mult=False: np.array([v]))
        md = c.call('fit_model', fc.fit_model, m, df, 'D')['metadata'].iloc[0]
        c.ensure(md.status == 'FIT' and np.size(md.params) == md.model_obj.n_params, 'status %s, %d parameters for %d', md.status, np.size(md.params), md.model_obj.n_params)
        w = df.weight.values if 'weight' in df else np.ones(n)
        c.same(md.cost, 0.5 * (((df.y.values - v) * w) ** 2).sum(), 'cost of a pinned model', 1e-9, 1e-12)
    else:
        m = fm.model_naive if k == 'naive' else fm.model_null
        md = c.call('fit_model', fc.fit_model, m, df, 'D', df_actuals=df)['metadata'].iloc[0]
        c.ensure(md.status == 'FIT' and bool(md.is_fit), 'status %s', md.status)
        judge(c, md, m, df, True, df_actuals=df)


@check('C10', 'metadata of a forecast', 50, t=600)
def f(c):
    s = make(c, nmin=2, dup=False)
    k = args(c, s)
    c.show(df=s.df, **k)
    r = c.call('run_forecast', fc.run_forecast, s.df, simplify_output=False, include_all_fits=True, **k)
    nd = fc.normalize_df(s.df)
    freq = mu.detect_freq(nd.date) if s.dated else None
    base = nd.loc[nd.weight > 0] if 'weight' in nd else nd
    u = usable(base)
    for _, md in r['metadata'].iterrows():
        c.ensure(bool(md.is_fit) == (md.status == 'FIT'), 'is_fit %s with status %s', md.is_fit, md.status)
        c.ensure(md.freq == freq or (is_na(md.freq) and freq is None), 'freq %s, expected %s', md.freq, freq)
        c.ensure(md.source == 'src', 'source')
        if md.status == 'FIT' and md.model not in naive_names():
            judge(c, md, md.model_obj, u, s.dated)
        elif md.status != 'FIT':
            c.ensure(np.size(md.params) == 0 or md.status == 'NO-FIT', 'parameters without a fit')
