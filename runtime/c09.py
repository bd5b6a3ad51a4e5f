from scen import *
import ref


@check('C09', 'residuals', 500, t=6000)
def a(c):
    x, d = ref.samples(c)
    r = ref.tree(c, d, [ref.PLAIN, ref.NULL, ref.DATED, ref.DUMMY], c.int(1, 3))
    p = r.params(c, x, d)
    y = values(c, len(x))
    w = c.pick(None, c.rng.uniform(0, 3, len(x)), np.zeros(len(x)), np.ones(len(x)))
    if c.flip(0.2):
        y = np.where(c.rng.random(len(x)) < 0.3, np.nan, y)
    c.show(model=r.tag, x=x, d=d, p=p, y=y, w=w)
    got = np.asarray(c.call('get_residuals', fc.get_residuals, np.array(p), r.model, x, y, d, a_weights=w), dtype=float)
    with np.errstate(all='ignore'):
        e = np.abs(y - r.evaluate(x, d, p, False)) * (1. if w is None else w)
    c.ensure(got.shape == e.shape, 'one residual per sample: %s, expected %s', got.shape, e.shape)
    f = np.isfinite(e)
    c.ensure((np.isnan(got) == np.isnan(e))[~np.isinf(e)].all(), 'null residuals')
    sc = np.abs(e[f]).max() if f.any() else 1.
    c.same(got[f], e[f], 'residuals of %s' % r.tag, 1e-7, 1e-7 * (1 + sc))
    c.ensure((got[f] >= 0).all(), 'negative residual')


def fitted(c, m, df, **k):
    np.random.seed(7)
    r = c.call('fit_model', fc.fit_model, m, df, **k)
    md = r['metadata'].iloc[0]
    return md


def table(c, n=None, dup=True):
    n = c.int(8, 40) if n is None else n
    x = np.arange(n)
    if dup and c.flip(0.4):
        x = np.sort(c.rng.integers(0, max(3, int(n / 1.6)), n))
    df = pd.DataFrame(dict(x=x, y=values(c, n)))
    if c.flip(0.7):
        df['date'] = pd.Timestamp('2018-01-01') + pd.to_timedelta(x, unit='D')
    if c.flip(0.6):
        df['weight'] = c.pick(c.rng.uniform(0.3, 3, n), np.full(n, c.pick(1., 2.)), c.rng.integers(1, 4, n).astype(float))
    return df


LIN = {'constant': (fm.model_constant, lambda df: [np.ones(len(df))]),
       'linear': (fm.model_linear, lambda df: [df.x.values.astype(float), np.ones(len(df))]),
       'wday2': (fm.model_constant + fm.model_season_wday_2, lambda df: [np.ones(len(df)), (df.date.dt.weekday < 5).values.astype(float)])}


def ref_fit(df, cols):
    """weighted least squares over the usable samples"""
    u = usable(df)
    w = weights_of(u)
    M = np.column_stack(cols(u)) * w[:, None]
    p = np.linalg.lstsq(M, u.y.values * w, rcond=None)[0]
    res = u.y.values * w - M @ p
    return p, 0.5 * (res ** 2).sum(), len(u), np.linalg.matrix_rank(M) == M.shape[1]


@check('C09', 'fit minimises the weighted residuals of usable samples', 150, t=2000)
def b(c):
    df = table(c)
    if c.flip(0.4):
        df.loc[c.rng.random(len(df)) < 0.2, 'y'] = np.nan
    if c.flip(0.4):
        df['weight'] = df['weight'] if 'weight' in df else 1.0
        df.loc[c.rng.random(len(df)) < 0.2, 'weight'] = c.pick(0., np.nan)
    name = c.pick('constant', 'linear', 'wday2') if 'date' in df else c.pick('constant', 'linear')
    m, cols = LIN[name]
    u = usable(df)
    if u.x.nunique() < 4 or len(u) < m.n_params + 3:
        raise Skip('too short')
    p, cost, n, full = ref_fit(df, cols)
    if not full:
        raise Skip('not determined')
    c.show(df=df, model=name)
    md = fitted(c, m, df, freq='D')
    c.ensure(md.status == 'FIT', 'status %s', md.status)
    sc = 1 + np.abs(u.y).max()
    c.ensure(abs(md.cost - cost) <= 1e-6 * cost + 1e-8 * sc * sc * len(u), 'cost %r, the least weighted cost is %r', md.cost, cost)
    # the parameters reproduce the fitted values
    M = np.column_stack(cols(u))
    c.same(M @ np.asarray(md.params), M @ p, 'fitted values of %s' % name, 1e-3, 2e-3 * sc)


@check('C09', 'null, zero-weight and unweighted samples have no influence', 150, t=2000)
def d(c):
    df = table(c)
    extra = df.iloc[c.rng.integers(0, len(df), c.int(1, 8))].copy()
    kind = c.pick('null', 'zero', 'nan')
    df['x'] = df.x.astype(float)
    extra['x'] = extra.x.astype(float)
    if kind == 'null':
        extra['y'] = np.nan
    else:
        if 'weight' not in df:
            df['weight'] = 1.0
        extra['y'] = c.rng.normal(0, 1000, len(extra))
        extra['weight'] = 0. if kind == 'zero' else np.nan
    if c.flip():
        extra['x'] = extra.x + 0.5
    big = pd.concat([df, extra], ignore_index=True).sort_values('x', kind='stable').reset_index(drop=True)
    m = c.pick(fm.model_constant, fm.model_linear, fm.model_linear_nondec, fm.model_ramp, fm.model_linear + fm.model_step)
    c.show(df=df, ignored=extra, model=m)
    p = fitted(c, m, df, freq='D')
    q = fitted(c, m, big, freq='D')
    c.ensure(p.status == q.status, 'status %s and %s', p.status, q.status)
    if p.status == 'FIT':
        c.exact(q.params, p.params, 'parameters with ignored samples')
        c.exact([q.cost, q.aic_c], [p.cost, p.aic_c], 'cost and score with ignored samples')
    c.ensure(p.actuals_x_range == q.actuals_x_range or kind is None, 'range of the fitted samples: %s and %s', p.actuals_x_range, q.actuals_x_range)


@check('C09', 'ignored samples of a forecast have no influence', 60, t=700)
def e(c):
    s = make(c, nmin=8, nans=False, dup=c.flip(0.3))
    df = s.df
    n = len(df)
    ign = c.rng.random(n) < c.pick(0.1, 0.3)
    ign[[0, n - 1]] = c.pick(False, True, False)
    df['weight'] = (df['weight'] if 'weight' in df else 1.0) * 1.0
    df.loc[ign, 'weight'] = 0.
    df2 = df.copy()
    df2.loc[ign, 'y'] = c.pick(np.nan, 1e4, -77.)
    k = args(c, s)
    c.show(df=df, ignored=np.nonzero(ign)[0], changed=df2.y.values, **k)
    np.random.seed(5)
    p = c.call('run_forecast', fc.run_forecast, df, simplify_output=False, include_all_fits=True, **k)
    np.random.seed(5)
    q = c.call('run_forecast', fc.run_forecast, df2, simplify_output=False, include_all_fits=True, **k)
    a, b = p['metadata'], q['metadata']
    c.ensure(list(a.model) == list(b.model) and list(a.status) == list(b.status) and list(a.is_best_fit) == list(b.is_best_fit), 'candidates, status or best fit change')
    c.exact(b[['cost', 'aic_c']].values.astype(float), a[['cost', 'aic_c']].values.astype(float), 'costs and scores')
    for u, v in zip(a.params, b.params):
        c.exact(v, u, 'parameters')
    u, v = p['data'].loc[~p['data'].is_actuals], q['data'].loc[~q['data'].is_actuals]
    c.ensure(list(u.date) == list(v.date), 'forecast dates')
    c.exact(v.y.values, u.y.values, 'forecast values')


@check('C09', 'naive cost', 120)
def nv(c):
    n = c.int(4, 30)
    y = values(c, n)
    w = c.rng.uniform(0.2, 2, n)
    df = pd.DataFrame(dict(x=np.arange(n), y=y, date=pd.date_range('2018-01-01', periods=n), weight=w))
    c.show(df=df)
    md = fitted(c, fm.model_naive, df, freq='D', df_actuals=df)
    pred = np.concatenate([y[:1], y[:-1]])
    c.same(md.cost, 0.5 * (((y - pred) * w) ** 2).sum(), 'cost of the naive model', 1e-9, 1e-12)
