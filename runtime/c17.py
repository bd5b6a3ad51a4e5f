from scen import *


def frames_equal(c, a, b, what, cols=None):
    a, b = a.reset_index(drop=True), b.reset_index(drop=True)
    c.ensure(len(a) == len(b), '%s: %d rows, alone %d', what, len(a), len(b))
    for k in (cols or [v for v in b.columns]):
        c.ensure(k in a.columns or b[k].isnull().all(), '%s: no column %s', what, k)
        if k not in a.columns:
            continue
        for i, (u, v) in enumerate(zip(a[k], b[k])):
            if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
                ok = np.asarray(u).shape == np.asarray(v).shape and np.allclose(np.asarray(u, dtype=float), np.asarray(v, dtype=float), rtol=1e-6, atol=1e-9, equal_nan=True)
            elif isinstance(u, float) and isinstance(v, (float, int)):
                ok = (u == v) or (u != u and v != v) or (abs(u - v) <= 1e-6 * (1 + abs(v)))
            else:
                ok = (is_na(u) and is_na(v)) or u == v
            c.ensure(ok, '%s: %s of row %d is %r, alone %r', what, k, i, u, v)


META = ['source', 'model', 'weights', 'actuals_x_range', 'freq', 'is_fit', 'cost', 'aic_c', 'status', 'source_long', 'params', 'is_best_fit', 'add_mult']


def sources(c, nmax=4):
    n = c.int(1, nmax)
    names = c.pick(['a', 'b', 'c', 'd'], ['z', 'm', 'k', 'a'], [3, 1, 2, 10], ['x 1', 'x', 'x 2', ''])[:n]
    dated = c.flip(0.75)
    wt = c.flip(0.4)
    parts = []
    for v in names:
        s = make(c, dated=dated, weights=wt, nmin=c.pick(1, 5, 8), nmax=30, freqs=['D', 'D', 'W-MON', 'MS', 'W-THU'], start=None if c.flip() else pd.Timestamp('2018-01-01'))
        if wt and 'weight' not in s.df:
            s.df['weight'] = 1.0
        s.df['source'] = v
        if c.flip(0.1):
            s.df['y'] = np.nan
        parts.append(s.df)
    df = pd.concat(parts, ignore_index=True)
    shuffled = c.flip()
    if shuffled:
        # interleave the sources, each in its own order
        o = np.argsort(c.rng.random(len(df)))
        slots = df.source.values[o]
        its = {v: iter(df.index[df.source == v]) for v in names}
        df = df.loc[[next(its[v]) for v in slots]].reset_index(drop=True)
    return df, names


def const_model(c):
    """models whose fit does not draw random initial values"""
    return [[fm.model_linear], [fm.model_linear, fm.model_linear_nondec], [fm.model_linear + fm.model_ramp, fm.model_linear]][c.int(0, 2)]


@check('C17', 'each source is forecast as if alone', 60, t=800)
def a(c):
    df, names = sources(c)
    k = dict(l_model_trend=const_model(c), l_model_season=[fm.model_null], extrapolate_years=c.pick(0, 0.1, 0.3), include_all_fits=c.flip(0.7),
             l_model_naive=c.pick(None, [fm.model_naive], []), season_add_mult=c.pick('add', 'both', 'auto'), find_outliers=False)
    c.show(df=df, **k)
    np.random.seed(1)
    r = c.call('run_forecast', fc.run_forecast, df, simplify_output=False, **k)
    for t in ('data', 'metadata', 'forecast', 'optimize_info'):
        c.ensure(set(r[t].source) <= set(names), '%s has rows of %s', t, set(r[t].source) - set(names))
    c.ensure(set(r['data'].source) == set(names), 'no data of %s', set(names) - set(r['data'].source))
    for v in names:
        own = df.loc[df.source == v].reset_index(drop=True)
        alone_src = c.flip()
        np.random.seed(1)
        q = c.call('run_forecast alone', fc.run_forecast, own if alone_src else own.drop(columns='source'), simplify_output=False, source_id=v, **k)
        sel = {t: r[t].loc[r[t].source == v] for t in r}
        dcols = ['date', 'model', 'y', 'source', 'is_actuals', 'source_long', 'weight', 'is_best_fit']
        frames_equal(c, sel['data'], q['data'], 'data of %s' % v, dcols)
        frames_equal(c, sel['metadata'], q['metadata'], 'metadata of %s' % v, META)
        frames_equal(c, sel['optimize_info'], q['optimize_info'], 'optimize_info of %s' % v, ['source', 'cost', 'success', 'params_str', 'source_long'])
        frames_equal(c, sel['forecast'], q['forecast'], 'forecast of %s' % v, ['date', 'model', 'y', 'source', 'is_actuals'])
        lab = set(str(u).split(':')[0] for u in sel['data'].source_long)
        c.ensure(lab <= {str(v)}, 'source_long of %s: %s', v, lab)


@check('C17', 'simplified output of several sources', 20, t=250)
def s(c):
    df, names = sources(c)
    k = dict(l_model_trend=[fm.model_linear], l_model_season=[fm.model_null], extrapolate_years=0.1)
    c.show(df=df)
    np.random.seed(1)
    r = c.call('run_forecast', fc.run_forecast, df, simplify_output=False, **k)
    np.random.seed(1)
    o = c.call('run_forecast', fc.run_forecast, df, simplify_output=True, **k)
    frames_equal(c, o, r['forecast'], 'simplified output')


@check('C17', 'aggregation keeps all rows', 100, t=1000)
def g(c):
    res, n = [], c.int(1, 5)
    for i in range(n):
        d = {}
        for t in ('forecast', 'data', 'metadata', 'optimize_info'):
            m = c.int(0, 4)
            d[t] = pd.DataFrame(dict(source=['s%d' % i] * m, v=c.rng.normal(0, 1, m), u=c.rng.integers(0, 9, m)))
            if c.flip(0.3):
                d[t]['extra%d' % i] = 1.0
            if c.flip(0.3):
                d[t].index = d[t].index + 5
        res.append(d)
    c.show(results=[{t: d[t].to_csv() for t in d} for d in res])
    r = c.call('aggregate', fc.aggregate_forecast_dict_results, res)
    c.ensure(set(r) == {'forecast', 'data', 'metadata', 'optimize_info'}, 'keys %s', sorted(r))
    for t in r:
        e = [tuple(v) for d in res for v in d[t][['source', 'v', 'u']].itertuples(index=False)]
        o = [tuple(v) for v in r[t][['source', 'v', 'u']].itertuples(index=False)] if len(e) else []
        c.ensure(o == e and (len(e) == len(r[t])), '%s: %d rows, expected %d', t, len(r[t]), len(e))
        c.ensure(list(r[t].index) == list(range(len(e))), '%s: index', t)


@check('C17', 'list of forecast inputs', 20, t=250)
def l(c):
    n = c.int(1, 3)
    ins = []
    for i in range(n):
        s = make(c, weights=False, nmin=6, nmax=25, freqs=['D', 'W-MON'])
        ins.append(fc.ForecastInput('src%d' % i, s.df, [fm.model_linear], [fm.model_null]))
    c.show(dfs=[f.df_y.to_csv() for f in ins])
    np.random.seed(2)
    r = c.call('run_l_forecast', fc.run_l_forecast, ins, extrapolate_years=0.1, include_all_fits=True)
    c.ensure(set(r['data'].source) == set('src%d' % i for i in range(n)), 'sources %s', set(r['data'].source))
    for f in ins:
        np.random.seed(2)
        q = fc.run_forecast(f.df_y, f.l_model_trend, f.l_model_season, source_id=f.source_id, extrapolate_years=0.1, include_all_fits=True, simplify_output=False)
        frames_equal(c, r['data'].loc[r['data'].source == f.source_id], q['data'], 'data of ' + f.source_id, ['date', 'model', 'y', 'is_actuals', 'is_best_fit'])
        frames_equal(c, r['metadata'].loc[r['metadata'].source == f.source_id], q['metadata'], 'metadata of ' + f.source_id, META)
