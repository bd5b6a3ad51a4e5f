from scen import *


def judge(c, r, src, full):
    md, data = r['metadata'], r['data']
    md = md.loc[md.source == src]
    data = data.loc[data.source == src]
    allm = full['metadata'].loc[full['metadata'].source == src]
    fit = allm.loc[allm.is_fit.astype(bool)]
    best = md.loc[md.is_best_fit.astype(bool)]
    rows = data.loc[data.is_best_fit.astype(bool)]
    if fit.empty:
        c.ensure(best.empty and rows.empty, 'no candidate was fitted, but a best fit is flagged')
        return None
    c.ensure(len(best) == 1, '%d models are flagged as best fit', len(best))
    b = best.iloc[0]
    c.ensure(bool(b.is_fit) and b.status == 'FIT', 'the best fit has status %s', b.status)
    lo = fit.aic_c.min()
    c.ensure(b.aic_c <= lo or (np.isinf(lo) and lo > 0) or lo != lo, 'best fit %s has score %r, another fitted model has %r', b.model, b.aic_c, lo)
    c.ensure(set(rows.model) <= {b.model}, 'rows of %s flagged as best fit', sorted(set(rows.model)))
    c.ensure(not rows.is_actuals.any(), 'actual rows are flagged as best fit')
    mine = data.loc[(data.model == b.model) & ~data.is_actuals]
    c.ensure(len(mine) == len(rows), '%d of %d rows of the best fit are flagged', len(rows), len(mine))
    return b


@check('C08', 'best fit of a forecast', 100, t=1500)
def a(c):
    s = make(c, nmin=1)
    k = args(c, s)
    df = s.df
    src = 'src'
    if c.flip(0.15):
        df = df.assign(y=np.nan)
    if c.flip(0.15) and len(df) > 4:
        df = df.assign(y=c.pick(3.0, 0.0))    # perfect fits
    c.show(df=df, **k)
    np.random.seed(1)
    r = c.call('run_forecast', fc.run_forecast, df, simplify_output=False, include_all_fits=True, **k)
    b = judge(c, r, src, r)
    np.random.seed(1)
    q = c.call('run_forecast', fc.run_forecast, df, simplify_output=False, include_all_fits=False, **k)
    if b is None:
        c.ensure(q['data'].is_actuals.all() and q['metadata'].empty, 'nothing was fitted, but forecast rows or models are returned')
        return
    b2 = judge(c, q, src, r)
    c.ensure(b2.model == b.model, 'best fit changes with include_all_fits')
    c.ensure(len(q['metadata']) == 1, '%d models in the metadata of the best fit', len(q['metadata']))
    o = q['data']
    c.ensure((o.is_actuals | o.is_best_fit.astype(bool)).all(), 'rows of other models returned')
    f = r['data']
    exp = f.loc[f.is_actuals | f.is_best_fit.astype(bool)]
    c.ensure(len(exp) == len(o) and list(exp.model) == list(o.model) and list(exp.date) == list(o.date), 'rows returned without include_all_fits')
    c.exact(exp.y.values, o.y.values, 'values returned without include_all_fits')
    out = q['forecast']
    c.ensure(set(out.loc[~out.is_actuals.astype(bool)].model) <= {b.model}, 'models of the forecast table %s', set(out.model))


@check('C08', 'best fit per source', 25, t=300)
def m(c):
    n = c.int(2, 4)
    names = ['b', 'a', 'd', 'c'][:n]
    parts = []
    dated = c.flip(0.7)
    for v in names:
        ln = c.pick(2, 3, 4, 5, 12, 30)
        y = c.pick(lambda: values(c, ln), lambda: 2.0 * np.arange(ln) + c.rng.normal(0, .01, ln), lambda: np.full(ln, np.nan), lambda: 5 + c.rng.normal(0, 1, ln))()
        p = pd.DataFrame(dict(y=y, source=v))
        if dated:
            p['date'] = pd.date_range('2019-01-01', periods=ln, freq=c.pick('D', 'W-TUE'))
        parts.append(p)
    df = pd.concat(parts, ignore_index=True)
    T = [fm.model_linear, fm.model_constant]
    c.show(df=df)
    kw = dict(l_model_trend=T, l_model_season=[fm.model_null], extrapolate_years=0.05, simplify_output=False)
    np.random.seed(1)      # initial guesses may be random
    r = c.call('run_forecast', fc.run_forecast, df, include_all_fits=True, **kw)
    np.random.seed(1)
    q = c.call('run_forecast', fc.run_forecast, df, include_all_fits=False, **kw)
    for v in names:
        b = judge(c, r, v, r)
        if b is not None:
            c.ensure(judge(c, q, v, r).model == b.model, 'best fit of %s changes', v)


@check('C08', 'the candidate of the lowest score wins whatever the order', 40, t=400)
def o(c):
    n = c.int(20, 60)
    t = np.arange(n)
    truth = c.pick('constant', 'linear', 'wday')
    d = pd.date_range('2018-03-05', periods=n)
    y = 10 + c.rng.normal(0, 0.05, n)
    if truth == 'linear':
        y = y + 0.7 * t
    if truth == 'wday':
        y = y + 4 * (d.weekday < 5)
    df = pd.DataFrame(dict(y=y, date=d))
    T = [fm.model_linear, fm.model_constant]
    S = [fm.model_null, fm.model_season_wday_2]
    T, S = [T[i] for i in c.rng.permutation(2)], [S[i] for i in c.rng.permutation(2)]
    c.show(df=df, truth=truth, trend=T, season=S)
    r = c.call('run_forecast', fc.run_forecast, df, l_model_trend=T, l_model_season=S, l_model_naive=[],
               extrapolate_years=0.05, simplify_output=False, include_all_fits=True)
    b = judge(c, r, 'src', r)
    X = {'constant': [np.ones(n)], 'linear': [t, np.ones(n)],
         '(constant+season_wday_2)': [np.ones(n), d.weekday < 5], '(linear+season_wday_2)': [t, np.ones(n), d.weekday < 5]}
    sc = {}
    for name, cols in X.items():
        M = np.column_stack([np.asarray(v, dtype=float) for v in cols])
        res = y - M @ np.linalg.lstsq(M, y, rcond=None)[0]
        sc[name] = ref_aic(0.5 * (res ** 2).sum(), n, M.shape[1])
    rank = sorted(sc, key=sc.get)
    if sc[rank[1]] - sc[rank[0]] < 0.01:
        raise Skip('tie')
    if b.model not in sc and b.model not in naive_names():
        raise Skip('unknown name ' + b.model)
    c.ensure(b.model == rank[0], 'best fit is %s, expected %s (%s)', b.model, rank[0], sc)
