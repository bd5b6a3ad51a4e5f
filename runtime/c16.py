from scen import *
from c21 import naive_ref, snaive_ref


def forecast_kept(s, k, start):
    """the normalised samples from date_start_actuals on"""
    nd = fc.normalize_df(s.df)
    if start is not None and 'date' in nd.columns:
        nd = nd.loc[nd.date >= start].reset_index(drop=True)
    return nd


def start_arg(c, s):
    if s.dated and c.flip(0.3) and len(s.df) > 8:
        t = s.df.date.iloc[c.int(0, len(s.df) - 4)]
        return c.pick(t, str(t)) if s.kind != 'gap' else t
    return None


def key_rows(a, ys):
    return sorted((str(d if isinstance(d, pd.Timestamp) else float(d)), 'nan' if y != y else '%.17g' % y) for d, y in zip(a, ys))


def check_actuals(c, r, nd, src):
    data = r['data']
    act = data.loc[data.is_actuals]
    ax = nd.date if 'date' in nd.columns else nd.x
    c.ensure((act.model == 'actuals').all(), 'actual rows are labelled %s', sorted(set(act.model)))
    c.ensure(not (data.loc[~data.is_actuals].model == 'actuals').any(), 'forecast rows labelled actuals')
    g, e = key_rows(act.date, act.y), key_rows(ax, nd.y)
    c.ensure(g == e, 'actual rows: %d, expected %d; missing %s, extra %s', len(g), len(e), [v for v in e if v not in g][:3], [v for v in g if v not in e][:3])
    c.ensure((data.source == src).all(), 'sources of the rows: %s', sorted(set(map(str, data.source))))


@check('C16', 'actuals are complete and forecasts are the reported models', 110, t=1500)
def a(c):
    s = make(c, nmin=3)
    k = args(c, s)
    st = start_arg(c, s)
    if st is None and c.flip(0.3):
        give_x(c, s)
    multi = c.flip(0.3)
    src = c.pick('s1', 'x y') if multi else c.pick('src', 'abc')
    df = s.df.copy()
    if multi:
        df['source'] = src
    inc = c.flip(0.8)
    c.show(df=df, freq=s.freq, start=st, kind=s.kind, all=inc, **{a: v for a, v in k.items()})
    kw = dict(k)
    if not multi:
        kw['source_id'] = src
    r = c.call('run_forecast', fc.run_forecast, df, simplify_output=False, include_all_fits=inc, date_start_actuals=st, **kw)
    nd = forecast_kept(s, k, pd.Timestamp(st) if st is not None else None)
    check_actuals(c, r, nd, src)
    data, md = r['data'], r['metadata']
    keep = nd.loc[nd.weight > 0] if 'weight' in nd else nd
    fit = md.loc[md.is_fit.astype(bool)]
    fmod = [v for v in data.loc[~data.is_actuals].model.drop_duplicates()]
    exp = [v for v in fit.model.drop_duplicates()]
    if not keep.empty:
        fr = mu.detect_freq(fc.normalize_df(s.df).date) if s.dated else None
        x0 = float(keep.x.min())
        first = keep.date.min() if s.dated else keep.x.min()
        last = nd.date.max() if s.dated else nd.x.max()
        d, x = ref_axis(first, last, fr, k['extrapolate_years'], x0)
    for _, m in fit.iterrows():
        rows = data.loc[~data.is_actuals & (data.model == m.model)]
        dates = list(rows.date)
        c.ensure(len(set(dates)) == len(dates), '%s: forecast dates repeat', m.model)
        c.ensure(rows.y.notnull().all(), '%s: null forecast values', m.model)
        c.ensure((rows.source == m.source).all(), '%s: source', m.model)
        if m.model in naive_names():
            if s.kind == 'dup':
                continue
            full = fc.normalize_df(s.df)
            uy = full.y.where(full.x.isin(keep.x), np.nan).values
            xx, qx = full.x.values.astype(float), x
            if s.freq == 'H':
                continue      # several samples per x
            if m.model == 'naive':
                e = naive_ref(xx, uy, qx)
            else:
                dd = list(full.date)
                e = snaive_ref(xx, uy, dd, qx, [pd.Timestamp(v) for v in d])
        else:
            with np.errstate(all='ignore'):
                e = np.asarray(m.model_obj(np.array(x), pd.DatetimeIndex(d) if s.dated else pd.Index(d), m.params), dtype=float)
        ok = e == e
        ed = [a for a, f in zip(d, ok) if f]
        c.ensure(dates == ed, '%s: %d forecast rows %s..%s, expected %d rows %s..%s', m.model, len(dates), dates[:1], dates[-1:], len(ed), ed[:1], ed[-1:])
        c.same(rows.y.values, e[ok], '%s: forecast values' % m.model, 1e-9, 1e-9)
    gone = [v for v in fmod if v not in exp]
    c.ensure(not gone, 'forecast rows of models without a fit: %s', gone)


@check('C16', 'several sources', 25, t=300)
def b(c):
    parts, n = [], c.int(2, 3)
    names = c.pick(['a', 'b', 'c'], ['z', 'm', 'k'], [3, 1, 2])
    dated = c.flip(0.7)
    for i in range(n):
        s = make(c, dated=dated, weights=False, nmin=6, freqs=['D', 'D', 'W-MON', 'MS'], start=pd.Timestamp('2018-01-01') + pd.Timedelta(c.int(0, 30), 'D'))
        s.df['source'] = names[i]
        parts.append(s.df)
    df = pd.concat(parts, ignore_index=True)
    if c.flip():
        df = df.iloc[c.rng.permutation(len(df))].reset_index(drop=True)
    T, S = models(c)
    c.show(df=df)
    r = c.call('run_forecast', fc.run_forecast, df, l_model_trend=T, l_model_season=[fm.model_null], extrapolate_years=0.1, simplify_output=False, include_all_fits=True)
    nd = fc.normalize_df(df)
    for i in range(n):
        sub = r['data'].loc[r['data'].source == names[i]].reset_index(drop=True)
        check_actuals(c, dict(data=sub), nd.loc[nd.source == names[i]].reset_index(drop=True), names[i])
    c.ensure(set(r['data'].source) == set(names[:n]), 'sources %s', set(r['data'].source))
