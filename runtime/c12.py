from scen import *


def _grid_start(c, freq):
    t = start_date(c)
    if freq is None or freq in ('H', 'D'):
        if freq == 'H':
            t = t + pd.Timedelta(c.int(0, 23), 'H')
        return t
    return on_grid(t, freq)


def grid(c, freq, start, n):
    out, t = [], pd.Timestamp(start)
    f = freq or WD[t.weekday()]
    for _ in range(n):
        out.append(t)
        t = pd.Timestamp(next_point(t, f))
    return out


YEARS = [0, 0, 1, 2, 0.5, 0.3, 1.7, 2.5, 1 / 365., 1 / 12., 0.25]


@check('C12', 'date axis', 500, t=6000)
def a(c):
    freq = c.pick([None] + FREQS)
    start = _grid_start(c, freq)
    acts = grid(c, freq, start, c.int(1, 40))
    years = c.pick(YEARS) if freq != 'H' else c.pick(0, 0.01, 0.05)
    x0 = c.pick(0., 0, c.int(-5, 50), 17.)
    conv = c.pick(lambda t: t, lambda t: t, lambda t: t.to_pydatetime(), lambda t: str(t))
    c.show(freq=freq, start=start, end=acts[-1], n=len(acts), years=years, x0=x0)
    s = c.call('get_s_x_extrapolate', mu.get_s_x_extrapolate, conv(start), conv(acts[-1]), model=c.pick(None, fm.model_linear), freq=freq,
               extrapolate_years=years, x_start_actuals=x0)
    d, x = ref_axis(start, acts[-1], freq, years, x0)
    got = [pd.Timestamp(v) for v in s.index]
    c.ensure(set(acts) <= set(got), 'actual dates missing from the axis: %s', sorted(set(acts) - set(got))[:3])
    c.ensure(got == d, 'axis has %d points %s..%s, expected %d points %s..%s', len(got), got[:2], got[-2:], len(d), d[:2], d[-2:])
    c.exact(s.values, x, 'x along the axis')


@check('C12', 'numeric axis', 400, t=4000)
def b(c):
    start = c.pick(c.int(-10, 40), c.int(-40, 160) / 8., 0)
    n = c.int(1, 60)
    end = start + n - 1
    years = c.pick(YEARS)
    if abs(100 * years - round(100 * years)) < 1e-6:
        years = round(100 * years) / 100.
    x0 = c.pick(0., start, c.int(-5, 50), 2.5, c.real(-50, 50))
    k = years * 100
    if k != int(k) and (abs(k - round(k)) < 1e-6):
        raise Skip('horizon at a rounding limit')
    c.show(start=start, end=end, years=years, x0=x0)
    s = c.call('get_s_x_extrapolate', mu.get_s_x_extrapolate, start, end, extrapolate_years=years, x_start_actuals=x0)
    m = n + int(math.floor(k + 1e-9))
    c.ensure(len(s) == m, 'axis has %d points, expected %d', len(s), m)
    c.same(s.index.values, start + np.arange(m), 'index')
    c.same(np.asarray(s.values, dtype=float), x0 + np.arange(m), 'x along the axis')


@check('C12', 'weekly axis on another weekday is refused', 60)
def w(c):
    t = start_date(c)
    f = c.pick([v for v in WD if v != WD[t.weekday()]])
    c.show(start=t, freq=f)
    c.raises(AssertionError, 'weekly axis on another weekday', mu.get_s_x_extrapolate, t, t + pd.Timedelta('70D'), freq=f)


@check('C12', 'extrapolated values are the model on the axis', 200, t=2500)
def e(c):
    import ref
    freq = c.pick(['D', 'D', 'W-MON', 'W-SAT', 'M', 'MS', None, 'num', 'H', 'YS'])
    x0 = float(c.pick(0, c.int(0, 30)))
    if freq == 'num':
        start = c.int(0, 20)
        n = c.int(1, 40)
        end, acts = start + n - 1, None
        years = c.pick(0, 0.1, 0.5)
        r = ref.tree(c, None, [ref.PLAIN, ref.NULL], c.int(1, 3))
    else:
        start = _grid_start(c, freq)
        acts = grid(c, freq, start, c.int(1, 30))
        end = acts[-1]
        years = c.pick(0, 0.3, 1.0) if freq != 'H' else c.pick(0, 0.01)
        r = ref.tree(c, pd.DatetimeIndex(acts), [ref.PLAIN, ref.NULL, ref.DATED, ref.DUMMY], c.int(1, 3))
    d, x = ref_axis(start, end, None if freq == 'num' else freq, years, x0)
    dd = None if freq == 'num' else pd.DatetimeIndex(d)
    p = r.params(c, np.array(x, dtype=float), dd)
    c.show(freq=freq, start=start, end=end, years=years, x0=x0, model=r.tag, params=p)
    kw = dict(freq=freq) if freq != 'num' else {}
    out = c.call('extrapolate_model', fc.extrapolate_model, r.model, np.array(p), start, end, extrapolate_years=years, x_start_actuals=x0, **kw)
    c.ensure(list(out.columns) == ['y'], 'columns %s', list(out.columns))
    c.ensure(list(out.index) == list(d), 'dates of the extrapolation')
    if r.model.name in ('sigmoid', 'logistic'):   # documented: fitted and extrapolated on x / 100
        x = [v / 100. for v in x]
    with np.errstate(all='ignore'):
        e = r.evaluate(x, dd, p, False)
    f = np.isfinite(e)
    c.same(out.y.values[f], e[f], 'extrapolated values of %s' % r.tag, 1e-7, 1e-7)


@check('C12', 'a forecast continues on the x scale of the fit', 40, t=500)
def f(c):
    """an exact line through all samples is continued exactly, whatever rows are ignored"""
    s = make(c, nans=False, nmin=8, dup=False)
    df = s.df
    A, B = c.pick(0.5, -1.5, 2.0), c.pick(1.0, -3.0)
    nd = fc.normalize_df(df)
    line = A * nd.x.values + B
    df = nd.drop(columns='x') if s.dated and c.flip() else nd
    df = df.assign(y=line)
    if 'weight' in df and (df.weight > 0).sum() < 5:
        raise Skip('too few')
    if c.flip(0.3) and len(df) > 12:
        df['weight'] = 1.0
        df.loc[:c.int(0, 4), 'weight'] = 0.0
    yrs = c.pick(0, 0.05, 0.2) if s.freq is None or s.freq[0] in 'DW' else (0.002 if s.freq == 'H' else 1.0)
    c.show(df=df, years=yrs, freq=s.freq)
    r = c.call('run_forecast', fc.run_forecast, df, l_model_trend=[fm.model_linear], l_model_season=[fm.model_null], l_model_naive=[],
               extrapolate_years=yrs, simplify_output=False)
    fr = mu.detect_freq(nd.date) if s.dated else None
    k = nd.loc[df.weight.values > 0] if 'weight' in df else nd
    st = k.date.iloc[0] if s.dated else k.x.iloc[0]
    en = nd.date.iloc[-1] if s.dated else nd.x.iloc[-1]
    d, x = ref_axis(st, en, fr, yrs, float(k.x.iloc[0]))
    o = r['data'].loc[~r['data'].is_actuals]
    c.ensure(list(o.date) == list(d), 'dates of the forecast: %s..%s, expected %s..%s', list(o.date)[:1], list(o.date)[-1:], d[:1], d[-1:])
    if k.x.nunique() < 4:   # hourly samples share one x per day
        raise Skip('the line is not determined')
    c.same(o.y.values, A * np.array(x) + B, 'continued line', 1e-4, 1e-4 * (1 + np.abs(line).max()))


@check('C12', 'x is the elapsed days from the first actual, on and off the grid', 250, t=2500)
def g(c):
    freq = c.pick(['D', 'M', 'MS', 'Q', 'Y', 'YS', 'H', 'M', 'MS'])
    start = start_date(c, c.flip(0.7))
    years = c.pick(0.3, 1.0, 2.0) if freq != 'H' else 0.01
    end = start + pd.Timedelta(c.int(0, 900 if freq != 'H' else 5), 'D')
    x0 = c.pick(0., 0, c.int(-5, 50), 2.5, 17.)
    c.show(freq=freq, start=start, end=end, years=years, x0=x0)
    s = c.call('get_s_x_extrapolate', mu.get_s_x_extrapolate, start, end, freq=freq, extrapolate_years=years, x_start_actuals=x0)
    c.exact(s.values, [x0 + (pd.Timestamp(t) - start).days for t in s.index], 'x along the axis')
    i = list(s.index)
    c.ensure(all(pd.Timestamp(next_point(a, freq)) == b for a, b in zip(i, i[1:])), 'steps of the axis')
