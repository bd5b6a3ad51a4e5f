from common import *
from anticipy import forecast_models as fm


def series(c, n):
    k = c.int(0, 6)
    y = c.rng.normal(0, c.pick(0.01, 1.), n)
    if k == 0:
        pass
    elif k == 1:
        y[c.int(0, n - 1)] += c.pick(-1, 1) * c.pick(5., 50.)
    elif k == 2:
        y[c.int(0, n - 1):] += c.pick(-1, 1) * c.pick(5., 50.)
    elif k == 3:
        i = c.int(0, n - 1)
        y[i:i + c.int(1, 4)] += c.pick(-1, 1) * c.pick(5., 50.)
        y[c.int(0, n - 1):] += c.pick(-20, 20)
    elif k == 4:
        y = values(c, n)
    elif k == 5:
        y = np.full(n, c.real())
        if c.flip():
            y[c.int(0, n - 1)] += c.pick(1., -30.)
    else:
        y = c.real(-2, 2) * np.arange(n)
        if c.flip():
            y[c.int(0, n - 1)] += 30
    if c.flip(0.2):
        y = np.round(y)
    if c.flip(0.15):
        y = np.where(c.rng.random(n) < 0.15, np.nan, y)
    return y


def table(c, n):
    y = series(c, n)
    dated = c.flip()
    df = pd.DataFrame(dict(y=y))
    k = c.int(0, 2)
    step = np.cumsum(np.ones(n, dtype=int) if k == 0 else c.rng.integers(1, 5, n))
    if dated:
        df['date'] = start_date(c) + pd.to_timedelta(step, unit='D')
        if c.flip():
            df['x'] = step
    else:
        df['x'] = step + c.int(-5, 20)
        if c.flip(0.25):
            df['x'] = df['x'] * c.pick(1.0, 0.5)
    if c.flip(0.3):
        df['weight'] = 1.0
    return df, dated


def thresholds(y):
    d = np.diff(y)
    d = d[~np.isnan(d)]
    if not len(d):
        return None, None, None
    q1, q3 = np.percentile(d, 25), np.percentile(d, 75)
    return np.concatenate([[np.nan], np.diff(y)]), q1 - 1.5 * (q3 - q1), q3 + 1.5 * (q3 - q1)


@check('C19', 'series of every kind', 600)
def a(c):
    n = c.int(1, 40)
    df, dated = table(c, n)
    if not dated and (df.x != df.x.astype(int)).any():
        pass
    c.show(df=df)
    before = df.copy(deep=True)
    step, spike = c.call('get_model_outliers', fm.get_model_outliers, df)
    c.ensure(same_obj(before, df), 'the table was modified')
    step, spike = np.asarray(step).astype(bool), np.asarray(spike).astype(bool)
    c.ensure(step.shape == (n,) and spike.shape == (n,), 'masks of shape %s %s for %d samples', step.shape, spike.shape, n)
    dif, lo, hi = thresholds(df.y.values)
    if dif is None:
        c.ensure(not step.any() and not spike.any(), 'flags in a series without changes')
        return
    near = np.nanmin(np.minimum(np.abs(dif - lo), np.abs(dif - hi)))
    scale = max(1e-12, float(np.nanmax(np.abs(df.y.values))))
    tol = 1e-9 * scale
    big = (dif < lo) | (dif > hi)
    big_loose = (dif < lo + tol) | (dif > hi - tol)
    flagged = step | spike
    if not big_loose.any():
        c.ensure(not flagged.any(), 'flags %s although no change is outside the thresholds', np.nonzero(flagged)[0])
    for i in np.nonzero(flagged)[0]:
        before_ = np.nonzero(big_loose[:i + 1])[0]
        after_ = np.nonzero(big_loose[i:])[0]
        c.ensure(len(before_) and len(after_), 'sample %d is flagged but no large change delimits it', i)
    if near > tol * 10:
        # independent of the level; the quarter steps keep the sums exact enough
        s = float(c.int(-100, 100))
        df2 = df.copy()
        df2['y'] = df2.y + s
        st2, sp2 = c.call('get_model_outliers', fm.get_model_outliers, df2)
        df3 = df.copy()
        c.ensure((np.asarray(st2).astype(bool) == step).all(), 'the step mask changes when %r is added', s)
        c.ensure((np.asarray(sp2).astype(bool) == spike).all(), 'the spike mask changes when %r is added', s)
    st3, sp3 = fm.get_model_outliers(df)
    c.ensure((np.asarray(st3).astype(bool) == step).all() and (np.asarray(sp3).astype(bool) == spike).all(), 'repeated call differs')


@check('C19', 'repeated dates or x are refused', 120)
def b(c):
    n = c.int(2, 20)
    df, dated = table(c, n)
    col = 'date' if dated else 'x'
    i = c.int(1, n - 1)
    v = df[col].tolist()
    v[i] = v[c.int(0, i - 1)]
    df[col] = v
    c.show(df=df)
    c.raises(ValueError, 'repeated samples', fm.get_model_outliers, df)


@check('C19', 'an isolated spike and an isolated step', 150)
def s(c):
    n = c.int(20, 60)
    i = c.int(3, n - 5)
    w = c.int(1, 2)
    y = c.rng.normal(0, 0.05, n)
    kind = c.pick('spike', 'step')
    J = c.pick(-1, 1) * c.real(20, 90)
    if kind == 'spike':
        y[i:i + w] += J
    else:
        y[i:] += J
    df = pd.DataFrame(dict(y=y, x=np.arange(n)))
    if c.flip():
        df['date'] = pd.date_range('2018-01-01', periods=n)
    c.show(df=df, kind=kind, at=i, width=w)
    step, spike = c.call('get_model_outliers', fm.get_model_outliers, df)
    dif, lo, hi = thresholds(y)
    noise = ((dif < lo) | (dif > hi))
    noise[[i, i + w] if kind == 'spike' else [i]] = False
    if noise.any():
        raise Skip('noise counts as a change')
    if kind == 'spike':
        e = np.zeros(n, bool)
        e[i:i + w] = True
        c.ensure((np.asarray(spike).astype(bool) == e).all(), 'spike mask %s, expected %s', np.nonzero(spike)[0], np.nonzero(e)[0])
    else:
        c.ensure(not np.asarray(spike).any(), 'a step is flagged as spike: %s', np.nonzero(spike)[0])
        c.ensure(list(np.nonzero(step)[0]) == [i], 'step mask %s, expected [%d]', np.nonzero(step)[0], i)


@check('C19', 'spikes are ignored for fitting and still reported', 12)
def f(c):
    from anticipy import forecast as fc
    n = c.int(40, 70)
    i = c.int(5, n - 6)
    y = 0.5 * np.arange(n) + c.rng.normal(0, 0.05, n)
    y[i] += c.pick(-1, 1) * c.real(30, 90)
    df = pd.DataFrame(dict(y=y, x=np.arange(n)))
    if c.flip():
        df['date'] = pd.date_range('2018-01-01', periods=n)
    if c.flip():
        df['weight'] = 1.0
    step, spike = fm.get_model_outliers(df)
    spike = np.asarray(spike).astype(bool)
    c.show(df=df, at=i)
    np.random.seed(3)
    r = c.call('run_forecast', fc.run_forecast, df, l_model_trend=[fm.model_linear], l_model_season=[fm.model_null], l_model_naive=[],
               find_outliers=True, extrapolate_years=0.1, simplify_output=False, include_all_fits=True)
    act = r['data'].loc[r['data'].is_actuals].sort_values('date').reset_index(drop=True)
    c.exact(act.y, y, 'values of the actuals')
    c.ensure((act.weight.values[spike] == 0).all() and (act.weight.values[~spike] == 1).all(), 'weights of the actuals')
    w = np.where(spike, 0., 1.)
    X = np.column_stack([np.arange(n), np.ones(n)])[~spike]
    p = np.linalg.lstsq(X, y[~spike], rcond=None)[0]
    m = r['metadata'].loc[r['metadata'].model == 'linear'].iloc[0]
    c.same(m.params, p, 'fitted without the spikes', 1e-3, 1e-3)
