from common import *
from anticipy import forecast as fc, forecast_models as fm


def frame(c, daily=False):
    n = c.int(1, 25)
    gaps = np.ones(n, dtype=int) if daily or c.flip() else c.rng.integers(1, 4, n)
    x = np.cumsum(gaps) - gaps[0] + c.pick(0, 3, -5)
    y = np.round(values(c, n), 3) + np.arange(n) * 1e-3
    y = np.where(c.rng.random(n) < c.pick(0., 0.2, 0.5), np.nan, y)
    if c.flip(0.2):
        y[:c.int(1, min(10, n))] = np.nan
    d0 = start_date(c)
    df = pd.DataFrame(dict(x=x, y=y))
    df['date'] = d0 + pd.to_timedelta(x - x[0], unit='D')
    if c.flip(0.3):
        df['weight'] = np.where(np.isnan(y), 0., 1.)
    return df, d0


def naive_ref(x, y, q):
    last, out = None, []
    # leading gaps take the first available value that precedes some evaluated or actual sample
    end = max(max(x), max(q))
    first = next((v for a, v in zip(x, y) if v == v and a < end), np.nan)
    for s in q:
        prev = [v for a, v in zip(x, y) if a < s and v == v]
        out.append(prev[-1] if prev else first)
    return np.array(out, dtype=float)


def snaive_ref(x, y, d, qx, qd):
    out = []
    for s, e in zip(qx, qd):
        prev = [v for a, v, t in zip(x, y, d) if a < s and v == v and t.weekday() == e.weekday()]
        out.append(prev[-1] if prev else np.nan)
    return np.array(out, dtype=float)


def queries(c, df, d0):
    x = df.x.values
    hor = c.pick(0, 1, 5, 30)
    ext = np.arange(x[-1] + 1, x[-1] + 1 + hor)
    k = c.int(0, 2)
    if k == 0:
        q = np.concatenate([x, ext])
    elif k == 1:
        q = x[np.sort(c.rng.choice(len(x), c.int(1, len(x)), replace=False))]
        q = np.concatenate([q, ext]) if c.flip() else q
    else:
        q = ext if hor else x
    q = q.astype(float) if c.flip(0.3) else q
    return q, pd.DatetimeIndex(d0 + pd.to_timedelta(q - x[0], unit='D'))


def run(c, m, df, q, dq):
    keep = df.copy(deep=True)
    r = np.asarray(c.call(m.name, m, q, dq, [], df_actuals=df), dtype=float)
    c.ensure(same_obj(keep, df), 'the actuals were modified')
    return r


@check('C21', 'naive model', 500)
def a(c):
    df, d0 = frame(c)
    if c.flip(0.2):
        df = df.drop(columns='date')
    q, dq = queries(c, df, d0)
    c.show(df=df, query=q)
    r = run(c, fm.model_naive, df, q, dq if 'date' in df else None) if 'date' in df else \
        run(c, fm.model_naive, df.assign(date=d0), q, d0) if False else run(c, fm.model_naive, df, q, dq)
    c.ensure(r.shape == (len(q),), '%d values for %d samples', r.size, len(q))
    c.exact(r, naive_ref(df.x.values, df.y.values, q), 'naive prediction')


@check('C21', 'seasonal naive model', 500)
def b(c):
    df, d0 = frame(c)
    q, dq = queries(c, df, d0)
    c.show(df=df, query=q)
    r = run(c, fm.model_snaive_wday, df, q, dq)
    c.ensure(r.shape == (len(q),), '%d values for %d samples', r.size, len(q))
    c.exact(r, snaive_ref(df.x.values, df.y.values, list(df.date), q, list(dq)), 'seasonal naive prediction')


@check('C21', 'changing a value changes nothing at or before it', 300)
def cau(c):
    df, d0 = frame(c, c.flip())
    q, dq = queries(c, df, d0)
    i = c.int(0, len(df) - 1)
    df2 = df.copy()
    df2.loc[df2.index[i], 'y'] = c.pick(np.nan, 1e6, -1e6)
    c.show(df=df, query=q, changed=i, to=df2.y.iloc[i])
    for m in (fm.model_naive, fm.model_snaive_wday):
        r, r2 = run(c, m, df, q, dq), run(c, m, df2, q, dq)
        upto = q <= df.x.values[i]
        if m is fm.model_naive:
            first = df.x.values[~np.isnan(df.y.values)]
            first2 = df2.x.values[~np.isnan(df2.y.values)]
            lead = max(first[0] if len(first) else np.inf, first2[0] if len(first2) else np.inf)
            upto = upto & (q > lead)
        c.exact(r[upto], r2[upto], '%s: predictions at or before the changed sample' % m.name)


@check('C21', 'several samples per x and unusual order of actuals', 150)
def dup(c):
    df, d0 = frame(c)
    k = c.int(0, len(df) - 1)
    df = df.loc[sorted(list(range(len(df))) + [k])].reset_index(drop=True)
    q, dq = queries(c, df.drop_duplicates('x'), d0)
    q, dq = q, dq
    c.show(df=df, query=q)
    for m, f in ((fm.model_naive, lambda: naive_ref(*[v.values for v in (df.drop_duplicates('x').x, df.drop_duplicates('x').y)], q)),
                 (fm.model_snaive_wday, lambda: snaive_ref(df.drop_duplicates('x').x.values, df.drop_duplicates('x').y.values,
                                                           list(df.drop_duplicates('x').date), q, list(dq)))):
        r = run(c, m, df, q, dq)
        c.ensure(r.shape == (len(q),), '%s: %d values for %d samples', m.name, r.size, len(q))
        c.exact(r, f(), m.name + ' with repeated x')


@check('C21', 'naive models in a forecast skip ignored samples', 60, t=600)
def f(c):
    n = c.int(9, 40)
    d = pd.date_range(start_date(c), periods=n, freq='D')
    y = np.round(values(c, n), 2) + np.arange(n) * 0.01
    w = np.where(c.rng.random(n) < c.pick(0., 0.3), 0., 1.)
    y = np.where(c.rng.random(n) < c.pick(0., 0.2), np.nan, y)
    drop = c.rng.random(n) < c.pick(0., 0.2)
    drop[0] = drop[1] = False
    w[0] = 1
    y[0] = 1.5
    df = pd.DataFrame(dict(date=d, y=y, weight=w)).loc[~drop].reset_index(drop=True)
    m = c.pick(fm.model_naive, fm.model_snaive_wday)
    c.show(df=df, model=m.name)
    use = df.loc[(df.weight > 0) & df.y.notnull()]
    if len(use) < 3 or (use.date.diff().min() != pd.Timedelta('1D')):
        raise Skip('')
    r = c.call('run_forecast', fc.run_forecast, df, l_model_trend=[fm.model_constant], l_model_season=[fm.model_null], l_model_naive=[m],
               extrapolate_years=c.pick(0.02, 0.1), simplify_output=False, include_all_fits=True)
    out = r['data'].loc[r['data'].model == m.name].sort_values('date')
    meta = r['metadata'].loc[r['metadata'].model == m.name]
    c.ensure(len(meta) == 1 and bool(meta.is_fit.iloc[0]), '%s not fitted', m.name)
    qd = list(pd.DatetimeIndex(out.date))
    ux, uy, ud = [t.value for t in use.date], list(use.y), list(use.date)
    e = naive_ref(ux, uy, [t.value for t in qd]) if m is fm.model_naive else snaive_ref(ux, uy, ud, [t.value for t in qd], qd)
    if m is fm.model_naive:
        c.exact(out.y, e, 'naive forecast')
    else:
        c.ensure(not np.isnan(e).any(), 'a prediction without earlier value of the weekday is reported')
        c.exact(out.y, e, 'seasonal naive forecast')
        full = pd.date_range(use.date.min(), df.date.max())
        ef = snaive_ref(ux, uy, ud, [t.value for t in full], list(full))
        miss = [t for t, v in zip(full, ef) if v == v and t not in set(qd)]
        c.ensure(not miss, 'predictions missing for %s', miss[:3])
