from common import *
from anticipy import forecast as fc, forecast_models as fm, model_utils as mu


def linear_fit(x, y, w):
    w = np.asarray(w, dtype=float)
    # several samples share one x: weight divided by their number
    cnt = pd.Series(x).map(pd.Series(x).value_counts()).values
    w = w / cnt
    X = np.column_stack([x, np.ones(len(x))])
    p = np.linalg.lstsq(X * w[:, None], y * w, rcond=None)[0]
    return p


def decide(df):
    """None: too close to the limit (or undefined); else True/False"""
    if (df.y <= 0).any() or 'date' not in df.columns:
        return False
    if df.date.max() - df.date.min() < pd.Timedelta('60D'):
        return False
    u = df.loc[df.y.notnull()]
    if 'weight' in df:
        u = u.loc[u.weight > 0]
    if len(u) < 4:
        return False
    p = linear_fit(u.x.values.astype(float), u.y.values, u.weight.values if 'weight' in u else np.ones(len(u)))
    res = p[0] * df.x.values + p[1] - df.y.values
    mm, vv = [], []
    for (yy, mo), i in df.groupby([df.date.dt.year, df.date.dt.month]).groups.items():
        yv, rv = df.y.loc[i].values, pd.Series(res, index=df.index).loc[i].values
        yv, rv = yv[~np.isnan(yv)], rv[~np.isnan(rv)]
        if len(yv) and len(rv) > 1:
            mm.append(yv.mean())
            vv.append(rv.var(ddof=1))
    if len(mm) < 2 or np.std(mm) < 1e-9 or np.std(vv) < 1e-9:
        return None if len(mm) >= 2 else False
    r = np.corrcoef(mm, vv)[0, 1]
    return None if abs(r - 0.8) < 0.03 else bool(r >= 0.8)


def series(c):
    k = c.int(0, 5)
    n = c.int(50, 420) if k else c.int(3, 80)
    d = pd.date_range(start_date(c), periods=n, freq=c.pick('D', 'D', 'D', '2D', 'W-MON'))
    t = np.arange(n)
    base = 100 + c.pick(0.3, 1.0, -0.1) * t
    base = np.maximum(base, 5)
    s = 0.2 * np.sin(2 * np.pi * t / c.pick(7., 5., 11.)) + c.rng.normal(0, 0.02, n)
    mult = c.flip()
    y = base * (1 + s) if mult else base + 20 * s
    y = np.maximum(y, 0.5)
    df = pd.DataFrame(dict(date=d, x=t.astype(float), y=y))
    if c.flip(0.15):
        df.loc[c.int(0, n - 1), 'y'] = c.pick(0., -1., 0.0)
    if c.flip(0.2):
        df['weight'] = np.where(c.rng.random(n) < 0.2, 0., 1.)
    if c.flip(0.15):
        df.loc[c.rng.random(n) < 0.2, 'y'] = np.nan
    return df


@check('C22', 'automatic composition', 60, t=800)
def a(c):
    df = series(c)
    if c.flip(0.1):
        df = df.drop(columns='date')
    c.show(df=df.head(80), n=len(df))
    e = decide(df)
    keep = df.copy(deep=True)
    r = c.call('is_multiplicative', mu.is_multiplicative, df)
    c.ensure(same_obj(keep, df), 'the table was modified')
    if e is None:
        raise Skip('close to the limit')
    c.ensure(bool(r) == e, 'is_multiplicative gives %r, expected %r', r, e)


@check('C22', 'limits of automatic composition', 200)
def l(c):
    """each condition alone at its limit, on a clearly multiplicative series"""
    n = c.pick(59, 60, 61, 62, 63, 90)
    t = np.arange(n)
    y = (10 + 5.0 * t) * (1 + 0.3 * np.sin(2 * np.pi * t / 7.)) + 1
    df = pd.DataFrame(dict(date=pd.date_range('2018-01-01', periods=n), x=t.astype(float), y=y))
    k = c.int(0, 4)
    if k == 1:
        df.loc[c.int(0, n - 1), 'y'] = c.pick(0.0, -1e-9, -5.)
    elif k == 2:
        m = c.pick(2, 3)
        keep = [0, n - 1] + ([n // 2] if m == 3 else [])
        df['y'] = df.y.where(df.index.isin(keep))
    elif k == 3:
        m = c.pick(2, 3)
        keep = [0, n - 1] + ([n // 2] if m == 3 else [])
        df['weight'] = df.index.isin(keep).astype(float)
    elif k == 4:
        df = df.drop(columns='date')
    c.show(n=n, kind=k, df=df.head(70))
    e = decide(df)
    r = c.call('is_multiplicative', mu.is_multiplicative, df)
    if e is None:
        raise Skip('close to the limit')
    c.ensure(bool(r) == e, 'is_multiplicative gives %r, expected %r (kind %d, %d samples)', r, e, k, n)


@check('C22', 'composition modes of a forecast', 30, t=400)
def f(c):
    n = c.int(70, 130)
    t = np.arange(n)
    mult = c.flip()
    base = 20 + 3.0 * t
    s = 0.3 * np.sin(2 * np.pi * t / 7.) + c.rng.normal(0, 0.02, n)
    y = base * (1 + s) if mult else base + 6 * s
    if c.flip(0.2):
        y[c.int(0, n - 1)] = -1.
    df = pd.DataFrame(dict(date=pd.date_range(start_date(c), periods=n), y=y))
    T, S = [fm.model_linear] + ([fm.model_constant] if c.flip() else []), [fm.model_season_wday] + ([fm.model_null] if c.flip() else [])
    mode = c.pick('add', 'mult', 'both', 'auto', 'auto')
    c.show(n=n, y=y, mode=mode, trend=T, season=S)
    r = c.call('run_forecast', fc.run_forecast, df, l_model_trend=T, l_model_season=S, l_model_naive=[fm.model_naive], season_add_mult=mode,
               extrapolate_years=0.05, simplify_output=False, include_all_fits=True)
    md = r['metadata']
    add = {q.name: 'add' for a_ in T for q in [a_ + s_ for s_ in S]}
    mul = {q.name: 'mult' for a_ in T for q in [a_ * s_ for s_ in S]}
    if mode == 'auto':
        e = decide(fc.normalize_df(df))
        if e is None:
            raise Skip('close to the limit')
        exp = mul if e else add
    elif mode == 'both':
        exp = dict(mul)
        exp.update(add)
    else:
        exp = add if mode == 'add' else mul
    names = [v for v in md.model if v != 'naive']
    c.ensure(sorted(names) == sorted(exp), 'mode %s: candidates %s, expected %s', mode, sorted(names), sorted(exp))
    for name, am in zip(md.model, md.add_mult):
        if name != 'naive':
            c.ensure(am == exp[name], 'mode %s: %s is recorded as %s', mode, name, am)
        elif mode in ('add', 'mult'):
            c.ensure(am == mode, 'naive recorded as %s', am)
