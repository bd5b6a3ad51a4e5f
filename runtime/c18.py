from scen import *
import ref


def model_state(m):
    x = np.arange(0, 12).astype(float)
    d = pd.date_range('2018-01-01', periods=12)
    out = [m.name, m.n_params, [id(f) for f in m.l_f_validate_input], list(m.l_cache_vars), sorted(map(str, m.dict_f_cache)), id(m.f_model), id(m.f_init_params), id(m.f_bounds)]
    if m.name not in ('naive', 'snaive_wday', 'spike'):
        with np.errstate(all='ignore'):
            out.append(np.asarray(m(x, d, list(np.linspace(0.5, 1.5, m.n_params))), dtype=float).tolist())
        out.append(repr(m.f_bounds(x, x + 1., d)))
    return out


PRE = {k: v for k, v in vars(fm).items() if isinstance(v, fm.ForecastModel)}


def predefined():
    return {k: repr(model_state(v)) for k, v in sorted(PRE.items())}


BASE = predefined()


def watch(c, objs, f, what):
    """call f, then compare the objects with copies taken before"""
    keep = snap(*objs)
    idx = [(o.index.copy(deep=True), getattr(o.index, 'name', None)) if isinstance(o, (pd.DataFrame, pd.Series)) else None for o in objs]
    r = c.call(what, f)
    for o, k, i in zip(objs, keep, idx):
        if isinstance(o, (pd.DataFrame, pd.Series)):
            c.ensure(same_obj(o, k), '%s modified its table:\n%s\nwas\n%s', what, brief(o, 600), brief(k, 600))
            c.ensure(o.index.equals(i[0]) and o.index.name == i[1], '%s modified the index of its table', what)
        elif isinstance(o, list):
            c.ensure(len(o) == len(k) and all(a.name == b.name for a, b in zip(o, k)) if o and isinstance(o[0], fm.ForecastModel) else same_obj(o, k), '%s modified its list: %s, was %s', what, o, k)
        else:
            c.ensure(same_obj(o, k), '%s modified its argument: %s, was %s', what, brief(o, 300), brief(k, 300))
    return r


def state(c, what):
    now = predefined()
    d = [k for k in BASE if now[k] != BASE[k]]
    c.ensure(not d, '%s altered predefined models %s', what, d)


def equal_out(c, a, b, what):
    if isinstance(a, dict):
        for k in a:
            equal_out(c, a[k], b[k], what + '.' + k)
        return
    if isinstance(a, pd.DataFrame):
        c.ensure(list(a.columns) == list(b.columns) and len(a) == len(b), 'repeating %s gives another table', what)
        for k in a.columns:
            if k in ('fit_time', 'model_obj') or (what.endswith('optimize_info') and k == 'model'):
                continue
            for u, v in zip(a[k], b[k]):
                if isinstance(u, (np.ndarray, list)) or isinstance(v, (np.ndarray, list)):
                    ok = same_obj(np.asarray(u), np.asarray(v))
                else:
                    ok = u == v or (is_na(u) and is_na(v))
                c.ensure(ok, 'repeating %s gives another %s: %r, was %r', what, k, v, u)
    elif isinstance(a, tuple):
        for u, v in zip(a, b):
            equal_out(c, u, v, what)
    elif isinstance(a, pd.Series):
        c.ensure(same_obj(a, b), 'repeating %s gives another series', what)
    elif a is None or b is None:
        c.ensure(a is b, 'repeating %s gives another result', what)
    else:
        c.ensure(same_obj(np.asarray(a), np.asarray(b)), 'repeating %s gives another result', what)


def unusual(c, df):
    """index, order and types a caller may have"""
    k = c.int(0, 5)
    if k == 1:
        df = df.iloc[c.rng.permutation(len(df))]
    elif k == 2:
        df.index = df.index + 7
    elif k == 3:
        df.index = ['r%d' % (i % 5) for i in range(len(df))]
    elif k == 4 and 'date' in df.columns:
        df = df.set_index('date', drop=c.flip())
        df.index.name = None
    elif k == 5:
        df['note'] = 'n'
    return df


@check('C18', 'forecasting', 60, t=800)
def a(c):
    s = make(c, nmin=3, dup=False)
    df = s.df
    if c.flip(0.3):
        df['source'] = c.pick('a', 'b')
    k = args(c, s)
    df = unusual(c, df)
    if 'x' in df.columns and c.flip(0.3):
        df = df.rename(columns=dict(x='t'))
        k['col_name_x'] = 't'
    if c.flip(0.3):
        k['find_outliers'] = True
    c.show(df=df, **k)
    lists = [k[v] for v in ('l_model_trend', 'l_model_season', 'l_model_naive') if k.get(v)]
    if c.flip(0.2) and s.dated:
        k['l_model_calendar'] = [fm.model_calendar_uk]
        lists.append(k['l_model_calendar'])
    f = lambda: (np.random.seed(3), fc.run_forecast(df, simplify_output=False, include_all_fits=True, **k))[1]
    r = watch(c, [df] + lists, f, 'run_forecast')
    state(c, 'run_forecast')
    equal_out(c, r, c.call('run_forecast', f), 'run_forecast')
    if c.flip(0.5):
        nd = r['data']
        g = lambda: (np.random.seed(3), fc.get_pi(nd, n_sims=10))[1]
        if set(nd.source) != set() and nd.date.notnull().all():
            o = watch(c, [nd], g, 'get_pi')
            equal_out(c, o, c.call('get_pi', g), 'get_pi')


@check('C18', 'several sources, intervals', 25, t=300)
def b(c):
    import c17
    df, names = c17.sources(c, 3)
    T = [fm.model_linear]
    c.show(df=df)
    f = lambda: (np.random.seed(3), fc.run_forecast(df, simplify_output=False, include_all_fits=c.flip(0), l_model_trend=T, l_model_season=[fm.model_null], extrapolate_years=.1))[1]
    r = watch(c, [df, T], f, 'run_forecast')
    equal_out(c, r, c.call('run_forecast', f), 'run_forecast')
    d = r['data']
    g = lambda: (np.random.seed(3), fc.get_pi(d, n_sims=10))[1]
    try:
        ok = d.loc[~d.is_actuals].source.nunique() == d.source.nunique()
    except Exception:
        ok = False
    if ok:
        o = watch(c, [d], g, 'get_pi')
        equal_out(c, o, c.call('get_pi', g), 'get_pi')


@check('C18', 'normalising', 200)
def n(c):
    s = make(c)
    df = unusual(c, s.df)
    if c.flip(0.3):
        df['source'] = [c.pick('a', 'b') for _ in range(len(df))]
    if c.flip(0.3) and 'date' in df:
        df['date'] = df.date.astype(str)
    if c.flip(0.2) and len(df) and df.y.notnull().all():
        df['y'] = df.y.astype(int)
    k = {}
    if c.flip(0.3):
        df = df.rename(columns=dict(y='val'))
        k['col_name_y'] = 'val'
    obj = df
    if c.flip(0.1):
        obj = df[k.get('col_name_y', 'y')]
    c.show(df=obj, **k)
    f = lambda: fc.normalize_df(obj, **k)
    r = watch(c, [obj], f, 'normalize_df')
    equal_out(c, r, c.call('normalize_df', f), 'normalize_df')


@check('C18', 'fitting and extrapolating', 120, t=1500)
def e(c):
    import c09
    df = c09.table(c)
    if c.flip(0.3):
        df.loc[c.rng.random(len(df)) < 0.2, 'y'] = np.nan
    if c.flip(0.3):
        df['weight'] = df.get('weight', 1.0)
        df.loc[c.rng.random(len(df)) < 0.2, 'weight'] = c.pick(0., np.nan)
    mods = [fm.model_constant, fm.model_linear, fm.model_linear_nondec, fm.model_ramp, fm.model_step, fm.model_linear + fm.model_step, fm.model_two_steps, fm.model_naive]
    if 'date' in df:
        mods += [fm.model_linear + fm.model_season_wday, fm.model_linear * fm.model_season_wday_2, fm.model_season_month]
    m = c.pick(mods)
    cache = c.flip()
    act = df.sort_values('x').reset_index(drop=True)
    c.show(df=df, model=m, cache=cache)
    f = lambda: (np.random.seed(3), fc.fit_model(m, df, 'D', 'src', df_actuals=act, use_cache=cache))[1]
    r = watch(c, [df, act], f, 'fit_model')
    state(c, 'fit_model')
    equal_out(c, r, c.call('fit_model', f), 'fit_model')
    md = r['metadata'].iloc[0]
    if md.status == 'FIT':
        p = np.array(md.params, dtype=float)
        a, b = (act.date.min(), act.date.max()) if 'date' in act else (act.x.min(), act.x.max())
        g = lambda: fc.extrapolate_model(md.model_obj, p, a, b, **(dict(freq='D') if 'date' in act else {}), extrapolate_years=0.1, df_actuals=act, x_start_actuals=float(act.x.min()))
        o = watch(c, [act, p], g, 'extrapolate_model')
        equal_out(c, o, c.call('extrapolate_model', g), 'extrapolate_model')


@check('C18', 'evaluating, initial guess, bounds, validation', 300)
def v(c):
    x, d = ref.samples(c)
    r = ref.tree(c, d, [ref.PLAIN, ref.NULL, ref.DATED, ref.DUMMY, ref.MULTI], c.int(1, 3))
    x = np.sort(x)
    y = values(c, len(x))
    p = np.array(r.params(c, x, d))
    m = r.model
    c.show(model=r.tag, x=x, d=d, y=y, p=p)
    dd = pd.DatetimeIndex(d)
    mult = c.flip()
    cache = c.call('init_cache', m.init_cache, x, dd)
    csnap = snap(cache)[0]
    f = lambda: m(x, dd, p, is_mult=mult, **cache)
    with np.errstate(all='ignore'):
        o = watch(c, [x, dd, p, y], f, 'evaluating ' + r.tag)
        equal_out(c, o, m(x, dd, p, is_mult=mult, **cache), 'evaluating ' + r.tag)
    c.ensure(set(cache) == set(csnap) and all(same_obj(np.asarray(cache[k]), np.asarray(csnap[k])) for k in cache), 'evaluating %s modified the cache', r.tag)
    watch(c, [x, dd, y], lambda: m.f_bounds(x, y, dd), 'bounds of ' + r.tag) if len(x) > 4 else None
    if len(x) > 4:
        watch(c, [x, dd, y], lambda: m.f_init_params(x, y, dd), 'initial guess of ' + r.tag)
        watch(c, [x, dd, y], lambda: m.validate_input(x, y, dd), 'validation of ' + r.tag)
    state(c, 'using ' + r.tag)


@check('C18', 'gap filling, outliers, detection, candidates', 200)
def g(c):
    s = make(c, dup=False, nmin=4)
    df = fc.normalize_df(s.df)
    if c.flip(0.3):
        df = df.iloc[c.rng.permutation(len(df))]
    c.show(df=df)
    k = dict(include_mask=c.flip(), interpolate_y=c.flip())
    srt = df.sort_values('x').reset_index(drop=True) if c.flip() else df
    if s.freq != 'H':
        f = lambda: mu.interpolate_df(srt, **k)
        r = watch(c, [srt], f, 'interpolate_df')
        equal_out(c, r, c.call('interpolate_df', f), 'interpolate_df')
        r = watch(c, [srt], lambda: fm.get_model_outliers(srt), 'get_model_outliers')
        c.ensure(list(srt.columns) == list(df.columns), 'columns added')
    if s.dated:
        watch(c, [df], lambda: mu.detect_freq(df), 'detect_freq')
        dt = df.date
        watch(c, [dt], lambda: mu.detect_freq(dt), 'detect_freq')
        watch(c, [dt], lambda: fm.get_l_model_auto_season(dt), 'get_l_model_auto_season')
    T, S = models(c)
    watch(c, [T, S], lambda: fc.get_list_model(T, S, c.pick('add', 'mult', 'both')), 'get_list_model')
    if len(df) > 8 and s.freq != 'H':
        u = df.sort_values('x').reset_index(drop=True)
        watch(c, [u], lambda: mu.is_multiplicative(u), 'is_multiplicative')
    state(c, 'utilities')


@check('C18', 'plotting', 12, t=100)
def p(c):
    import tempfile, shutil
    from anticipy import forecast_plot as fp
    import c15
    n = c.int(1, 3)
    parts = [c15.fcast(c, 's%d' % i)[0] for i in range(n)]
    if len(set(pd.api.types.is_datetime64_any_dtype(q.date) for q in parts)) > 1:
        raise Skip('mixed')
    df = pd.concat(parts, ignore_index=True)
    if c.flip():
        df['q5'], df['q20'], df['q80'], df['q95'] = df.y - 2, df.y - 1, df.y + 1, df.y + 2
    t = tempfile.mkdtemp(prefix='vplot')
    try:
        out = c.pick('png', 'html')
        c.show(df=df, output=out)
        watch(c, [df], lambda: fp.plot_forecast(df, out, t + '/p', 600, 400, include_interval=True), 'plot_forecast')
    finally:
        shutil.rmtree(t, ignore_errors=True)
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')
