from scen import *


def fcast(c, src=None, dated=None, best=None):
    """a table of actuals and forecast rows, as the forecasting functions produce them"""
    n, past, h = c.int(3, 30), None, c.int(0, 30)
    dated = c.flip(0.75) if dated is None else dated
    freq = c.pick('D', 'D', 'W-MON', 'MS', 'H', 'YS') if dated else None
    t = list(pd.date_range('2017-01-02' if freq != 'YS' else '2001-01-01', periods=n + h, freq=freq)) if dated else list(range(n + h))
    fy = np.round(values(c, n + h), 3)
    res = c.pick(lambda: c.rng.normal(c.pick(0., 5.), 1, n), lambda: np.zeros(n), lambda: np.full(n, 2.5), lambda: c.rng.integers(-3, 4, n).astype(float))()
    ay = fy[:n] + res
    A = pd.DataFrame(dict(date=t[:n], y=ay, model='actuals', is_actuals=True, weight=1.0))
    if c.flip(0.3):
        A.loc[c.rng.random(n) < 0.2, 'y'] = np.nan
    if c.flip(0.4):
        A.loc[c.rng.random(n) < 0.25, 'weight'] = 0.
    skip = c.int(0, min(4, n - 1)) if c.flip(0.3) else 0
    F = pd.DataFrame(dict(date=t[skip:], y=fy[skip:], model='m', is_actuals=False, weight=1.0))
    df = pd.concat([A, F], ignore_index=True)
    if src is not None or c.flip(0.7):
        df['source'] = src if src is not None else 'src'
    else:
        df['source'] = 'one'
    if c.flip(0.3) if best is None else best:
        # other candidates are not covered
        G = F.assign(model='other', y=F.y + 3)
        df['is_best_fit'] = ~df.is_actuals
        G['source'] = df.source.iloc[0]
        G['is_best_fit'] = False
        df = pd.concat([df, G], ignore_index=True)
    return df, freq


def days(freq):
    return dict(D=1, H=1, MS=30, YS=365).get(freq, 7) if freq else 1


def residuals(df):
    A = df.loc[df.is_actuals & df.y.notnull() & (df.weight > 0)]
    sel = df.is_best_fit if 'is_best_fit' in df else ~df.is_actuals
    F = df.loc[~df.is_actuals & sel.astype(bool)].set_index('date').y
    return np.array([a - F[d] for d, a in zip(A.date, A.y) if d in F.index]), A


def judge(c, df, out, q1, q2, r=None):
    qs = ['q%d' % v for v in (q1, q2, 100 - q2, 100 - q1)]
    A = df.loc[df.is_actuals & df.y.notnull()]
    sel = df.is_best_fit.astype(bool) if 'is_best_fit' in df else ~df.is_actuals
    F = df.loc[~df.is_actuals & sel]
    oa, of = out.loc[out.is_actuals.astype(bool)], out.loc[~out.is_actuals.astype(bool)]
    key = lambda t: sorted(zip(map(str, t.date), map(str, t.source), t.model, t.y))
    c.ensure(key(oa) == key(A), 'actual rows: %d, expected %d', len(oa), len(A))
    c.ensure(key(of) == key(F), 'forecast rows: %d, expected %d', len(of), len(F))
    c.ensure(set(qs) <= set(out.columns), 'columns %s', list(out.columns))
    c.ensure(oa[qs].isnull().all().all(), 'actual rows have an interval')
    if len(of):
        c.ensure(of[qs].notnull().all().all(), 'forecast rows without interval')
        v = of[qs].values
        tol = 1e-9 * (1 + np.abs(v).max())
        if q1 <= q2 < 50:
            c.ensure((np.diff(v, axis=1) >= -tol).all(), 'limits are not nested: %s', v[(np.diff(v, axis=1) < -tol).any(axis=1)][:1])
    return of, qs


@check('C15', 'rows, nesting and zero width', 300, t=3500)
def a(c):
    df, freq = fcast(c)
    q1 = c.int(1, 45)
    q2 = c.int(q1 + 1, 49)
    wf = c.pick('Y', 'M', 'W', 'D', None)
    n_sims = c.pick(1, 2, 20, 100)
    c.show(df=df, q1=q1, q2=q2, widening=wf, n_sims=n_sims)
    keep = df.copy(deep=True)
    np.random.seed(c.int(0, 99))
    r, A = residuals(df)
    if len(r) == 0:
        raise Skip('no residuals')
    out = c.call('get_pi', fc.get_pi, df, n_sims=n_sims, pi_q1=q1, pi_q2=q2, widening_freq=wf)
    c.ensure(same_obj(keep, df), 'the table was modified')
    of, qs = judge(c, df, out, q1, q2)
    z = r - r.mean()
    last = A.date.max()
    w = of[qs].values - of.y.values[:, None]
    tol = 1e-9 * (1 + np.abs(df.y).max())
    lo, hi = z.min(), z.max()
    past = (of.date <= last).values
    c.ensure((w[past] >= lo - tol).all() and (w[past] <= hi + tol).all(), 'in-sample limits outside of the residuals %r..%r', lo, hi)
    fut = of.loc[~past].sort_values('date')
    step = {None: 1, 'D': 1, 'W': 7, 'M': 30, 'Y': 365}[wf]
    fr = mu.detect_freq(df) if freq else None
    n_cum = max(1, int(step / days(freq if fr is not None else None))) if freq else max(1, step)
    wf_ = fut[qs].values - fut.y.values[:, None]
    k = np.arange(len(fut)) // n_cum + 2
    c.ensure((wf_ >= (k * lo)[:, None] - tol * len(k)).all() and (wf_ <= (k * hi)[:, None] + tol * len(k)).all(),
             'future limits are outside of the accumulated residuals (widening every %d steps)', n_cum)
    if hi - lo < 1e-12:
        c.ensure((np.abs(w) <= tol).all(), 'interval of a forecast without residual error has width %r', np.abs(w).max())


@check('C15', 'percentiles of the residuals', 40, t=400)
def b(c):
    """limits agree with an independent simulation, within sampling error"""
    n, h = c.int(25, 60), c.int(3, 25)
    freq = c.pick('D', 'W-MON')
    t = pd.date_range('2018-01-01', periods=n + h, freq=freq)
    fy = np.round(values(c, n + h), 3)
    res = c.pick(lambda: c.rng.normal(3., 1, n), lambda: c.rng.exponential(2., n), lambda: c.rng.uniform(-1, 1, n))()
    A = pd.DataFrame(dict(date=t[:n], y=fy[:n] + res, model='actuals', is_actuals=True, weight=1.0))
    ign = c.rng.random(n) < c.pick(0., 0.2)
    ign[[0, 1, n - 1]] = False
    A.loc[ign, 'weight'] = 0.
    A.loc[ign, 'y'] += 500.
    F = pd.DataFrame(dict(date=t, y=fy, model='m', is_actuals=False, weight=1.0))
    df = pd.concat([A, F], ignore_index=True).assign(source='s')
    q1, q2 = c.pick((5, 20), (10, 30), (3, 40))
    wf = c.pick('D', 'W', 'M', 'Y')
    c.show(df=df, q1=q1, q2=q2, widening=wf)
    np.random.seed(c.int(0, 10 ** 6))
    out = c.call('get_pi', fc.get_pi, df, n_sims=6000, pi_q1=q1, pi_q2=q2, widening_freq=wf)
    of, qs = judge(c, df, out, q1, q2)
    z = res[~ign] - res[~ign].mean()
    fut = (of.date > t[n - 1]).values
    step = {'D': 1, 'W': 7, 'M': 30, 'Y': 365}[wf]
    n_cum = max(1, int(step / (1 if freq == 'D' else 7)))
    M = 12000
    base = c.rng.choice(z, (M, h))
    cum = np.cumsum(c.rng.choice(z, (M, int(np.ceil(h / n_cum)))), axis=1)
    sim = base + np.repeat(cum, n_cum, axis=1)[:, :h]
    past = c.rng.choice(z, (M, n))
    both = {True: sim, False: past}
    for q in (q1, q2, 100 - q2, 100 - q1):
        w = (of['q%d' % q] - of.y).values
        for f in (True, False):
            s = both[f]
            g = w[fut] if f else w[~fut]
            lo, hi = np.percentile(s, max(q - 6, 0), axis=0), np.percentile(s, min(q + 6, 100), axis=0)
            e = 1e-9 * (1 + np.abs(fy).max())
            bad = (g < lo - e) | (g > hi + e)
            c.ensure(not bad.any(), '%s limit %d at step %d is %r, percentiles %d to %d of the simulated errors are %r to %r', 'future' if f else 'past', q,
                     int(np.argmax(bad)), g[np.argmax(bad)], q - 6, q + 6, lo[np.argmax(bad)], hi[np.argmax(bad)])


@check('C15', 'several sources', 40, t=400)
def m(c):
    dated, best = c.flip(0.75), c.flip(0.3)
    parts = [fcast(c, s, dated, best)[0] for s in ('b', 'a', 'c')[:c.int(2, 3)]]
    df = pd.concat(parts, ignore_index=True)
    if any(len(residuals(p)[0]) == 0 for p in parts):
        raise Skip('no residuals')
    if c.flip() and 'is_best_fit' not in df:
        df = df.iloc[c.rng.permutation(len(df))].reset_index(drop=True)
    c.show(df=df)
    out = c.call('get_pi', fc.get_pi, df, n_sims=20, pi_q1=10, pi_q2=25)
    for p in parts:
        judge(c, p, out.loc[out.source == p.source.iloc[0]], 10, 25)
    c.ensure(set(out.source) == set(df.source), 'sources %s', set(out.source))


@check('C15', 'intervals of a forecast', 60, t=600)
def f(c):
    s = make(c, nmin=6, dup=False)
    k = args(c, s)
    q1, q2 = c.pick((5, 20), (1, 49), (10, 10), (20, 30))
    c.show(df=s.df, q=(q1, q2), **k)
    r = c.call('run_forecast', fc.run_forecast, s.df, simplify_output=False, include_all_fits=c.flip(), pi_q1=q1, pi_q2=q2, **k)
    data, out = r['data'], r['forecast']
    rr, _ = residuals(data)
    if len(rr) == 0:
        raise Skip('no residuals')
    judge(c, data, out, q1, q2)
