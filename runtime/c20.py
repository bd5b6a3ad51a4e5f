from common import *
import itertools
from anticipy import forecast as fc, forecast_models as fm

DAY = pd.Timedelta(1, 'D')


def span_gap(dates):
    s = sorted(set(pd.Timestamp(v) for v in dates))
    if len(s) < 2:
        return None, None
    return s[-1] - s[0], min(b - a for a, b in zip(s, s[1:]))


def elig_dates(c):
    """dates whose span and smallest gap sit around the documented limits"""
    t0 = start_date(c, c.flip())
    span = c.pick(10.5, 10.5, 365, 547.5, 547.5, 730, 730, 1000, c.int(1, 1500)) * DAY + c.pick(-1, 0, 0, 1) * c.pick(DAY, pd.Timedelta(1, 's'), pd.Timedelta(1, 'H'))
    gap = c.pick(DAY, DAY, DAY, DAY + pd.Timedelta(1, 's'), DAY / 2, 2 * DAY, 7 * DAY, 92 * DAY, 92 * DAY + pd.Timedelta(1, 's'), 93 * DAY, 30 * DAY)
    gap = min(gap, span)
    n = c.int(0, 6)
    l = [t0, t0 + gap]
    pos = t0 + gap
    for _ in range(n):
        pos = pos + gap * c.pick(1, 2, 3)
        if t0 + span - pos >= gap:
            l.append(pos)
    if t0 + span - l[-1] >= gap:
        l.append(t0 + span)
    if c.flip(0.1):
        l = l[:1]
    if c.flip(0.4):
        l = l + [c.pick(l) for _ in range(3)]
    if c.flip(0.4):
        l = [l[i] for i in c.rng.permutation(len(l))]
    return l


SEAS = lambda: [fm.model_season_wday, fm.model_season_wday_2, fm.model_season_fourier_yearly, fm.model_season_month, fm.model_null]


def auto_names(dates, mode, yearly, weekly):
    span, gap = span_gap(dates)
    if span is None:
        return ['null']
    use_y = span > 547.5 * DAY and gap <= 92 * DAY
    use_w = span > 10.5 * DAY and gap <= DAY
    w = ([m.name for m in weekly] if weekly else ['null']) if weekly is not None else ['season_wday', 'null']
    y = ([m.name for m in yearly] if yearly else ['null']) if yearly is not None else ['season_fourier_yearly', 'null']
    if not use_w:
        w = ['null']
    if not use_y:
        y = ['null']
    out = {'null'}
    for a, b in itertools.product(w, y):
        if a == 'null':
            out.add(b)
        elif b == 'null':
            out.add(a)
        else:
            out.add('(%s%s%s)' % (a, '+' if mode == 'add' else '*', b))
    return sorted(out)


@check('C20', 'automatic seasonality', 800)
def a(c):
    d = elig_dates(c)
    mode = c.pick('add', 'mult')
    yearly = c.pick(None, None, [], [fm.model_season_fourier_yearly], [fm.model_season_month, fm.model_null])
    weekly = c.pick(None, None, [], [fm.model_season_wday], [fm.model_season_wday_2, fm.model_season_wday, fm.model_null])
    form = c.pick(pd.DatetimeIndex, lambda v: pd.Series(pd.DatetimeIndex(v)), lambda v: pd.Series(pd.DatetimeIndex(v), index=np.arange(len(v))[::-1]))
    c.show(dates=[str(v) for v in d], mode=mode, yearly=yearly, weekly=weekly)
    keep = [list(yearly) if yearly is not None else None, list(weekly) if weekly is not None else None]
    r = c.call('get_l_model_auto_season', fm.get_l_model_auto_season, form(d), season_add_mult=mode, l_season_yearly=yearly, l_season_weekly=weekly)
    names = [m.name for m in r]
    e = auto_names(d, mode, yearly, weekly)
    c.ensure(len(set(names)) == len(names), 'duplicates in %s', names)
    c.ensure(sorted(names) == e, 'candidates %s, expected %s', sorted(names), e)
    c.ensure([yearly, weekly] == keep, 'the season lists were modified')


@check('C20', 'combinations of trends and seasons', 400)
def b(c):
    T = [fm.model_linear, fm.model_constant, fm.model_linear + fm.model_ramp, fm.model_exp, fm.model_null, fm.model_step]
    S = SEAS() + [fm.model_season_wday + fm.model_season_month]
    t = [c.pick(T) for _ in range(c.int(0, 4))]
    s = [c.pick(S) for _ in range(c.int(0, 4))]
    if c.flip(0.1):
        t = None
    if c.flip(0.1):
        s = None
    if not t and not s:
        raise Skip('no models')
    mode = c.pick('add', 'mult', 'both')
    c.show(trend=t, season=s, mode=mode)
    k1, k2 = (list(t) if t is not None else None), (list(s) if s is not None else None)
    r = c.call('get_list_model', fc.get_list_model, t, s, mode)
    c.ensure(t == k1 and s == k2, 'the lists of models were modified')
    names = [m.name for m in r]

    def comb(a_, b_, op):
        if a_.name == 'null':
            return b_.name, b_.n_params
        if b_.name == 'null':
            return a_.name, a_.n_params
        return '(%s%s%s)' % (a_.name, op, b_.name), a_.n_params + b_.n_params
    exp = {}
    if not s:
        exp = {m.name: m.n_params for m in t}
    elif not t:
        exp = {m.name: m.n_params for m in s}
    else:
        for op in (['+'] if mode == 'add' else ['*'] if mode == 'mult' else ['+', '*']):
            for a_, b_ in itertools.product(t, s):
                q, k = comb(a_, b_, op)
                exp[q] = k
    c.ensure(len(set(names)) == len(names), 'duplicates in %s', names)
    c.ensure(sorted(names) == sorted(exp), 'candidates %s, expected %s', sorted(names), sorted(exp))
    for m in r:
        c.ensure(m.n_params == exp[m.name], 'parameters of %s', m.name)


def fitted_names(c, df, **kw):
    """the candidates a forecast really fits"""
    r = c.call('run_forecast', fc.run_forecast, df, simplify_output=False, include_all_fits=True, **kw)
    return list(r['metadata'].model), r


@check('C20', 'candidates fitted by a forecast', 40, t=600)
def f(c):
    span = c.pick(9, 10, 11, 12, 364, 365, 366, 367, 546, 547, 548, 549, 729, 730, 731, 732, 900)
    step = c.pick(1, 1, 1, 2, 7, 30, 92, 93)
    d = [pd.Timestamp('2014-01-06') + pd.Timedelta(v, unit='D') for v in range(0, span + 1, step)]
    if d[-1] != pd.Timestamp('2014-01-06') + pd.Timedelta(span, unit='D'):
        d[-1] = pd.Timestamp('2014-01-06') + pd.Timedelta(span, unit='D')
    if len(d) < 3:
        raise Skip('')
    if step == 1 and c.flip():     # keep only few samples
        k = sorted(set([0, 1, len(d) - 1] + [int(v) for v in c.rng.integers(0, len(d), 20)]))
        d = [d[i] for i in k]
    n = len(d)
    df = pd.DataFrame(dict(date=d, y=c.rng.normal(10, 1, n)))
    w = None
    if c.flip(0.5):
        w = np.ones(n)
        if c.flip():
            w[-c.int(1, min(3, n - 1)):] = 0
        else:
            w[:c.int(1, min(3, n - 1))] = 0
        if w.sum() < 2:
            raise Skip('')
        df['weight'] = w
    cal = c.pick(None, [fm.model_calendar_uk], [fm.model_calendar_uk, fm.model_null])
    mode = c.pick('add', 'mult', 'both')
    c.show(span=span, step=step, dates=[str(v)[:10] for v in d] if n < 60 else n, weight=w, calendar=cal, mode=mode)
    # a cheap fit is enough: the candidates are what matters
    used = [v for i, v in enumerate(d) if w is None or w[i] > 0]
    sp, gap = span_gap(used)
    trends = ['linear'] + (['(linear+ramp)'] if sp > 730 * DAY else [])

    def combos(op):
        s = auto_names(used, 'add' if op == '+' else 'mult', None, None)
        o = [t if q == 'null' else '(%s%s%s)' % (t, op, q) for t in trends for q in s]
        if cal is not None and sp > 365 * DAY and gap <= DAY:
            o = [t if m.name == 'null' else '(%s%s%s)' % (t, op, m.name) for t in o for m in cal]
        return o
    exp = set(combos('+') if mode == 'add' else combos('*') if mode == 'mult' else combos('+') + combos('*'))
    import anticipy.forecast as F
    seen = []
    orig = F.fit_model

    def quick(model, df_y, *a_, **k_):
        seen.append(model.name)
        if model.n_params > 2:
            model = fm.ForecastModel(model.name, model.n_params, model.f_model, model.f_init_params, model.f_bounds,
                                     lambda x, y, z: (_ for _ in ()).throw(AssertionError()))
        return orig(model, df_y, *a_, **k_)
    F.fit_model = quick
    try:
        names, r = fitted_names(c, df, season_add_mult=mode, l_model_calendar=cal, l_model_naive=[fm.model_naive])
    finally:
        F.fit_model = orig
    if not seen:
        seen = names
    c.ensure(len(set(names)) == len(names), 'duplicates in %s', names)
    c.ensure(sorted(set(names) - {'naive'}) == sorted(exp), 'candidates %s, expected %s', sorted(set(names) - {'naive'}), sorted(exp))
    c.ensure('naive' in names, 'naive model requested')
