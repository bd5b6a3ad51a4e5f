"""Scenarios for the forecasting entry points, with reference computations written from the property texts."""
from common import *
import math
from dateutil.relativedelta import relativedelta
from anticipy import forecast as fc, forecast_models as fm, model_utils as mu

PER_YEAR = dict(H=24 * 365., D=365., W=52., M=12., Q=4., Y=1., A=1.)
FIT_FREQS = ['D', 'D', 'D', 'W-MON', 'W-THU', 'W-SUN', 'MS', 'M', 'H', 'YS', 'Y', 'Q']


def next_point(t, freq):
    k = freq[0]
    if freq == 'H':
        return t + pd.Timedelta(1, 'H')
    if freq == 'D':
        return t + pd.Timedelta(1, 'D')
    if k == 'W':
        return t + pd.Timedelta(7, 'D')
    if freq == 'MS':
        return t + relativedelta(months=1)
    if freq == 'M':
        return t + relativedelta(months=1, day=31)
    if k == 'Q':
        return t + relativedelta(months=3, day=31)
    if freq == 'YS':
        return t + relativedelta(years=1)
    return t + relativedelta(years=1)


def horizon_end(end, freq, years):
    k = freq[0]
    u = years * PER_YEAR[k]
    if k == 'H':
        return end + pd.Timedelta(math.floor(u), 'H')
    if k == 'D':
        return end + pd.Timedelta(math.floor(u), 'D')
    if k == 'W':
        return end + pd.Timedelta(7 * math.floor(u), 'D')
    if k == 'M':
        return end + relativedelta(months=math.floor(u))
    if k == 'Q':
        return end + relativedelta(months=3 * math.floor(u))
    return end + relativedelta(years=math.floor(u))


WD = ['W-MON', 'W-TUE', 'W-WED', 'W-THU', 'W-FRI', 'W-SAT', 'W-SUN']


def ref_axis(start, end, freq, years, x0):
    """(dates, x) of the extrapolation axis; start is on the grid of freq"""
    if not isinstance(start, (pd.Timestamp, datetime_types)):
        n = math.floor(end - start + 100 * years) + 1
        return [start + i for i in range(n)], [x0 + i for i in range(n)]
    start, end = pd.Timestamp(start), pd.Timestamp(end)
    if freq is None:
        freq = WD[start.weekday()]
    last = horizon_end(end, freq, years)
    t, out = start, []
    while t <= last:
        out.append(t)
        t = pd.Timestamp(next_point(t, freq))
    return out, [x0 + (t - start).days for t in out]


import datetime as _dt
datetime_types = (_dt.datetime,)


def on_grid(t, freq):
    """the date of the grid of freq at or after t"""
    return pd.date_range(t, periods=1, freq=freq)[0]


CHEAP_TREND = [fm.model_constant, fm.model_linear, fm.model_linear_nondec]
CHEAP_SEASON = [fm.model_null, fm.model_season_wday_2]


class Scen(object):
    """one source: table, arguments and what follows from the documentation"""


def make(c, dated=None, gaps=True, dup=True, nans=True, weights=True, nmin=1, nmax=45, freqs=None, start=None):
    s = Scen()
    s.dated = c.flip(0.75) if dated is None else dated
    n = c.int(nmin, nmax)
    s.freq = c.pick(freqs or FIT_FREQS) if s.dated else None
    y = values(c, n)
    df = pd.DataFrame(dict(y=y))
    if s.dated:
        df['date'] = date_axis(c, s.freq, n, start)
        if s.freq[0] not in 'HDW':
            df['date'] = [pd.Timestamp(v).normalize() for v in df.date]
    else:
        df['x'] = np.arange(n) + c.pick(0, 0, 3, -4)
    s.kind = c.pick('plain', 'plain', 'gap' if gaps and n > 6 and (s.freq in (None, 'H', 'D', 'M', 'MS') or (s.freq and s.freq[0] == 'W')) else 'plain',
                    'dup' if dup and n >= 2 else 'plain')
    if s.kind == 'gap':
        keep = c.rng.random(n) < 0.8
        keep[[0, 1, 2, n - 1]] = True     # the smallest difference stays that of the frequency
        df = df.loc[keep].reset_index(drop=True)
    elif s.kind == 'dup':
        extra = df.iloc[c.rng.integers(0, n, c.int(1, 4))].copy()
        extra['y'] = extra.y + c.rng.normal(0, 1, len(extra))
        df = pd.concat([df, extra], ignore_index=True)
        df = df.sort_values('date' if s.dated else 'x', kind='stable').reset_index(drop=True)
    if nans and c.flip(0.3):
        df.loc[c.rng.random(len(df)) < 0.15, 'y'] = np.nan
    if weights and c.flip(0.5):
        w = c.pick(np.ones(len(df)), c.rng.uniform(0.2, 3, len(df)))
        w = np.where(c.rng.random(len(df)) < c.pick(0., 0.15), 0., w)
        df['weight'] = w
    s.own_x = False
    s.df = df
    return s


def give_x(c, s):
    """samples by date that come with their own numeric x: elapsed days from any starting number"""
    if s.dated and s.freq != 'H' and s.kind != 'dup':
        s.df['x'] = (s.df.date - s.df.date.iloc[0]).dt.days + c.pick(0.5, 2.25, 0, 7, -3, 100)
        s.own_x = True


def models(c):
    T = [CHEAP_TREND[i] for i in c.rng.permutation(3)[:c.int(1, 2)]]
    S = [CHEAP_SEASON[i] for i in c.rng.permutation(2)[:c.int(1, 2)]]
    return T, S


def args(c, s):
    """keyword arguments of run_forecast for a scenario"""
    T, S = models(c)
    if not s.dated:
        S = [fm.model_null]
    k = dict(l_model_trend=T, l_model_season=S, extrapolate_years=c.pick(0, 0.02, 0.1, 0.3) if s.freq != 'H' else c.pick(0, 0.002, 0.01),
             season_add_mult=c.pick('add', 'add', 'mult', 'both'))
    if s.freq and s.freq[0] in 'YQM':
        k['extrapolate_years'] = c.pick(0, 0.6, 1, 2.5)
    nv = c.pick(None, [fm.model_naive], [fm.model_naive, fm.model_snaive_wday] if s.dated else [fm.model_naive], [])
    k['l_model_naive'] = nv
    return k


def usable(df):
    """the samples that count for fitting"""
    u = df.loc[df.y.notnull()]
    if 'weight' in df.columns:
        u = u.loc[u.weight.fillna(0) > 0]
    return u


def weights_of(u):
    w = u.weight.values.astype(float) if 'weight' in u.columns else np.ones(len(u))
    cnt = u.x.map(u.x.value_counts()).values
    return w / cnt


def ref_aic(cost, n, k):
    return n * math.log(cost / n) + 2 * k + 2. * k * (k + 1) / (n - k - 1) if cost > 0 else None


def naive_names():
    return ('naive', 'snaive_wday')


QCOLS = lambda df: [v for v in df.columns if isinstance(v, str) and v.startswith('q') and v[1:].isdigit()]
