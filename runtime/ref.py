"""Reference values of the documented formulas, one sample at a time, in plain Python."""
import math
import datetime
import numpy as np
import pandas as pd
from anticipy import forecast_models as fm


class Ref(object):
    """a model together with its documented value per sample"""
    def __init__(self, model, k, value, params, dates=False, cal=False, tag=None, positional=False):
        self.model, self.k, self.value, self._params = model, k, value, params
        self.dates, self.cal, self.tag = dates, cal, tag or getattr(model, 'name', '?')
        self.positional = positional

    def params(self, c, x, d):
        return [float(v) for v in self._params(c, x, d)]

    def evaluate(self, x, d, p, mult):
        return np.array([self.value(float(x[i]), d[i] if d is not None else None, p, mult, i) for i in range(len(x))],
                        dtype=float)

    def __add__(self, o):
        if self.tag == 'null' or o.tag == 'null':   # composing with the null model returns the other model
            return o if self.tag == 'null' else self
        return Ref(self.model + o.model, self.k + o.k,
                   lambda x, d, p, m, i: self.value(x, d, p[:self.k], False, i) + o.value(x, d, p[self.k:], False, i),
                   lambda c, x, d: self.params(c, x, d) + o.params(c, x, d), self.dates or o.dates, self.cal or o.cal,
                   '(%s+%s)' % (self.tag, o.tag), self.positional or o.positional)

    def __mul__(self, o):
        if self.tag == 'null' or o.tag == 'null':   # composing with the null model returns the other model
            return o if self.tag == 'null' else self
        return Ref(self.model * o.model, self.k + o.k,
                   lambda x, d, p, m, i: self.value(x, d, p[:self.k], True, i) * o.value(x, d, p[self.k:], True, i),
                   lambda c, x, d: self.params(c, x, d) + o.params(c, x, d), self.dates or o.dates, self.cal or o.cal,
                   '(%s*%s)' % (self.tag, o.tag), self.positional or o.positional)


def reals(k, lo=-10, hi=10):
    return lambda c, x, d: [c.real(lo, hi) for _ in range(k)]


def thr(c, x):
    """a threshold, often exactly one of the x values"""
    if len(x) and c.flip(0.6):
        return float(x[c.int(0, len(x) - 1)])
    return c.real(-5, 30)


def step(x, A, B, m):
    on = x >= A
    return (B if on else 1.0) if m else (B if on else 0.0)


def safe_exp(v):
    try:
        return math.exp(v)
    except OverflowError:
        return float('inf')


def ramp(x, A, B, m):
    return (1.0 if m else 0.0) + ((x - A) * B if x >= A else 0.0)


def fourier(d, p):
    t = (pd.Timestamp(d) - pd.Timestamp('1970-01-01')) // pd.Timedelta(1, 'D')
    s = 0.0
    for i in range(1, 11):
        a = 2.0 * math.pi * i * t / 365.25
        s += p[i - 1] * math.sin(a) + p[9 + i] * math.cos(a)
    return s


def spike_params(c, x, d):
    n = len(x)
    a = c.int(0, n)
    return [c.real(), a, c.int(a, n)]


def some_date(c, d):
    if d is not None and len(d) and c.flip(0.7):
        return pd.Timestamp(d[c.int(0, len(d) - 1)])
    return pd.Timestamp('2001-01-01') + pd.Timedelta(c.int(0, 8000), unit='D')


PLAIN = [
    lambda c, d: Ref(fm.model_constant, 1, lambda x, d, p, m, i: p[0], reals(1)),
    lambda c, d: Ref(fm.model_linear, 2, lambda x, d, p, m, i: p[0] * x + p[1], reals(2)),
    lambda c, d: Ref(fm.model_linear_nondec, 2, lambda x, d, p, m, i: p[0] * x + p[1], reals(2)),
    lambda c, d: Ref(fm.model_decay, 3, lambda x, d, p, m, i: p[0] * safe_exp(p[1] * x) + p[2], reals(3, -1, 1)),
    lambda c, d: Ref(fm.model_step, 2, lambda x, d, p, m, i: step(x, p[0], p[1], m),
                     lambda c, x, d: [thr(c, x), c.real()]),
    lambda c, d: Ref(fm.model_two_steps, 4,
                     lambda x, d, p, m, i: step(x, p[0], p[1], m) * step(x, p[2], p[3], m) if m else
                     step(x, p[0], p[1], m) + step(x, p[2], p[3], m),
                     lambda c, x, d: [thr(c, x), c.real(), thr(c, x), c.real()]),
    lambda c, d: Ref(c.pick(fm.model_sigmoid, fm.model_sigmoid_step), 3,
                     lambda x, d, p, m, i: (1 if m else 0) + (p[0] - (1 if m else 0)) / (1 + safe_exp(-p[2] * (x - p[1]))),
                     lambda c, x, d: [c.real(), thr(c, x), c.real(-2, 2)]),
    lambda c, d: Ref(fm.model_ramp, 2, lambda x, d, p, m, i: ramp(x, p[0], p[1], m),
                     lambda c, x, d: [thr(c, x), c.real()]),
]
POSITIVE = [
    lambda c, d: Ref(fm.model_quasilinear, 3, lambda x, d, p, m, i: p[0] * x ** p[1] + p[2],
                     lambda c, x, d: [c.real(), c.real(0, 2), c.real()]),
    lambda c, d: Ref(fm.model_exp, 2, lambda x, d, p, m, i: p[0] * p[1] ** x,
                     lambda c, x, d: [c.real(), c.real(0.5, 1.5)]),
]
NULL = [lambda c, d: Ref(fm.model_null, 0, lambda x, d, p, m, i: 1.0 if m else 0.0, reals(0))]
POSITIONAL = [
    lambda c, d: Ref(fm.model_spike, 3, lambda x, d, p, m, i: p[0] if p[1] <= i < p[2] else (1.0 if m else 0.0),
                     spike_params, positional=True)]


def _spike_date(c, d):
    a, b = sorted([some_date(c, d), some_date(c, d)])
    form = c.pick(lambda t: t, lambda t: t, lambda t: t.to_pydatetime(), lambda t: str(t))
    return Ref(fm.get_model_spike_date(form(a), form(b)), 1,
               lambda x, d, p, m, i: p[0] if a <= d < b else (1.0 if m else 0.0), reals(1), True)


def _step_date(c, d):
    a = some_date(c, d)
    return Ref(fm.get_model_step_date(c.pick(a, str(a), a.to_pydatetime())), 1,
               lambda x, d, p, m, i: p[0] if d >= a else (1.0 if m else 0.0), reals(1), True)


DATED = [
    _spike_date, _step_date,
    lambda c, d: Ref(fm.model_season_wday, 6,
                     lambda x, d, p, m, i: ([1.0 if m else 0.0] + p)[datetime.date(d.year, d.month, d.day).weekday()],
                     reals(6), True, True),
    lambda c, d: Ref(c.pick(fm.model_season_month, fm.model_season_month, fm.model_season_month_old), 11,
                     lambda x, d, p, m, i: ([1.0 if m else 0.0] + p)[d.month - 1], reals(11), True, True),
    lambda c, d: Ref(fm.model_season_fourier_yearly, 20, lambda x, d, p, m, i: fourier(d, p), reals(20), True, True),
]


def dummy_value(flag):
    return lambda x, d, p, m, i: (1.0 if m else 0.0) + (p[0] if flag(x, d) else 0.0)


def easter(y):
    a, b, c = y % 19, y // 100, y % 100
    d, e = b // 4, b % 4
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = c // 4, c % 4
    l = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * l) // 451
    mo, da = divmod(h + l - 7 * m + 114, 31)
    return datetime.date(y, mo, da + 1)


def calendar_dates(cal, lo, hi):
    """all holidays of a calendar between two dates, from a much wider query"""
    return set(cal.holidays(pd.Timestamp(lo) - pd.Timedelta('1500D'), pd.Timestamp(hi) + pd.Timedelta('1500D')))


def _dummy_list_dates(c, d):
    dd = [pd.Timestamp(v) for v in d] if d is not None and len(d) else []
    l = [dd[c.int(0, len(dd) - 1)] for _ in range(c.int(1, 4))] if dd else []
    l += [some_date(c, d) for _ in range(c.int(0 if l else 1, 3))]
    if c.flip(0.3):
        l = l + l[:1]
    s = set(l)
    arg = c.pick(list(l), pd.DatetimeIndex(l), [str(v) for v in l], pd.Series(l), tuple(l), [v.to_pydatetime() for v in l])
    return Ref(fm.get_model_dummy(c.pick('dummy', 'hol'), arg), 1, dummy_value(lambda x, d: d in s), reals(1), True, True)


def _dummy_list_x(c, d):
    l = [float(c.int(-3, 30)) for _ in range(c.int(1, 6))]
    s = set(l)
    arg = c.pick(list(l), np.array(l), pd.Series(l), [int(v) for v in l])
    return Ref(fm.get_model_dummy(c.pick('dummy', 'hol'), arg), 1, dummy_value(lambda x, d: x in s), reals(1), False, True)


def _dummy_fn(c, d):
    k = c.int(0, 6)
    return Ref(fm.get_model_dummy('dummy', lambda a_x, a_date, **kw: (a_date.weekday == k).astype(float)), 1,
               dummy_value(lambda x, d: d.weekday() == k), reals(1), True, True)


def _dummy_cal(c, d):
    cal = c.pick(fm.CalendarBankHolUK, fm.CalendarChristmasUK, fm.CalendarBankHolIta, fm.CalendarChristmasIta,
                 fm.USFederalHolidayCalendar)()
    lo, hi = (min(d), max(d)) if d is not None and len(d) else (pd.Timestamp('2000-01-01'),) * 2
    s = calendar_dates(cal, lo, hi)
    return Ref(fm.get_model_dummy('cal', cal), 1, dummy_value(lambda x, d: d in s), reals(1), True, True)


def _dummy_fixed(c, d):
    m, f = c.pick((fm.model_season_wday_2, lambda d: d.weekday() < 5),
                  (fm.model_dummy_christmas, lambda d: (d.month, d.day) == (12, 25)),
                  (fm.model_dummy_month_start, lambda d: d.day == 1))
    return Ref(m, 1, dummy_value(lambda x, d: f(d)), reals(1), True, True)


def multi_value(sets):
    def f(x, d, p, m, i):
        if m:
            v = 1.0
            for q, s in zip(p, sets):
                v *= 1.0 + (q if d in s else 0.0)
            return v
        return sum((q if d in s else 0.0) for q, s in zip(p, sets))
    return f


def _date_lists(c, d):
    ls = []
    for _ in range(c.int(1, 4)):
        l = [some_date(c, d) for _ in range(c.int(1, 5))]
        if c.flip(0.3):
            l = l + l[:1]
        ls.append(l)
    m = fm.get_model_from_datelist('datelist', *[c.pick(list(l), pd.DatetimeIndex(l), [str(v) for v in l]) for l in ls])
    return Ref(m, len(ls), multi_value([set(l) for l in ls]), reals(len(ls)), True, True)


def _calendars(c, d):
    lo, hi = (min(d), max(d)) if d is not None and len(d) else (pd.Timestamp('2000-01-01'),) * 2
    cls = [fm.CalendarBankHolUK, fm.CalendarChristmasUK, fm.CalendarBankHolIta, fm.CalendarChristmasIta,
           fm.USFederalHolidayCalendar]
    k = c.int(1, 3)
    cals = [cls[i]() for i in c.rng.permutation(5)[:k]]
    m = fm.get_model_from_calendars(cals if k > 1 or c.flip() else cals[0], c.pick('cals', None))
    sets = [calendar_dates(q, lo, hi) for q in cals]
    return Ref(m, k, multi_value(sets), reals(k), True, True)


def _calendars_fixed(c, d):
    lo, hi = (min(d), max(d)) if d is not None and len(d) else (pd.Timestamp('2000-01-01'),) * 2
    m, cls = c.pick((fm.model_calendar_uk, (fm.CalendarChristmasUK, fm.CalendarBankHolUK)),
                    (fm.model_calendar_us, (fm.USFederalHolidayCalendar,)),
                    (fm.model_calendar_ita, (fm.CalendarChristmasIta, fm.CalendarBankHolIta)))
    sets = [calendar_dates(q(), lo, hi) for q in cls]
    return Ref(m, len(sets), multi_value(sets), reals(len(sets)), True, True)


DUMMY = [_dummy_list_dates, _dummy_list_x, _dummy_fn, _dummy_cal, _dummy_fixed]
MULTI = [_date_lists, _calendars, _calendars_fixed]


def samples(c, n=None, dated=True):
    """x (any order, repeats) and dates (any order, repeats) of the same length"""
    from common import any_dates
    n = c.int(1, 25) if n is None else n
    k = c.int(0, 3)
    if k == 0:
        x = np.arange(n).astype(float)
    elif k == 1:
        x = np.sort(c.rng.integers(-5, 30, n)).astype(float)
    elif k == 2:
        x = c.rng.integers(-5, 30, n).astype(float)
    else:
        x = c.rng.uniform(-5, 30, n)
    d = None
    if dated:
        d = any_dates(c, n)
        if c.flip(0.3):
            d = d[c.rng.permutation(n)]
    return x, d


def leaf(c, d, families):
    fs = [f for fam in families for f in fam]
    return fs[int(c.rng.integers(len(fs)))](c, d)


def tree(c, d, families, size):
    if size <= 1:
        return leaf(c, d, families)
    k = c.int(1, size - 1)
    a = tree(c, d, families, k)
    b = tree(c, d, families, size - k)
    return a + b if c.flip() else a * b
