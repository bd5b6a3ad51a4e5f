from common import *
import ref
import datetime
from anticipy import forecast_models as fm
from pandas.tseries.holiday import Holiday, AbstractHolidayCalendar


def judge(c, R, x, d, mult, p):
    y = np.asarray(c.call(R.tag, R.model, x, d, p, mult), dtype=float)
    c.same(y, R.evaluate(x, d, p, mult), 'value of ' + R.tag, 1e-12, 1e-12)
    return y


@check('C06', 'dummy models and lists of dates or values', 500)
def a(c):
    x, d = ref.samples(c)
    R = ref.leaf(c, d, [ref.DUMMY])
    p = R.params(c, x, d)
    mult = c.flip()
    c.show(model=R.tag, x=x, date=d, params=p, is_mult=mult)
    y = judge(c, R, x, d, mult, p)
    k = c.rng.permutation(len(x))
    c.same(c.call(R.tag, R.model, x[k], d[k], p, mult), y[k], 'order of the samples', 1e-12, 1e-12)


@check('C06', 'several date lists or calendars, one parameter each in order', 500)
def b(c):
    x, d = ref.samples(c)
    R = ref.leaf(c, d, [ref.MULTI])
    p = R.params(c, x, d)
    mult = c.flip()
    c.show(model=R.tag, x=x, date=d, params=p, is_mult=mult)
    c.ensure(R.model.n_params == R.k, '%s parameters for %s lists', R.model.n_params, R.k)
    y = judge(c, R, x, d, mult, p)
    # whatever range is evaluated
    for i in c.rng.integers(0, len(x), 4):
        i = int(i)
        c.same(c.call(R.tag, R.model, x[i:i + 1], d[i:i + 1], p, mult), y[i:i + 1], 'a date evaluated on its own', 1e-12, 1e-12)


@check('C06', 'calendar dates around the holidays themselves', 200)
def cal(c):
    cls = c.pick(fm.CalendarBankHolUK, fm.CalendarChristmasUK, fm.CalendarBankHolIta, fm.CalendarChristmasIta,
                 fm.USFederalHolidayCalendar)
    y0 = c.int(1995, 2035)
    s = sorted(ref.calendar_dates(cls(), pd.Timestamp(y0, 1, 1), pd.Timestamp(y0 + 3, 12, 31)))
    h = s[c.int(0, len(s) - 1)]
    d = pd.date_range(h - pd.Timedelta(c.int(0, 3), unit='D'), periods=c.int(1, 5), freq='D')
    if c.flip(0.2):
        d = d.append(d)
    x = np.arange(len(d)).astype(float)
    A = c.real()
    mult = c.flip()
    multi = c.flip()
    c.show(calendar=cls.__name__, date=d, A=A, is_mult=mult, multi=multi)
    m = fm.get_model_from_calendars(cls()) if multi else fm.get_model_dummy('h', cls())
    e = np.array([v in set(s) for v in d], dtype=float) * A + (1 if mult else 0)
    c.same(c.call('calendar model', m, x, d, [A], mult), e, 'calendar model around a holiday')
    rule = Holiday('r', month=c.int(1, 12), day=c.int(1, 28))
    m = fm.get_model_dummy('h', rule)
    dd = pd.date_range(start_date(c), periods=c.int(1, 500), freq='D')
    e = ((dd.month == rule.month) & (dd.day == rule.day)).astype(float) * A + (1 if mult else 0)
    c.same(c.call('holiday model', m, np.arange(len(dd)), dd, [A], mult), e, 'holiday model')


def uk(y):
    D = datetime.date
    e = ref.easter(y)
    one = datetime.timedelta(1)

    def monday(d, back=False):
        while d.weekday():
            d = d - one if back else d + one
        return d
    hol = {e - 2 * one, e + one, monday(D(y, 5, 1)), monday(D(y, 5, 31), True), monday(D(y, 8, 31), True)
           if monday(D(y, 8, 31), True) <= D(y, 8, 30) else monday(D(y, 8, 30), True)}

    def nm(d):
        return d + (7 - d.weekday()) * one if d.weekday() >= 5 else d

    def nmt(d):
        w = d.weekday()
        return d + 2 * one if w in (5, 6) else d + one if w == 0 else d
    return {nm(D(y, 1, 1)), nm(D(y, 12, 25)), nmt(D(y, 12, 26))}, hol


@check('C06', 'bank holidays of the UK from first principles', 60)
def ukc(c):
    y = c.int(2000, 2035)
    d = pd.date_range(pd.Timestamp(y, 1, 1) + pd.Timedelta(c.int(0, 300), unit='D'), periods=c.int(1, 150), freq='D')
    xm, bh = set(), set()
    for q in (y - 1, y, y + 1):
        a_, b_ = uk(q)
        xm |= a_
        bh |= b_
    A, B = c.real(), c.real()
    mult = c.flip()
    c.show(start=d[0], n=len(d), A=A, B=B, is_mult=mult)
    f1 = np.array([v.date() in xm for v in d], dtype=float)
    f2 = np.array([v.date() in bh for v in d], dtype=float)
    e = (1 + A * f1) * (1 + B * f2) if mult else A * f1 + B * f2
    c.same(c.call('calendar_uk', fm.model_calendar_uk, np.arange(len(d)), d, [A, B], mult), e, 'calendar_uk')
    seas = {'season_wday_2': [float(v.weekday() < 5) for v in d], 'dummy_christmas': [float((v.month, v.day) == (12, 25)) for v in d],
            'dummy_month_start': [float(v.day == 1) for v in d]}
    for m in (fm.model_season_wday_2, fm.model_dummy_christmas, fm.model_dummy_month_start):
        c.same(c.call(m.name, m, np.arange(len(d)), d, [A], mult), np.array(seas[m.name]) * A + (1 if mult else 0), m.name)


@check('C06', 'dates are matched by timestamp', 150)
def t(c):
    n = c.int(2, 24)
    d = pd.date_range(start_date(c), periods=n, freq=c.pick('H', '6H', '12H', 'D'))
    l = [d[int(i)] + pd.Timedelta(c.pick(0, 0, 1, 3600), unit='s') for i in c.rng.integers(0, n, c.int(1, 4))]
    A = c.real()
    mult = c.flip()
    c.show(date=d, list=[str(v) for v in l], A=A, is_mult=mult)
    e = np.array([v in set(l) for v in d], dtype=float) * A + (1 if mult else 0)
    x = np.arange(n)
    for m in (fm.get_model_dummy('q', l), fm.get_model_dummy('q', [str(v) for v in l]), fm.get_model_from_datelist('q', l),
              fm.get_model_from_datelist('q', [str(v) for v in l])):
        c.same(c.call('list of dates', m, x, d, [A], mult), e, 'list of dates')
    c.raises(AssertionError, 'an empty list', fm.get_model_dummy, 'q', [])
