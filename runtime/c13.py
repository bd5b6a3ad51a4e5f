from common import *
import datetime
from anticipy import model_utils as mu

H = 3600 * 10 ** 9
D = 24 * H
WD = ['W-MON', 'W-TUE', 'W-WED', 'W-THU', 'W-FRI', 'W-SAT', 'W-SUN']


def expected(dates):
    s = sorted(set(pd.Timestamp(v) for v in dates))
    if len(s) < 2:
        return None
    gap = min((b - a).value for a, b in zip(s, s[1:]))
    if gap == H:
        return 'H'
    if gap == 7 * D:
        return WD[s[0].weekday()]
    if 28 * D <= gap <= 31 * D:
        return 'MS' if all(v.day == 1 for v in s) else 'M'
    if 89 * D <= gap <= 92 * D:
        return 'Q'
    if 365 * D <= gap <= 366 * D:
        return 'YS' if all(v.day == 1 and v.month == 1 for v in s) else 'Y'
    if 23 * H <= gap < 28 * D:
        return 'D'
    if gap < 23 * H:
        return None
    return Ellipsis       # spacing the statement leaves open


def gap_dates(c):
    k = c.int(0, 12)
    n = c.int(0, 12)
    t0 = start_date(c, c.flip())
    if k == 0:
        gaps = [c.pick(1, 2, 5) * H for _ in range(n)]
    elif k == 1:
        gaps = [c.pick(22, 23, 24, 25, 22.99, 23.5) * H for _ in range(n)]
    elif k == 2:
        gaps = [c.pick(7, 7, 14, 21) * D for _ in range(n)]
    elif k == 3:
        gaps = [c.pick(27, 28, 29, 30, 31, 32, 61, 27.99, 28.01, 31.01) * D for _ in range(n)]
    elif k == 4:
        gaps = [c.pick(88, 89, 90, 91, 92, 93, 92.01, 88.99) * D for _ in range(n)]
    elif k == 5:
        gaps = [c.pick(364, 365, 366, 367, 730, 366.01) * D for _ in range(n)]
    elif k == 6:
        return list(date_axis(c, c.pick(FREQS), n))
    elif k == 7:
        return [pd.Timestamp(2000 + c.int(0, 20), c.int(1, 12), 1) for _ in range(n)]
    elif k >= 10:          # nearly all first of the month or of January, in one place not
        n = c.int(2, 6)
        t = pd.Timestamp(2000 + c.int(0, 25), c.pick(1, 1, 2, 3, 7, 12), 1)
        out = [t + pd.DateOffset(**{'months' if k < 12 else 'years': i}) for i in range(n)]
        i = c.pick(0, n - 1, c.int(0, n - 1))
        j = c.pick(-3, -2, -1, 1, 2, 29, 30)
        out[i] = out[i] + (pd.Timedelta(j, 'D') if k < 12 else c.pick(pd.Timedelta(-1, 'D'), pd.Timedelta(1, 'D'), pd.DateOffset(months=1)))
        return out
    elif k == 8:
        return [pd.Timestamp(2000 + c.int(0, 30), 1, c.pick(1, 1, 1, 2)) for _ in range(n)]
    else:
        gaps = [c.pick(6, 7, 8, 6.99, 7.01, 13, 14, 1, 2) * D for _ in range(n)]
    out = [t0]
    for g in gaps:
        out.append(out[-1] + pd.Timedelta(int(g), unit='ns'))
    return out


@check('C13', 'sets of dates in any order with repetitions', 1500)
def a(c):
    l = gap_dates(c)
    if c.flip(0.5) and l:
        l = l + [l[c.int(0, len(l) - 1)] for _ in range(c.int(0, 5))]
    if c.flip(0.5):
        l = [l[i] for i in c.rng.permutation(len(l))]
    form = c.pick('index', 'series', 'frame', 'series2')
    c.show(dates=[str(v) for v in l], form=form)
    i = pd.DatetimeIndex(l)
    arg = i if form == 'index' else pd.Series(i) if form == 'series' else \
        pd.DataFrame({'date': i, 'y': 1.0}) if form == 'frame' else pd.Series(i, index=c.rng.permutation(len(i)) if c.flip() else c.rng.integers(0, 3, len(i)))
    keep = snap(arg)[0]
    r = c.call('detect_freq', mu.detect_freq, arg)
    e = expected(l)
    if e is not Ellipsis:
        c.ensure(r == e and (r is None) == (e is None), 'detected %r, expected %r', r, e)
    c.ensure(same_obj(keep, arg), 'the argument was modified')
    l2 = sorted(set(l))
    c.ensure(mu.detect_freq(pd.Series(l2, dtype='datetime64[ns]')) == r, 'depends on order or repetition')


@check('C13', 'regular axes', 300)
def b(c):
    f = c.pick([f for f in FREQS])
    n = c.int(2, 60)
    d = date_axis(c, f, n)
    c.show(freq=f, start=d[0], n=n)
    r = c.call('detect_freq', mu.detect_freq, d)
    e = expected(d)
    c.ensure(r == e, 'detected %r, expected %r', r, e)
    c.ensure(c.call('no dates', mu.detect_freq, pd.DataFrame(dict(x=np.arange(n)))) is None, 'None without dates')
