from common import *
import ref
from anticipy import forecast_models as fm


def one(c, fams, positive=False):
    x, d = ref.samples(c)
    if positive:
        x = np.abs(x) + (0 if c.flip() else 0.5)
    if c.flip(0.2):
        x = x.astype(int) if (x == x.astype(int)).all() else x
    R = ref.leaf(c, d, fams)
    p = R.params(c, x, d)
    mult = c.flip()
    pp = c.pick(list, np.array)(p)
    c.show(model=R.tag, x=x, date=d, params=p, is_mult=mult)
    dd = d if (R.dates or c.flip()) else None
    r = c.call(R.tag, R.model, x, dd, pp, mult)
    if not R.model.n_params and np.ndim(r) == 0:
        r = np.full(len(x), float(r))
    r = np.asarray(r)
    c.ensure(r.shape == (len(x),), '%s: result of shape %s for %d samples', R.tag, r.shape, len(x))
    e = R.evaluate(x, d, p, mult)
    ok = np.isfinite(e)
    c.same(r[ok], e[ok], 'value of ' + R.tag, 1e-7, 1e-7)
    if not R.positional and len(x) > 1 and R.k:
        k = c.rng.permutation(len(x))[:c.int(1, len(x))]
        r2 = np.asarray(c.call(R.tag, R.model, x[k], dd[k] if dd is not None else None, pp, mult), dtype=float)
        c.same(r2, r[k].astype(float), 'samples evaluated on their own, ' + R.tag, 1e-9, 1e-9)


@check('C02', 'formulas of x', 250)
def a(c):
    one(c, [ref.PLAIN])


@check('C02', 'formulas of positive x', 60)
def a2(c):
    one(c, [ref.POSITIVE], True)


@check('C02', 'formulas of the date', 250)
def b(c):
    one(c, [ref.DATED])


@check('C02', 'spike by sample position', 60)
def s(c):
    one(c, [ref.POSITIONAL])


@check('C02', 'long and hourly dates: weekday, month, year position', 60)
def l(c):
    n = c.int(200, 900)
    d = pd.date_range(start_date(c, False), periods=n, freq=c.pick('H', 'D', '7H', '36H', 'M'))[:250]
    n = len(d)
    x = np.arange(n).astype(float)
    R = ref.leaf(c, d, [ref.DATED])
    p = R.params(c, x, d)
    mult = c.flip()
    c.show(model=R.tag, start=d[0], n=n, freq=d.freqstr, params=p, is_mult=mult)
    c.same(c.call(R.tag, R.model, x, d, p, mult), R.evaluate(x, d, p, mult), 'value of ' + R.tag, 1e-7, 1e-7)


@check('C02', 'thresholds: the step is in force at the threshold itself', 80)
def t(c):
    x = np.sort(c.rng.choice(np.arange(-10, 40), c.int(1, 12), replace=False)).astype(float) * c.pick(1., 0.5, 0.1)
    i = c.int(0, len(x) - 1)
    A, B = x[i], c.real(1.5, 9)
    mult = c.flip()
    c.show(x=x, A=A, B=B, is_mult=mult)
    base = 1.0 if mult else 0.0
    y = c.call('step', fm.model_step, x, None, [A, B], mult)
    c.exact(y, np.where(np.arange(len(x)) >= i, B, base), 'step at its threshold')
    y = c.call('ramp', fm.model_ramp, x, None, [A, B], mult)
    c.same(y, np.where(np.arange(len(x)) >= i, base + (x - A) * B, base), 'ramp')


@check('C02', 'several inputs in a row: values depend on the input of the call alone', 60)
def m(c):
    """inputs that agree in much (ends, length, x, or the same objects edited in between) but not in all"""
    d = pd.DatetimeIndex(sorted(set(any_dates(c, c.int(4, 14)))))
    n = len(d)
    if n < 3:
        raise Skip('few dates')
    alt = np.array(d)
    lo, hi = d[0].value, d[-1].value
    alt[1:-1] = np.sort((lo + (hi - lo) * c.rng.random(n - 2)).astype('int64')).astype('datetime64[ns]')
    ds = [d, pd.DatetimeIndex(alt), d + pd.Timedelta(c.pick(1, 7, 31, 365), 'D'), d[::-1], d]
    x = np.arange(n).astype(float)
    xs = [x, x + c.pick(0., 1.), x, x[::-1], x * 2]
    k = list(c.rng.permutation(5))
    R = ref.leaf(c, d, [c.pick(ref.DATED, ref.DATED, ref.PLAIN)])
    p = R.params(c, x, d)
    mult = c.flip()
    c.show(model=R.tag, dates=[list(map(str, ds[i])) for i in k], x=[list(xs[i]) for i in k], params=p, is_mult=mult)
    for i in k:
        with np.errstate(all='ignore'):
            e = R.evaluate(xs[i], ds[i], p, mult)
        ok = np.isfinite(e)
        r = np.asarray(c.call(R.tag, R.model, xs[i].copy(), ds[i], list(p), mult), dtype=float)
        c.same(np.broadcast_to(r, (n,))[ok], e[ok], 'value of %s, call %d' % (R.tag, k.index(i)), 1e-7, 1e-7)
    if c.flip():
        xe = xs[0].copy()
        c.call(R.tag, R.model, xe, d, list(p), mult)
        xe[c.int(0, n - 1)] += c.real(1, 5)
        with np.errstate(all='ignore'):
            e = R.evaluate(xe, d, p, mult)
        ok = np.isfinite(e)
        r = np.asarray(c.call(R.tag, R.model, xe, d, list(p), mult), dtype=float)
        c.same(np.broadcast_to(r, (n,))[ok], e[ok], 'value of %s after its x was edited' % R.tag, 1e-7, 1e-7)
