from common import *
from anticipy import model_utils as mu


def grid(c):
    """a regular grid and the subset kept; returns kind, grid, keep mask"""
    n = c.int(1, 25)
    kind = c.pick('date', 'date', 'x')
    if kind == 'date':
        f = c.pick('H', 'D', 'D', 'W-MON', 'W-THU', 'W-SUN', 'MS', 'M', 'YS', 'Y', 'Q')
        g = date_axis(c, f, n, start_date(c))
    else:
        f = None
        g = np.arange(c.int(-5, 20), 10 ** 6)[:n]
    keep = c.rng.random(n) < c.pick(0.5, 0.8, 1.0)
    keep[0] = keep[-1] = True
    return kind, f, g, keep


def code(c, kept):
    return mu.detect_freq(pd.Series(kept))


@check('C14', 'regular grids with samples missing', 800)
def a(c):
    kind, f, g, keep = grid(c)
    n = len(g)
    kept = g[keep]
    m = len(kept)
    y = values(c, m)
    if c.flip(0.2):
        y = np.where(c.rng.random(m) < 0.2, np.nan, y)
    cols = dict(y=y)
    if kind == 'date':
        cols['date'] = kept
        with_x = c.flip(0.7)
        if with_x:
            cols['x'] = np.asarray((kept - g[0]).days)
            if c.flip(0.3):
                cols['x'] = cols['x'].astype(float)
    else:
        with_x = True
        cols['x'] = kept
        if c.flip(0.3):
            cols['x'] = cols['x'].astype(float)
    w = c.flip(0.4)
    if w:
        cols['weight'] = np.array([c.pick(0., 1., 2.) for _ in range(m)])
    names = list(cols)
    df = pd.DataFrame({k: cols[k] for k in [names[i] for i in c.rng.permutation(len(names))]})
    mask, interp = c.flip(), c.flip()
    c.show(df=df, include_mask=mask, interpolate_y=interp, freq=f)
    # the spacing must identify the grid: the smallest gap of the kept samples equals the grid step
    if kind == 'date':
        k = pd.Series(kept)
        code_ = mu.detect_freq(k)
        if m > 1:
            want = {'Q': 'Q'}.get(f, f)
            if code_ != want:
                raise Skip('the kept samples do not show the grid')
            if f == 'H' and not (k.diff().min() == pd.Timedelta(1, 'H')):
                raise Skip('')
    before = df.copy(deep=True)
    r = c.call('interpolate_df', mu.interpolate_df, df, include_mask=mask, interpolate_y=interp)
    c.ensure(same_obj(before, df), 'the table was modified')
    col = 'date' if kind == 'date' else 'x'
    gaps = not keep.all()
    if kind == 'x' and m > 1:
        # without dates the grid is the integers between the first and the last x; regular spacing counts as no gaps
        if len(set(np.diff(kept))) <= 1:
            gaps = False
    if kind == 'date' and gaps and len(set(pd.Series(kept).diff().dropna())) <= 1 and f != 'D':
        gaps = False     # evenly spaced samples: no visible gap
    if not gaps:
        c.ensure(same_obj(before, r), 'a series without gaps was changed')
        return
    if m < 2:
        return
    axis = list(pd.DatetimeIndex(r.date)) if kind == 'date' else [int(v) for v in r.x]
    full = list(g) if kind == 'date' else [int(v) for v in g]
    c.ensure(axis == full, 'axis %s, expected the grid %s', [str(v) for v in axis], [str(v) for v in full])
    yy = r.y.values
    c.exact(yy[keep], y, 'values of the original samples') if not (interp and np.isnan(y).any()) else \
        c.exact(yy[keep][~np.isnan(y)], y[~np.isnan(y)], 'values of the original samples')
    if w:
        c.exact(r.weight.values[keep], cols['weight'], 'weights of the original samples')
    if with_x:
        c.exact(r.x.values[keep], cols['x'], 'x of the original samples')
        c.ensure((np.diff(r.x.values) > 0).all() or f == 'H', 'x increasing: %s', r.x.values)
    new = ~keep
    if not interp:
        c.ensure(np.isnan(yy[new]).all(), 'inserted rows have values %s', yy[new])
    else:
        ok = ~np.isnan(np.where(keep, np.nan, 0.0))
        known = [(i, v) for i, v in zip(np.nonzero(keep)[0], y) if v == v]
        for i in np.nonzero(new)[0]:
            lo = [q for q in known if q[0] < i]
            hi = [q for q in known if q[0] > i]
            if lo and hi:
                (a0, v0), (a1, v1) = lo[-1], hi[0]
                e = v0 + (v1 - v0) * (i - a0) / float(a1 - a0)
                c.ensure(abs(yy[i] - e) <= 1e-9 * max(1, abs(e), abs(v0), abs(v1)), 'inserted value %r, expected %r', yy[i], e)
    if mask and with_x and not (kind == 'date' and f == 'H'):
        c.ensure('is_gap_filled' in r.columns and (r.is_gap_filled.values.astype(bool) == new).all(),
                 'mask %s, expected %s', r.get('is_gap_filled'), new)


@check('C14', 'repeated samples are refused when there are gaps', 200)
def b(c):
    n = c.int(3, 12)
    i = c.int(0, n - 1)
    if c.flip():
        d = list(date_axis(c, 'D', n))
        del d[n // 2]
        d = sorted(d + [d[min(i, len(d) - 1)]])
        df = pd.DataFrame(dict(date=d, y=values(c, len(d)), x=[(v - d[0]).days for v in d]))
        if n == 3:
            raise Skip('')
    else:
        x = [0, 1, 2, 5, 9]
        x = sorted(x + [c.pick(x)])
        df = pd.DataFrame(dict(x=x, y=values(c, len(x))))
    c.show(df=df)
    if df[df.columns[0]].drop_duplicates().diff().nunique() <= 1:
        raise Skip('no gaps')
    c.raises(ValueError, 'gaps and several samples per date or x', mu.interpolate_df, df)
    c.raises(ValueError, 'gaps and several samples per date or x', mu.interpolate_df, df, True, False)


@check('C14', 'repeated samples without gaps are returned unchanged', 150)
def b2(c):
    n = c.int(1, 12)
    if c.flip():
        d = list(date_axis(c, c.pick('D', 'H', 'W-TUE', 'MS', 'M', 'YS'), n))
        d = sorted(d + [d[c.int(0, n - 1)] for _ in range(c.int(0, 3))])
        df = pd.DataFrame(dict(date=d, y=values(c, len(d)), x=[(v - d[0]).days for v in d]))
    else:
        x = list(range(3, 3 + n))
        x = sorted(x + [c.pick(x)])
        df = pd.DataFrame(dict(x=x, y=values(c, len(x))))
    c.show(df=df)
    before = df.copy(deep=True)
    r = c.call('interpolate_df', mu.interpolate_df, df, c.flip(), c.flip())
    c.ensure(same_obj(before, r) and same_obj(before, df), 'a series without gaps was changed')
