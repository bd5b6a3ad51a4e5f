from common import *
from anticipy import forecast as fc

NAMES = ['y', 'weight', 'x', 'date', 'source']


def table(c, small=False):
    """input table with renamed columns; returns df, kwargs, plain rows, flags"""
    n = c.int(1, 14)
    has_w, has_src = c.flip(), c.flip()
    has_x = c.flip(0.4)
    dated = c.pick('col', 'col', 'index', 'no')
    rows = dict(y=values(c, n))
    if c.flip(0.3):
        rows['y'] = np.where(c.rng.random(n) < 0.3, np.nan, rows['y'])
    if c.flip(0.2):
        rows['y'] = np.array([c.int(-5, 5) for _ in range(n)])
    if has_w:
        rows['weight'] = np.array([c.pick(0., 1., 0.5, 2., np.nan) for _ in range(n)])
    if has_src:
        pool = c.pick(['b', 'a', 'c'], ['s1'], ['z', 'a', 'A', '_'], [3, 1, 2], ['src 10', 'src 9'])
        rows['source'] = np.array([pool[c.int(0, len(pool) - 1)] for _ in range(n)], dtype=object)
    dates = None
    if dated != 'no':
        k = c.int(0, 2)
        if k == 0:
            dates = any_dates(c, n)
        elif k == 1:
            dates = pd.DatetimeIndex(start_date(c) + pd.to_timedelta(c.rng.integers(0, 60, n), unit='D'))
        else:
            dates = pd.DatetimeIndex(start_date(c, False) + pd.to_timedelta(c.rng.integers(0, 5000, n), unit='h'))
        if c.flip(0.3):
            dates = dates[c.rng.permutation(n)]
    if has_x:
        rows['x'] = c.pick(c.rng.integers(-10, 30, n).astype(float), c.rng.uniform(-5, 30, n), np.arange(n), c.rng.integers(0, 9, n))
    if dated == 'col':
        rows['date'] = dates if c.flip(0.8) else [str(v) for v in dates]
    names = {k: k for k in NAMES}
    if c.flip():
        for k in NAMES:
            if c.flip(0.4):
                names[k] = c.pick('my_%s' % k, '%s2' % k, 'Col %s' % k)
    cols = list(rows)
    cols = [cols[i] for i in c.rng.permutation(len(cols))]
    df = pd.DataFrame({names[k]: rows[k] for k in cols})
    if c.flip(0.3):
        df['other'] = c.rng.normal(0, 1, n)
    if dated == 'index':
        df.index = dates
        if c.flip():
            df.index.name = c.pick('date', 'when', 'x')
    elif c.flip(0.3):
        df.index = c.pick(c.rng.permutation(n) + 5, c.rng.integers(0, 2, n), np.arange(n)[::-1])
    kw = {'col_name_%s' % k: names[k] for k in NAMES if names[k] != k}
    # if the date is given as an index and no column carries its name, it still counts as the date
    return df, kw, rows, dates


def mon(t):
    t = pd.Timestamp(t)
    return t - pd.Timedelta(t.dayofweek, unit='D')


def expected(rows, dates, n):
    """list of dict rows, in input order, with x"""
    out = []
    src = rows.get('source')
    first = {}
    count = {}
    for i in range(n):
        s = src[i] if src is not None else None
        r = dict(y=float(rows['y'][i]), i=i)
        if src is not None:
            r['source'] = s
        if 'weight' in rows:
            r['weight'] = float(rows['weight'][i])
        if dates is not None:
            r['date'] = pd.Timestamp(dates[i])
        if 'x' in rows:
            r['x'] = float(rows['x'][i])
        elif dates is not None:
            first.setdefault(s, mon(dates[i]))
            r['x'] = float((r['date'] - first[s]) // pd.Timedelta(1, 'D'))
        else:
            r['x'] = float(count.get(s, 0))
            count[s] = count.get(s, 0) + 1
        out.append(r)
    return out


def fld(v):
    if isinstance(v, float):
        return 'nan' if v != v else repr(v)
    if isinstance(v, pd.Timestamp):
        return str(v.value)
    return repr(v)


def row_key(r, cols):
    return tuple(fld(r[k]) for k in cols)


def judge(c, r, rows, dates, n):
    exp = expected(rows, dates, n)
    cols = [k for k in ('date', 'source', 'x', 'y', 'weight') if k in exp[0]]
    c.ensure(sorted(r.columns) == sorted(cols), 'columns %s, expected %s', list(r.columns), cols)
    c.ensure(list(r.index) == list(range(n)), 'index %s for %d rows', list(r.index), n)
    got = []
    for i in range(n):
        g = {}
        for k in cols:
            v = r[k].iloc[i]
            if k in ('y', 'x', 'weight'):
                v = float(v)
            elif k == 'date':
                v = pd.Timestamp(v)
            elif isinstance(v, np.generic):
                v = v.item()
            g[k] = v
        got.append(g)
    for e in exp:
        if isinstance(e.get('source'), np.generic):
            e['source'] = e['source'].item()
    c.ensure(sorted(row_key(g, cols) for g in got) == sorted(row_key(e, cols) for e in exp),
             'rows differ: got %s, expected %s', [row_key(g, cols) for g in got][:8], [row_key(e, cols) for e in exp][:8])
    for a_, b_ in zip(got, got[1:]):
        ka = ((a_['source'],) if 'source' in a_ else ()) + (a_['x'],)
        kb = ((b_['source'],) if 'source' in b_ else ()) + (b_['x'],)
        c.ensure(ka <= kb, 'rows not ordered by source and x: %s before %s', ka, kb)


@check('C11', 'tables of any shape', 600)
def a(c):
    df, kw, rows, dates = table(c)
    n = len(df)
    if 'date' not in rows and dates is not None and df.columns.isin([kw.get('col_name_date', 'date')]).any():
        raise Skip('ambiguous')
    c.show(df=df, kwargs=kw, index=df.index)
    keep = df.copy(deep=True)
    r = c.call('normalize_df', fc.normalize_df, df, **kw)
    c.ensure(same_obj(keep, df), 'the input table was modified')
    judge(c, r, rows, dates, n)
    r2 = c.call('normalize_df', fc.normalize_df, r)
    if 'x' in rows or True:
        c.ensure(same_obj(r, r2) or 'source' in rows or r.x.duplicated().any(), 'normalising a normalised table changes it')


@check('C11', 'series and empty input', 150)
def b(c):
    n = c.int(1, 10)
    dates = any_dates(c, n) if c.flip() else None
    s = pd.Series(values(c, n), index=dates if dates is not None else None, name=c.pick(None, 'y', 'foo'))
    name = c.pick('y', 'v')
    c.show(s=s, dates=dates, name=name)
    kw = {} if name == 'y' else dict(col_name_y=name)
    r = c.call('normalize_df', fc.normalize_df, s, **kw)
    judge(c, r, dict(y=s.values), dates, n)
    c.ensure(c.call('empty', fc.normalize_df, pd.DataFrame(dict(y=[], x=[]))) is None, 'an empty table gives None')
    c.ensure(c.call('empty', fc.normalize_df, pd.Series([], dtype=float)) is None, 'an empty series gives None')
    c.raises(AssertionError, 'a table without the value column', fc.normalize_df, pd.DataFrame(dict(z=[1.])))
