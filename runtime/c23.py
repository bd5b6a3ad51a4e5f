"""C23: plotting.  Everything is written into a scratch directory that the case creates and removes; the browser is never opened."""
import contextlib
import shutil
import tempfile
import re
from common import *
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure
import matplotlib.pyplot as plt
from anticipy import forecast_plot as fp

# never open a browser, whatever the code does
import webbrowser
webbrowser.open = lambda *a, **k: True
webbrowser.get = lambda *a, **k: webbrowser


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='c23_')
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        plt.close('all')
        shutil.rmtree(d, ignore_errors=True)


def files(d):
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)


def table(c, n_src=None, pi=None):
    n_src = c.pick(1, 2, 3, 4, 5, 6, 7, 10) if n_src is None else n_src
    named = n_src > 1 or c.flip()
    pi = c.flip(0.4) if pi is None else pi
    kind = c.int(0, 3)
    names = [('s%d' % i, i * 10, 'a/b %d' % i, '%d' % (n_src - i))[kind] for i in range(n_src)]
    parts = []
    for s in names:
        n, m = c.int(1, 12), c.int(0, 8)
        d0 = start_date(c)
        dates = pd.date_range(d0, periods=n + m, freq=c.pick('D', 'W-MON', 'MS'))
        y = np.round(c.rng.normal(10, 5, n + m), 3) + 1000 * names.index(s)
        df = pd.DataFrame({'date': dates, 'model': ['actuals'] * n + ['linear'] * m, 'y': y, 'is_actuals': [True] * n + [False] * m})
        if named:
            df['source'] = s
        if pi:
            for q, dy in (('q5', -2.), ('q20', -1.), ('q80', 1.), ('q95', 2.)):
                df[q] = np.where(df.is_actuals, np.nan, df.y + dy)
        parts.append(df)
    if c.flip() and n_src > 1:
        c.rng.shuffle(parts)
    df = pd.concat(parts, ignore_index=c.flip(0.7))
    return df, ([k.source.iloc[0] for k in parts] if n_src > 1 else None)


def pts(x, y):
    x = pd.to_datetime(pd.Series(list(x))).dt.floor('s')
    return sorted((str(a), round(float(b), 6)) for a, b in zip(x, y))


def rows(df, s, act):
    k = df.is_actuals.astype(bool) == act
    if s is not None:
        k &= df.source == s
    return pts(df.loc[k, 'date'], df.loc[k, 'y'])


def match(c, cells, df, sources, titles=None):
    """cells: list of lists of point lists; each source's rows appear in exactly one cell, with nothing of others"""
    used = []
    for s in sources or [None]:
        want = [rows(df, s, True)] + ([rows(df, s, False)] if rows(df, s, False) else [])
        hit = [i for i, k in enumerate(cells) if all(w in k for w in want)]
        c.ensure(len(hit) == 1, 'source %r: its %d actual and %d forecast rows are drawn completely in %d cells', s, len(want[0]), len(want[1]) if len(want) > 1 else 0, len(hit))
        own = set(d for w in want for d, _ in w)
        for k in cells[hit[0]]:
            c.ensure(set(d for d, _ in k) <= own, 'source %r: its cell also shows points of other rows: %s', s, sorted(set(d for d, _ in k) - own)[:4])
        if titles:
            c.ensure(titles[hit[0]] == str(s), 'source %r is drawn in the cell titled %r', s, titles[hit[0]])
        used.append(hit[0])
    c.ensure(len(set(used)) == len(used), 'sources share a cell')
    rest = [i for i, k in enumerate(cells) if i not in used and any(k)]
    c.ensure(not rest, 'cells %s show rows besides those of the sources', rest)


def decode(v):
    if isinstance(v, dict) and 'bdata' in v:
        import base64
        return np.frombuffer(base64.b64decode(v['bdata']), dtype=v['dtype']).tolist()
    return v


def read_html(path):
    t = open(path, encoding='utf-8').read()
    i = t.index('Plotly.newPlot(')
    dec = json.JSONDecoder()
    i = t.index('[', i)
    data, j = dec.raw_decode(t[i:])
    j = t.index('{', i + j)
    layout, _ = dec.raw_decode(t[j:])
    return data, layout


def html_cells(c, data, layout):
    cells = {}
    for tr in data:
        key = (tr.get('xaxis', 'x'), tr.get('yaxis', 'y'))
        x, y = decode(tr.get('x', [])) or [], decode(tr.get('y', [])) or []
        c.ensure(len(x) == len(y), 'trace with %d dates and %d values', len(x), len(y))
        cells.setdefault(key, []).append([(a, b) for a, b in zip(x, y) if b is not None])
    keys = sorted(cells)
    out = [[pts([a for a, _ in t], [b for _, b in t]) for t in cells[k]] for k in keys]
    dom = []
    for kx, ky in keys:
        ax, ay = layout.get('xaxis' + kx[1:], {}), layout.get('yaxis' + ky[1:], {})
        dom.append((ax.get('domain', [0, 1]), ay.get('domain', [0, 1])))
    for i in range(len(dom)):
        for j in range(i):
            (a, b), (p, q) = dom[i], dom[j]
            apart = a[1] <= p[0] or p[1] <= a[0] or b[1] <= q[0] or q[1] <= b[0]
            c.ensure(apart, 'cells %s and %s overlap: %s %s', keys[i], keys[j], dom[i], dom[j])
    titles = []
    for a, b in dom:
        t = [n['text'] for n in layout.get('annotations', []) if abs(n['x'] - (a[0] + a[1]) / 2) < 1e-6 and abs(n['y'] - b[1]) < 1e-6]
        titles.append(t[0] if t else None)
    return out, titles


def settings(c):
    k = dict(include_interval=c.flip(), show_legend=c.flip(), title=c.pick(None, 'title'))
    if c.flip(0.6):
        k.update(width=c.pick(400, 800), height=c.pick(300, 900))
    return k


@check('C23', 'html plots', n=60)
def html(c):
    df, sources = table(c)
    k = settings(c)
    if k.get('height') and sources and k['height'] < 600 and len(sources) > 9:
        k['height'] = 900
    if c.flip(0.3):
        k.update(pi_q1=5, pi_q2=20)
    c.show(df=df, settings=k)
    keep = df.copy(deep=True)
    with scratch() as d:
        p = os.path.join(d, 'plot')
        r = c.call('plot_forecast', fp.plot_forecast, df, 'html', p, **k)
        c.ensure(same_obj(df, keep) and list(df.columns) == list(keep.columns) and df.index.equals(keep.index), 'the plotted table was modified')
        c.ensure(r == 0 and not isinstance(r, str), 'plotting returned %r', r)
        c.ensure(files(d) == [p + '.html'], 'success, but the files are %s', files(d))
        data, layout = read_html(p + '.html')
    cells, titles = html_cells(c, data, layout)
    if sources is None and 'source' in df:
        titles = None
    match(c, cells, df, sources, titles if sources else None)


@check('C23', 'png plots', n=24)
def png(c):
    df, sources = table(c)
    k = settings(c)
    k['dpi'] = c.pick(40, 70)
    c.show(df=df, settings=k)
    keep = df.copy(deep=True)
    figs = []
    orig = matplotlib.figure.Figure.savefig

    def rec(self, *a, **kw):
        figs.append([(ax.get_visible(), ax.get_title(), [(list(l.get_xdata(orig=True)), list(l.get_ydata(orig=True))) for l in ax.lines],
                      ax.get_position().bounds) for ax in self.axes])
        return orig(self, *a, **kw)
    with scratch() as d:
        p = os.path.join(d, c.pick('plot', 'sub/plot', 'plot.v1'))
        matplotlib.figure.Figure.savefig = rec
        try:
            r = c.call('plot_forecast', fp.plot_forecast, df, 'png', p, **k)
        finally:
            matplotlib.figure.Figure.savefig = orig
        c.ensure(same_obj(df, keep) and list(df.columns) == list(keep.columns) and df.index.equals(keep.index), 'the plotted table was modified')
        c.ensure(r == 0, 'plotting returned %r', r)
        c.ensure(files(d) == [p + '.png'], 'success, but the files are %s', files(d))
        c.ensure(open(p + '.png', 'rb').read(8) == b'\x89PNG\r\n\x1a\n', 'the file is no png')
    c.ensure(len(figs) == 1, '%d figures were saved', len(figs))
    vis = [f for f in figs[0] if f[0]]
    for f in figs[0]:
        c.ensure(f[0] or not any(len(x) for x, _ in f[2]), 'rows are drawn in a hidden cell')
    cells = [[pts(x, y) for x, y in f[2]] for f in vis]
    match(c, cells, df, sources, [f[1] for f in vis] if sources else None)
    c.ensure(len(vis) == len(sources or [None]), '%d cells are shown for %d sources', len(vis), len(sources or [None]))


@check('C23', 'failures write nothing', n=40)
def fail(c):
    df, sources = table(c)
    k = settings(c)
    kind = c.int(0, 3)
    out, path, patch = c.pick('html', 'png'), 'plot', {}
    if kind == 0:
        out = c.pick('pdf', 'HTML', '', 'svg', 'jpg', None, 'html ', 'text')
    elif kind == 1:
        path = c.pick(None, '')
    elif kind == 2:
        out = c.pick('pdf', 'excel')
        path = c.pick(None, '', 'plot')
    else:
        patch = {'_matplotlib_imported': False} if out == 'png' else {'_plotly_imported': False}
    c.show(df=df, output=out, path=path, settings=k, patch=patch)
    keep = df.copy(deep=True)
    old = {a: getattr(fp, a) for a in patch if hasattr(fp, a)}
    if patch and not old:
        raise Skip('no flag for the missing library')
    with scratch() as d:
        try:
            for a in old:
                setattr(fp, a, patch[a])
            r = c.call('plot_forecast', fp.plot_forecast, df, out, path and os.path.join(d, path), **k)
        finally:
            for a in old:
                setattr(fp, a, old[a])
        c.ensure(files(d) == [], 'output %r path %r: wrote %s', out, path, files(d))
    c.ensure(r == 1, 'output %r path %r %s: returned %r without writing anything', out, path, patch, r)
    c.ensure(same_obj(df, keep), 'the plotted table was modified')


@check('C23', 'plots of forecasts', n=6)
def fcast(c):
    from anticipy import forecast
    n = c.int(1, 4)
    dfs = []
    for i in range(n):
        dfs.append(pd.DataFrame({'date': pd.date_range('2018-01-01', periods=c.int(8, 25), freq='D'), 'source': 's%d' % i}))
        dfs[-1]['y'] = 10. * i + np.arange(len(dfs[-1])) + c.rng.normal(0, 1, len(dfs[-1]))
    df = pd.concat(dfs)
    out = c.call('run_forecast', forecast.run_forecast, df, season_add_mult='add', extrapolate_years=0.05, l_model_season=[], simplify_output=False)['data']
    c.show(df=df)
    sources = ['s%d' % i for i in range(n)] if n > 1 else None
    keep = out.copy(deep=True)
    with scratch() as d:
        p = os.path.join(d, 'plot')
        r = c.call('plot_forecast', fp.plot_forecast, out, 'html', p, include_interval=True)
        c.ensure(r == 0 and files(d) == [p + '.html'], 'returned %r and wrote %s', r, files(d))
        data, layout = read_html(p + '.html')
    c.ensure(same_obj(out, keep), 'the plotted table was modified')
    cells, titles = html_cells(c, data, layout)
    match(c, cells, out, sources, titles if sources else None)
