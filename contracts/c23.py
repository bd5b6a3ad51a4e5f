"""C23 plotting. The plotting libraries, the file system and the browser are recorders: every call on them is recorded with its arguments
and has no other effect; file tests answer either way."""
from dv.spec import *
from dv import libs

S = z3.StringSort()


class Rec:
    """an object of a plotting library: remembers what was done to it"""

    def __init__(self, path, log, cells=None):
        self.path, self.log, self.cells = path, log, {} if cells is None else cells
        self.kids = {}

    def __repr__(self):
        return 'Rec(%s)' % (self.path,)

    def sv_getattr(self, nm):
        if nm not in self.kids:
            self.kids[nm] = Rec(self.path + (nm,), self.log)
        return self.kids[nm]

    def sv_setattr(self, nm, v):
        self.kids[nm] = v

    def sv_setitem(self, k, v):
        pass

    def sv_getitem(self, k):
        k = tuple(interp.force(i) for i in k) if isinstance(k, tuple) else interp.force(k)
        key = repr(k)
        if key not in self.cells:
            self.cells[key] = Rec(self.path + (k,), self.log)
        return self.cells[key]

    def sv_iter(self):
        return [] if self.path[-1:] == ('layout',) else [Rec(self.path + ('item',), self.log)]

    def sv_call(self, args, kwargs):
        kw = dict(kwargs.allitems() if hasattr(kwargs, 'allitems') else kwargs)
        out = Rec(self.path + ('()',), self.log)
        self.log.append((self.path, list(args), kw, out))
        nm = self.path[-1]
        if nm == 'subplots' and self.path[0] == 'plt':
            return (Rec(('fig',), self.log), Rec(('axes',), self.log))
        if nm in ('make_subplots', 'figure', 'Figure'):
            return Rec(('fig',), self.log)
        return out


LOG = []


def boot():
    """the module, with recorders for what it imports"""
    log = LOG
    del log[:]
    if 'anticipy.forecast_plot' in world._mods:
        return mod('fp'), log
    plt = Rec(('plt',), log)
    osm = interp.LibMod('os', {})
    path = interp.LibMod('os.path', {
        'exists': HostFn(lambda p: SB(C().fresh(B, 'exists')), 'os.path.exists'), 'isdir': HostFn(lambda p: SB(C().fresh(B, 'isdir')), 'os.path.isdir'),
        'split': HostFn(lambda p: (SS(C().fresh(S, 'dir')), SS(C().fresh(S, 'file'))), 'os.path.split'),
        'dirname': HostFn(lambda p: SS(C().fresh(S, 'dir')), 'os.path.dirname'), 'basename': HostFn(lambda p: SS(C().fresh(S, 'file')), 'os.path.basename')})
    osm.attrs['path'] = path
    mk = Rec(('os', 'makedirs'), log)
    osm.attrs['makedirs'] = mk
    libs.MODS.update({'os': osm, 'os.path': path, 'webbrowser': Rec(('webbrowser',), log), 'matplotlib.pyplot': plt, 'plotly': interp.LibMod('plotly', {k: Rec(('py', k), log) for k in ('tools', 'subplots', 'offline', 'io')}),
                      'plotly.subplots': Rec(('py', 'subplots'), log), 'plotly.offline': Rec(('py', 'offline'), log), 'plotly.io': Rec(('py', 'io'), log),
                      'plotly.graph_objs': Rec(('go',), log), 'IPython': Rec(('IPython',), log)})
    libs.MODS['matplotlib'] = interp.LibMod('matplotlib', {'pyplot': plt})
    m = mod('fp')
    return m, log


def writes(log):
    return [e for e in log if e[0][-1] in ('savefig', 'write_html', 'write_image') or e[0][-2:] == ('offline', 'plot') or e[0][-1] == 'plot' and e[0][0] == 'py']


def table(n_text=None, source=True, pi=False):
    sp = space(size('n', 1), 'rows')
    cols = dict(date=dates('date', sp))
    if source:
        cols['source'] = vec('source', sp, dtype='str')
    cols.update(is_actuals=vec('is_actuals', sp, dtype='bool'), model=vec('model', sp, dtype='str'), y=vec('y', sp, nan=True))
    if pi:
        for q in ('q5', 'q95', 'q20', 'q80'):
            cols[q] = vec(q, sp, nan=True)
    return sp, cols, frame(sp, **cols)


def known_sources(ctx, sp, cols):
    """precondition: a forecast has actual rows for each of its sources"""
    f = ctx.fn('an_actual_of', I, I)

    def fact(i):
        w = f(arrays.iexpr(i))
        if z3.is_expr(i) and z3.is_app(i) and i.decl().eq(f):
            return True
        arrays.further(sp, w, lambda k: None)
        return band(sp.in_range(w), cols['is_actuals'].get(w), cell_same(cols['source'].get(w), cols['source'].get(i)))
    sp.add_fact(fact)


def flags(m):
    v = {}
    for nm in ('_matplotlib_imported', '_plotly_imported', '_ipython_imported'):
        if nm not in m.vars:
            raise Unsupported('%s does not exist any more' % nm)
        v[nm] = SB(C().fresh(B, nm))
        m.vars[nm] = v[nm]
    return v


def same_table(ctx, df, sp, cols):
    ctx.prove(columns(df) == list(cols), 'the table keeps its columns')
    for c, a in cols.items():
        i = ctx.fresh(I, 'i')
        sp.touch(i)
        ctx.prove(z3.Implies(zb(sp.in_range(i)), zb(cell_same(as_array(interp.getitem(df, c)).get(i), a.get(i)))), 'the table keeps its %s' % c)


def plot(name, source, fmt=None):
    @unit('C23', 'plot_forecast, %s' % name, seconds=100)
    def u(ctx):
        m, log = boot()
        v = flags(m)
        made = []
        stub('fp._matplotlib_forecast_create', lambda b: (made.append(('png', b)), Rec(('fig',), log))[1])
        stub('fp._plotly_forecast_create', lambda b: (made.append(('html', b)), Rec(('fig',), log))[1])
        sp, cols, df = table(source=source)
        if source:
            known_sources(ctx, sp, cols)
        out = string('output') if fmt is None else SS(z3.StringVal(fmt))
        has_path = fmt is not None or ctx.branch(ctx.fresh(B, 'has_path'), 'path')
        path = string('path') if has_path else None
        opens = boolean('auto_open') if fmt is None else False
        if fmt:
            ctx.assume(path.z != z3.StringVal(''))
        r = no_raise(need('fp.plot_forecast'), 'plot_forecast', df, out, path, auto_open=opens)
        same_table(ctx, df, sp, cols)
        w = writes(log)
        png, html = out.z == z3.StringVal('png'), out.z == z3.StringVal('html')
        jup = out.z == z3.StringVal('jupyter')
        given = path.z != z3.StringVal('') if has_path else z3.BoolVal(False)
        ok = z3.And(given, z3.Or(z3.And(png, v['_matplotlib_imported'].z), z3.And(html, v['_plotly_imported'].z)))
        zero = zb(interp.zraw(interp.eq(r, 0))) if is_num(r) else z3.BoolVal(False)
        one = zb(interp.zraw(interp.eq(r, 1))) if is_num(r) else z3.BoolVal(False)
        notebook = z3.And(jup, v['_plotly_imported'].z, v['_ipython_imported'].z)
        ctx.prove(z3.Implies(z3.Not(notebook), zero == ok), '0 exactly when a supported output was requested with a path and its library is there')
        ctx.prove(z3.Implies(z3.Not(z3.Or(ok, notebook)), one), '1 otherwise')
        ctx.prove(z3.Implies(zb(zero), z3.BoolVal(len(w) == 1)), '0 only when one file was written')
        ctx.prove(z3.Implies(z3.Not(ok), z3.BoolVal(not w and not [e for e in log if e[0][-1] == 'makedirs'])), 'nothing is written otherwise')
        if w:
            e = w[0]
            target = e[1][0] if e[0][-1] == 'savefig' and e[1] else e[2].get('filename', e[2].get('fname', e[1][1] if len(e[1]) > 1 else None))
            ext = '.png' if e[0][-1] == 'savefig' else '.html'
            ctx.prove(zb(interp.zraw(interp.eq(target, SS(z3.Concat(path.z, z3.StringVal(ext)))))), 'the file is the path with its extension')
        ctx.prove(len(made) <= 1, 'one figure')
        for kind, b in made:
            ctx.prove((png if kind == 'png' else z3.Or(html, jup)), 'the library of the format')
            ctx.prove(zb(interp.zraw(interp.eq(b['nrows'], b['nrows']))), 'rows')
            nr, nc = interp.force(b['nrows']), interp.force(b['ncols'])
            srcs = b['sources']
            a = as_array(srcs)
            n = a.n if a is not None else len(srcs)
            ctx.prove(zb(zi(nr) >= 1), 'a row')
            ctx.prove(zb(zi(nc) >= 1), 'a column')
            ctx.prove(zb(zi(nr) * zi(nc) >= zi(n)), 'the grid has room for every source')
            several = interp.truth(b['subplots'])
            if source:
                i, j = ctx.fresh(I, 'i'), ctx.fresh(I, 'j')
                sp.touch(i)
                sp.touch(j)
                s = cols['source']
                if several:
                    act = zb(band(sp.in_range(i), cols['is_actuals'].get(i)))
                    ctx.prove(z3.Implies(act, exists_in(a, s.get(i))), 'each source has a cell')
                else:
                    ctx.prove(z3.Implies(zb(band(sp.in_range(i), sp.in_range(j))), zb(cell_same(s.get(i), s.get(j)))), 'one cell only for a single source')


def exists_in(a, v):
    return zb(arrays.exists(a.space, lambda k: cell_same(a.get(k), v)))


for _f in ('png', 'html', 'jupyter'):
    plot('sources, %s' % _f, True, _f)
plot('no source column', False)


DRAW = ('plot', 'scatter', 'fill_between', 'bar', 'step', 'errorbar', 'axvline', 'axhline', 'vlines', 'plot_date')


def same_rows(ctx, name, got, sp, src, cond, col_):
    """got: the values of col_ in the rows with cond, in order"""
    want, at = lib_pd.subset(sp, cond, 'drawn')
    got = as_array(got)
    ctx.prove(got is not None, name + ': an array')
    if got is None:
        return
    ctx.prove(zb(beq(got.n, want.n)), name + ': as many points as rows')
    i = ctx.fresh(I, 'i')
    want.touch(i)
    got.space.touch(i)
    ctx.prove(z3.Implies(zb(want.in_range(i)), zb(cell_same(got.get(i), col_.get(at(i))))), name)


def draw(lib, k, nrows, ncols, pi=False):
    @unit('C23', '%s figure of %s%s' % (lib, '%d sources' % k if k else 'one source', ', intervals' * pi), seconds=90)
    def u(ctx):
        m, log = boot()
        for nm in ('_matplotlib_imported', '_plotly_imported', '_ipython_imported'):
            m.vars[nm] = True
        sp, cols, df = table(source=bool(k), pi=pi)
        no_weight(ctx, sp, cols)
        names = ['source%d' % i for i in range(k)] if k else ['y']
        f = need('fp._%s_forecast_create' % lib)
        n0 = len(log)
        kw = dict(include_interval=True) if pi else {}
        no_raise(f, lib, df, bool(k), names, nrows, ncols, **kw)
        same_table(ctx, df, sp, cols)
        cells = {}
        if lib == 'matplotlib':
            for path, args, kws, out in log:
                if path[0] == 'axes' and path[-1] in DRAW:
                    cells.setdefault(tuple(interp.concretize(x) if not isinstance(x, int) else x for x in path[1]), []).append((path[-1], args, kws))
            base = 0
        else:
            made = {}
            for path, args, kws, out in log:
                if path[0] == 'go':
                    made[id(out)] = kws
            for path, args, kws, out in log:
                if path[-1] in ('add_trace', 'append_trace'):
                    t, r, c = [kws.get(nm, args[i] if len(args) > i else None) for i, nm in enumerate(('trace', 'row', 'col'))]
                    if id(t) not in made:
                        raise Unsupported('a trace that is not known')
                    cells.setdefault((r, c), []).append(('trace', [made[id(t)].get('x'), made[id(t)].get('y')], made[id(t)]))
                elif path[-1] in ('add_traces', 'add_scatter', 'add_shape', 'add_vline'):
                    raise Unsupported(path[-1])
            base = 1
        ctx.prove(len(cells) == len(names), 'a cell per source, no other is drawn on')
        ctx.prove(all(base <= r < nrows + base and base <= c < ncols + base for r, c in cells), 'cells of the grid')
        order = sorted(cells)
        for j, (nm, cell) in enumerate(zip(names, order)):
            if (k > 3 or k > 1 and pi and lib == 'plotly') and j != k - 1:
                continue            # the rows of every source are compared with up to three sources
            def cond(i, act, nm=nm):
                a = cols['is_actuals'].get(i)
                a = zb(a) if act else z3.Not(zb(a))
                if not k:
                    return a
                return z3.And(a, cols['source'].get(i).z == z3.StringVal(nm))
            lines = [d for d in cells[cell] if d[0] in ('plot', 'trace')]
            ctx.prove(len(lines) >= 2, 'actuals and forecast are drawn')
            if len(lines) < 2:
                continue
            for (act, what), (_, a, kws) in zip(((True, 'actuals'), (False, 'forecast')), lines):
                same_rows(ctx, '%s of source %d, dates' % (what, j), a[0], sp, None, lambda i, act=act: cond(i, act), cols['date'])
                same_rows(ctx, '%s of source %d, values' % (what, j), a[1], sp, None, lambda i, act=act: cond(i, act), cols['y'])
            if pi and lib == 'plotly':
                ctx.prove(len(lines) == 6, 'four limits')
                for q, (_, a, kws) in zip(('q5', 'q95', 'q20', 'q80'), lines[2:]):
                    same_rows(ctx, '%s of source %d, dates' % (q, j), a[0], sp, None, lambda i: cond(i, False), cols['date'])
                    same_rows(ctx, '%s of source %d' % (q, j), a[1], sp, None, lambda i: cond(i, False), cols[q])
            elif pi:
                fills = [d for d in cells[cell] if d[0] == 'fill_between']
                ctx.prove(len(fills) == 2, 'two intervals')
                for (lo, hi), (_, a, kws) in zip((('q5', 'q95'), ('q20', 'q80')), fills):
                    w = as_array(kws.get('where'))
                    i = ctx.fresh(I, 'i')
                    sp.touch(i)
                    w.space.touch(i)
                    for what, got, want in (('dates', a[0], cols['date']), ('lower', a[1], cols[lo]), ('upper', a[2], cols[hi])):
                        got = as_array(got)
                        ctx.prove(zb(beq(got.n, sp.n)), '%s of all rows' % what)
                        ctx.prove(z3.Implies(zb(sp.in_range(i)), zb(cell_same(got.get(i), want.get(i)))), what)
                    shown = z3.And(cond(i, False), z3.Not(zb(isnan(cols[lo].get(i)))), z3.Not(zb(isnan(cols[hi].get(i)))))
                    ctx.prove(z3.Implies(zb(sp.in_range(i)), zb(w.get(i)) == shown), 'the interval is filled at the forecast rows of the source')
            else:
                ctx.prove(len(lines) == 2 and len(cells[cell]) == 2, 'nothing else is drawn')


def no_weight(ctx, sp, cols):
    """precondition: no model is called 'weight' (rows of that name are left out of png plots)"""
    sp.add_fact(lambda i: cols['model'].get(i).z != z3.StringVal('weight'))


for _lib in ('matplotlib', 'plotly'):
    draw(_lib, 0, 1, 1)
    draw(_lib, 0, 1, 1, True)
    draw(_lib, 2, 2, 1)
    draw(_lib, 2, 2, 1, True)
    draw(_lib, 3, 2, 2)
    draw(_lib, 4, 2, 2)
    draw(_lib, 5, 3, 2)
