"""run_forecast_single on an arbitrary table with arbitrary candidate models; the functions it calls are represented by
their contracts only (fit_model: C09/C10, extrapolate_model: C12, get_pi: C15, interpolate_df: C14, detect_freq: C13)."""
from dv.spec import *

S = z3.StringSort()


class Single:
    def __init__(self, ctx, n_trend=2, n_season=0, date=True, weight=False, names_differ=True, literal=False):
        self.literal = literal      # literal names: strings cost the solver most
        self.ctx = ctx
        ctx.any_set_order = True
        self.sp = sp = space(size('n', 1), 'rows')
        self.x, self.y = vec('x', sp), vec('y', sp, nan=True)
        self.d = dates('date', sp) if date else None
        self.w = vec('weight', sp, nan=True) if weight else None
        cols = {}
        if date:
            cols['date'] = self.d
        cols.update(x=self.x, y=self.y)
        if weight:
            cols['weight'] = self.w
        self.df = frame(sp, **cols)
        self.trend = [gen_model('t%d' % i, k=1, name=self.lit('trend%d' % i)) for i in range(n_trend)]
        self.season = [gen_model('s%d' % i, k=1, name=self.lit('season%d' % i)) for i in range(n_season)]
        self.naive = [gen_model('nv', k=1, name=self.lit('naive'))]
        self.fits, self.exts, self.pis, self.interp = [], [], [], []
        stub('fc.fit_model', self.fit)
        stub('fc.extrapolate_model', self.extrapolate)
        stub('fc.get_pi', self.pi)
        stub('mu.interpolate_df', self.interpolate)
        stub('mu.detect_freq', self.freq)
        if names_differ and not literal:
            ms = self.trend + self.season + self.naive
            ctx.assume(z3.Distinct(z3.StringVal('actuals'), *[attr(m, 'name').z for m in ms]))

    def lit(self, nm):
        return nm if self.literal else None

    def text(self, nm):
        return nm if self.literal else SS(C().fresh(S, nm))

    def freq(self, b):
        f = self.text('freq')
        self.freq_ = f
        return f

    def interpolate(self, b):
        self.interp.append(b)
        t = b['df']
        sp = Space(C().fresh(I, 'ni'), 'interpolated')
        C().assume(zb(band(sp.n >= t.space.n)))
        cols = {}
        for c, a in t.cols.items():
            cols[c] = vec('i_' + c, sp, dtype='time' if a.dtype == 'time' else 'float', nan=a.dtype != 'time')
        return frame(sp, **cols)

    def fit(self, b):
        ctx = C()
        k = len(self.fits)
        m = b['model']
        rec = dict(args=b, model=m, is_fit=SB(ctx.fresh(B, 'is_fit%d' % k)), cost=SF(ctx.fresh(R, 'cost%d' % k), ctx.fresh(B, 'cost_null%d' % k)),
                   aic=SF(ctx.fresh(R, 'aic%d' % k), ctx.fresh(B, 'aic_null%d' % k), z3.If(ctx.fresh(B, 'aic_inf%d' % k), z3.IntVal(-1), z3.IntVal(0))),
                   long=self.text('source_long%d' % k), params=vec('params%d' % k, Space(1)))
        # a fitted model has a score (C10)
        ctx.assume(z3.Implies(rec['is_fit'].z, z3.Not(rec['aic'].nan)))
        ctx.assume(z3.Implies(z3.Not(rec['is_fit'].z), rec['aic'].nan))
        self.fits.append(rec)
        nm = attr(m, 'name')
        row = [b['source'], nm, self.text('weights'), self.text('range'), b['freq'], rec['is_fit'], rec['cost'], rec['aic'], SF(ctx.fresh(R, 'fit_time')),
               self.text('params_str'), self.text('status'), rec['long'], rec['params'], m]
        cols = ['source', 'model', 'weights', 'actuals_x_range', 'freq', 'is_fit', 'cost', 'aic_c', 'fit_time', 'params_str', 'status', 'source_long', 'params', 'model_obj']
        md = lib_pd.pd_frame([row], columns=list(cols))
        oc = ['source', 'model', 'success', 'params_str', 'cost', 'optimality', 'iterations', 'status', 'jac_evals', 'message', 'source_long', 'params']
        oi = lib_pd.pd_frame([[b['source'], m, rec['is_fit'], row[9], rec['cost'], rec['cost'], rec['cost'], row[10], rec['cost'], row[10], rec['long'], rec['params']]], columns=oc)
        d = interp.IDict()
        d.put('metadata', md)
        d.put('optimize_info', oi)
        return d

    def extrapolate(self, b):
        k = len(self.exts)
        sp = Space(C().fresh(I, 'nf%d' % k), 'axis')
        C().assume(sp.n >= 0)
        ix = vec('axis%d' % k, sp, dtype='time' if self.d is not None else 'float', kind='dtindex' if self.d is not None else 'index')
        sorted_fact(ix, strict=True)
        y = vec('fcast%d' % k, sp, nan=True)
        self.exts.append(dict(args=b, sp=sp, ix=ix, y=y))
        s = lib_pd.PSeries(y, lib_pd.as_index(ix, 'date'), 'y')
        return lib_pd.f_copy(lib_pd.s_to_frame(s))

    def pi(self, b):
        self.pis.append(b)
        sp = Space(C().fresh(I, 'npi'), 'pi')
        C().assume(sp.n >= 0)
        return frame(sp, y=vec('pi_y', sp))

    def run(self, **kw):
        kw.setdefault('simplify_output', False)
        kw.setdefault('l_model_naive', list(self.naive))
        self.source = 'the source' if self.literal else string('source_id')
        return no_raise(need('fc.run_forecast_single'), 'run_forecast_single', self.df, list(self.trend), list(self.season),
                        source_id=self.source, **kw)


def truth_z(v):
    v = interp.force(v)
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SB):
        return zb(v.z)
    raise Unsupported('truth of %r' % (v,))


def str_z(v):
    v = interp.force(v)
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, SS):
        return v.z
    raise Unsupported('name %r' % (v,))


def row_at(df, i, cols):
    return {c: as_array(interp.getitem(df, c)).get(i) for c in cols}


def rows_of(df, cols):
    n = df.space.n
    if not isinstance(n, int):
        raise Unsupported('a symbolic number of rows')
    return [row_at(df, i, cols) for i in range(n)]


def prove_exists(sp, cond, name, hyp=True):
    """existence, by the rows of sp that are linked to the rows inspected so far"""
    alts = []
    for k, (i, h) in list(sp.touched().items()):
        alts.append(z3.And(zb(sp.in_range(i)), cond(i)))
    C().prove(z3.Implies(zb(hyp), z3.Or(*alts) if alts else z3.BoolVal(False)), name)


def first_of(sp, pred, key, later=False):
    """a row of least (greatest) key among the rows with pred, by its defining property; (row, some row has pred)"""
    ctx = C()
    r, some = ctx.fresh(I, 'first'), ctx.fresh(B, 'some')
    sp.touch(r)
    ctx.assume(z3.Implies(some, zb(band(sp.in_range(r), pred(r)))))

    def fact(i):
        a, b = (key(i), key(r)) if later else (key(r), key(i))
        return z3.Implies(zb(pred(i)), z3.And(some, zb(interp.zraw(interp.scalar_cmp('<=', a, b)))))
    sp.add_fact(fact)
    return r, some
