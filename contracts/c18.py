"""C18 no call writes to what it is given: a frame condition. Every object reachable from the arguments (tables and their columns and index,
lists, arrays, models) carries the ghost fact 'written on this path'; the units prove it false on every path, and the engine refuses any path
that writes to an object or a global of the modules. A call that writes nowhere and reads only its arguments gives the same result again."""
from dv.spec import *
from dv import loops
from contracts.single import Single
from contracts.fit_common import Fit


class Frame:
    def __init__(self, **roots):
        # objects that exist before the call
        C().any_set_order = True
        self.roots = {k: (v, list(reach(v).values())) for k, v in roots.items()}
        self.written = []
        C().loop_guards.append(self.written)

    def done(self):
        ctx = C()
        ctx.loop_guards.remove(self.written)
        ids = set(map(id, self.written))
        for k, (v, objs) in self.roots.items():
            bad = [o for o in objs if id(o) in ids]
            ctx.prove(not bad, 'nothing written to %s%s' % (k, ''.join(' (%s)' % type(o).__name__ for o in bad[:1])))
        w = ctx.__dict__.get('boot_writes', []) + ctx.__dict__.get('global_writes', [])
        ctx.prove(not w, 'nothing written to the modules')


def reach(v):
    class E:
        vars = dict(v=v)
        parent = None
    return loops.reachable(E)


def table(source=False, weight=True, date=True, x=True):
    sp = space(size('n', 0), 'rows')
    cols = {}
    if date:
        cols['date'] = dates('date', sp)
    if source:
        cols['source'] = vec('source', sp, dtype='str')
    if x:
        cols['x'] = vec('x', sp)
    cols['y'] = vec('y', sp, nan=True)
    if weight:
        cols['weight'] = vec('weight', sp, nan=True)
    return frame(sp, **cols)


def norm(name, seconds=60, kw=None, **t):
    @unit('C18', 'normalize_df, %s' % name, seconds=seconds)
    def u(ctx):
        ctx.any_set_order = True
        df = table(**t)
        fr = Frame(df=df)
        no_raise(need('fc.normalize_df'), 'normalize_df', df, **(kw or {}))
        fr.done()


norm('dates', x=False)
norm('dates and x')
norm('nothing but values', date=False, x=False, weight=False)
norm('sources', source=True, x=False)
norm('sources, given x', source=True)
norm('renamed', kw=dict(col_name_x='weight', col_name_weight='x', col_name_date='date'), source=True)


def fits(name, weight, date, dup, tier='quick', **kw):
    @unit('C18', 'fit_model, %s' % name, seconds=60 if tier == 'quick' else 400, tier=tier)
    def u(ctx):
        t = Fit(ctx, weight, date, dup, k=2, validator=True, **kw)
        t.good_model()
        fr = Frame(df=t.df, model=t.m)
        t.run()
        fr.done()


fits('dates and weights', True, True, False)
fits('no dates', False, False, False)
fits('repeated x', False, False, True, tier='thorough')
fits('without caches', True, True, False, use_cache=False)


def single(name, run=None, **kw):
    @unit('C18', 'run_forecast_single, %s' % name, seconds=120)
    def u(ctx):
        t = Single(ctx, literal=True, **kw)
        L = dict(trend=list(t.trend), season=list(t.season), naive=list(t.naive))
        fr = Frame(df=t.df, **dict(L, models=[t.trend, t.season, t.naive]))
        more = dict(run or {})
        if more.pop('start', False):
            more['date_start_actuals'] = stamp('date_start_actuals')
        no_raise(need('fc.run_forecast_single'), 'run_forecast_single', t.df, L['trend'], L['season'], source_id='s', l_model_naive=L['naive'], **more)
        fr.done()


single('all fits', dict(include_all_fits=True, simplify_output=False), n_trend=2, weight=True)
single('best fit', dict(simplify_output=True), n_trend=2, n_season=1)
single('no dates', dict(include_all_fits=True), n_trend=1, date=False)
single('later start', dict(start=True), n_trend=1, weight=True)


@unit('C18', 'get_list_model', seconds=30)
def lm(ctx):
    a = [gen_model('t%d' % i, k=1, name='t%d' % i) for i in range(2)]
    b = [gen_model('s%d' % i, k=1, name='s%d' % i) for i in range(2)]
    for how in ('add', 'mult', 'both'):
        fr = Frame(trend=a, season=b)
        no_raise(need('fc.get_list_model'), 'get_list_model', a, b, how)
        fr.done()


@unit('C18', 'get_l_model_auto_season', seconds=90)
def auto(ctx):
    sp = space(size('n', 0), 'rows')
    d = dates('date', sp)
    sorted_fact(d)
    y, w = [gen_model('y0', k=1, name='y0')], [gen_model('w0', k=1, name='w0')]
    fr = Frame(dates=d, yearly=y, weekly=w)
    no_raise(need('fm.get_l_model_auto_season'), 'get_l_model_auto_season', lib_pd.PSeries(d), l_season_yearly=y, l_season_weekly=w)
    fr.done()


@unit('C18', 'aggregation of results', seconds=30)
def agg(ctx):
    from contracts.c17 import results
    sp = space(size('results', 1), 'results')
    j = ctx.fresh(I, 'j')
    sp.touch(j)
    ctx.assume(zb(sp.in_range(j)))
    d, t = results('j', string('source'))
    l = loops.MapSeq(sp, j, d, 0, None)
    fr = Frame(result=d)
    no_raise(need('fc.aggregate_forecast_dict_results'), 'aggregate_forecast_dict_results', l)
    fr.done()


def tables_in(name, path, seconds=60, tier='quick', **kw):
    @unit('C18', name, seconds=seconds, tier=tier)
    def u(ctx):
        ctx.any_set_order = True
        df = table(x=True)
        fr = Frame(df=df)
        no_raise(need(path), path, df, **kw)
        fr.done()


tables_in('detect_freq of a table', 'mu.detect_freq')
def axis(name, freq, numeric=False):
    @unit('C18', 'get_s_x_extrapolate and extrapolate_model, %s' % name, seconds=60)
    def u(ctx):
        m = gen_model('m', k=2, name='m')
        p = vec('params', Space(2))
        a, b = (real('start'), real('end')) if numeric else (stamp('start'), stamp('end'))
        fr = Frame(params=p, model=m)
        no_raise(need('mu.get_s_x_extrapolate'), 'get_s_x_extrapolate', a, b, model=m, freq=freq, extrapolate_years=real('years'), x_start_actuals=real('x0'))
        no_raise(need('fc.extrapolate_model'), 'extrapolate_model', m, p, a, b, freq=freq, extrapolate_years=real('years'), x_start_actuals=real('x0'))
        fr.done()


axis('days', 'D')
axis('months', 'M')
axis('numbers', None, True)


# ---------------------------------------------------------------- the predefined models and models built from others

ARRAYS = dict(eval='evaluation', cache='caches', init='initial guess', bounds='bounds', valid='validation')


def parts(what, nm, k, build=None, extra=None):
    @unit('C18', '%s of %s' % (ARRAYS[what], nm), seconds=100)
    def u(ctx):
        m = need('fm.' + nm) if build is None else build()
        sp = space(size('n', 1), 'samples')
        x, y, d = vec('a_x', sp), vec('a_y', sp), dates('a_date', sp)
        di = lib_pd.as_index(vec('a_date2', sp, dtype='time'), None)
        p = vec('params', Space(k if k is not None else attr(m, 'n_params')))
        fr = Frame(a_x=x, a_y=y, a_date=d, dates=di, params=p, model=m)
        if what == 'eval':
            for mult in (False, True):
                no_raise(m, nm, x, d, p, is_mult=mult)
        elif what == 'cache':
            no_raise(attr(m, 'init_cache'), nm, x, d)
        elif what in ('init', 'bounds'):
            # as fit_model calls them: sorted x, enough samples, accepted by the model
            ctx.assume(zi(sp.n) >= attr(m, 'n_params') + 2)
            sorted_fact(x)
            for i in range(4):
                sp.touch(z3.IntVal(i))
            try:
                if not interp.truth(call(attr(m, 'validate_input'), [x, y, di], {})):
                    return
            except PyRaise:
                return
            if what == 'init':
                no_raise(attr(m, 'f_init_params'), nm, x, y, di if nm == 'model_season_month' else d)
            else:
                no_raise(attr(m, 'f_bounds'), nm, x, y, d)
        else:
            try:
                call(attr(m, 'validate_input'), [x, y, d], {})
            except PyRaise:
                pass
        fr.done()


PLAIN = ['model_constant', 'model_linear', 'model_linear_nondec', 'model_quasilinear', 'model_exp', 'model_decay', 'model_step', 'model_two_steps', 'model_sigmoid_step',
         'model_sigmoid', 'model_ramp', 'model_season_wday', 'model_season_month', 'model_season_month_old', 'model_season_fourier_yearly', 'model_calendar_uk', 'model_calendar_us',
         'model_calendar_ita', 'model_dummy_christmas', 'model_dummy_month_start', 'model_season_wday_2']
for _n in PLAIN:
    for _w in ARRAYS:
        parts(_w, _n, None)


def composed(ctx_name, f):
    for w in ('eval', 'init', 'bounds', 'valid', 'cache'):
        parts(w, ctx_name, None, build=f)


two = lambda: (gen_model('m1', k=1, name='m1'), gen_model('m2', k=2, name='m2'))
composed('a sum of two models', lambda: interp.binop('+', *two()))
composed('a product of two models', lambda: interp.binop('*', *two()))


@unit('C18', 'fixing and simplifying a model', seconds=40)
def fixing(ctx):
    m = gen_model('m', k=2, name='m')
    sp = space(size('n', 1), 'samples')
    x, y, d = vec('a_x', sp), vec('a_y', sp), dates('a_date', sp)
    l = [real('fixed'), sf(float('nan')) if False else SF(z3.RealVal(0), z3.BoolVal(True))]
    fr = Frame(a_x=x, a_y=y, a_date=d, model=m, params_fixed=l)
    r = no_raise(need('fm.fix_params_fmodel'), 'fix_params_fmodel', m, l)
    s = no_raise(need('fm.simplify_model'), 'simplify_model', m, x, y, d)
    no_raise(need('fm.get_fixed_model'), 'get_fixed_model', m, SArr.of([real('p0'), real('p1')], 'float'))
    fr.done()
    q = vec('params', Space(1))
    fr = Frame(a_x=x, a_y=y, a_date=d, model=m, params=q, given=l)
    no_raise(attr(r, 'f_model'), 'fixed model', x, d, q, is_mult=False)
    fr.done()
