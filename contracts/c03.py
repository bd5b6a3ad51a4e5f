"""C03 initial guesses and bounds: one entry per parameter, ordered bounds, the guess between them."""
from dv.spec import *
from dv import core


def data(ctx, k, nan_y=False):
    n = size('n', k + 2)
    sp = space(n, 'samples')
    x, y, d = vec('a_x', sp), vec('a_y', sp), lib_pd.as_index(vec('a_date', sp, dtype='time'), None)
    sorted_fact(x)
    for i in range(4):      # every series has at least its first samples
        sp.touch(z3.IntVal(i))
    return sp, x, y, d


def lengths(v, k, name):
    v = lib_np.arr(v)
    C().prove(zb(beq(v.n, k)), name + ': one entry per parameter')
    return [v.get(j) for j in range(k)] if isinstance(k, int) else v


def le(a, b):
    return zb(f_le(sf(a), sf(b)))


def judge(ctx, m, k, i0, bounds, default=False):
    i0 = lengths(i0, k, 'initial guess')
    if hasattr(bounds, 'row'):
        ctx.prove(zb(beq(bounds.n0, 2)), 'minimum and maximum bounds')
        bounds = [bounds.row(0), bounds.row(1)]
    ctx.prove(len(bounds) == 2, 'minimum and maximum bounds')
    lo, hi = lengths(bounds[0], k, 'minimum'), lengths(bounds[1], k, 'maximum')
    for j in range(k):
        ctx.prove(le(lo[j], hi[j]), 'ordered bounds of parameter %d' % j)
        ctx.prove(z3.And(le(lo[j], i0[j]), le(i0[j], hi[j])), 'the guess of parameter %d lies between its bounds' % j)
        if default:
            ctx.prove(z3.And(zb(f_lt(sf(0.0), sf(i0[j]))), le(i0[j], 1.0)), 'default guess in (0, 1]')
            ctx.prove(z3.And(zb(f_eq(sf(lo[j]), sf(float('-inf')))), zb(f_eq(sf(hi[j]), sf(float('inf'))))), 'unlimited bounds')


MODELS = {'model_null': 0, 'model_constant': 1, 'model_naive': 0, 'model_snaive_wday': 0, 'model_spike': 3, 'model_linear': 2, 'model_linear_nondec': 2, 'model_quasilinear': 3, 'model_exp': 2, 'model_decay': 3,
          'model_step': 2, 'model_two_steps': 4, 'model_sigmoid_step': 3, 'model_sigmoid': 3, 'model_ramp': 2, 'model_season_wday': 6, 'model_season_month': 11, 'model_season_month_old': 11,
          'model_season_fourier_yearly': 20, 'model_season_wday_2': 1, 'model_calendar_uk': None, 'model_calendar_us': None, 'model_calendar_ita': None, 'model_dummy_christmas': 1, 'model_dummy_month_start': 1}
DEFAULT = ['model_quasilinear', 'model_exp', 'model_sigmoid', 'model_season_wday', 'model_season_month_old']


def accepted(ctx, m, *args):
    """the precondition: the model's own validation accepts the series"""
    try:
        ok = call(attr(m, 'validate_input'), list(args), {})
    except PyRaise:
        raise core.PathEnd()
    if not interp.truth(ok):
        raise core.PathEnd()


def predefined(nm, k, dated, mult):
    @unit('C03', '%s %s dates%s' % (nm, 'with' if dated else 'without', ', multiplicative' if mult else ''), seconds=90)
    def u(ctx):
        m = need('fm.' + nm)
        kk = k if k is not None else attr(m, 'n_params')
        ctx.prove(zb(beq(zi(attr(m, 'n_params')), kk)), 'the number of parameters')
        sp, x, y, d = data(ctx, kk)
        accepted(ctx, m, x, y, d)
        i0 = no_raise(attr(m, 'f_init_params'), nm + ' initial guess', x, y, *([d] if dated else [None]), **(dict(is_mult=True) if mult else {}))
        if mult and nm == 'model_season_month':     # a ratio of means: the mean may be 0
            lengths(i0, kk, 'initial guess')
            return
        judge(ctx, m, kk, i0, no_raise(attr(m, 'f_bounds'), nm + ' bounds', x, y, *([d] if dated else [])), nm in DEFAULT)


def nodata(nm, k):
    @unit('C03', '%s without data' % nm, seconds=30)
    def u(ctx):
        m = need('fm.' + nm)
        kk = k if k is not None else attr(m, 'n_params')
        judge(ctx, m, kk, no_raise(attr(m, 'f_init_params'), nm), no_raise(attr(m, 'f_bounds'), nm), nm in DEFAULT)
        judge(ctx, m, kk, no_raise(attr(m, 'f_init_params'), nm, None, None), no_raise(attr(m, 'f_bounds'), nm, None, None), nm in DEFAULT)


for _n, _k in MODELS.items():
    for _d in (False, True):
        for _m in (False, True):
            predefined(_n, _k, _d, _m)
    nodata(_n, _k)


# ---------------------------------------------------------------- models made by functions, and compositions

MADE = {'get_model_spike_date': lambda: call(need('fm.get_model_spike_date'), [stamp('date_start'), stamp('date_end')], {}),
        'get_model_step_date': lambda: call(need('fm.get_model_step_date'), [stamp('date_start')], {}),
        'a model of one date': lambda: call(need('fm.get_model_dummy'), ['d', '2018-01-03'], {}),
        'a model of a list of dates': lambda: call(need('fm.get_model_from_datelist'), ['d', ['2018-01-03', '2019-02-03']], {}),
        'a fixed model': lambda: call(need('fm.get_fixed_model'), [gen_model('m', k=2), [real('a'), real('b')]], {})}
for _n, _k in (('get_model_spike_date', 1), ('get_model_step_date', 1), ('a model of one date', 1), ('a model of a list of dates', 1), ('a fixed model', 0)):
    @unit('C03', _n, seconds=60)
    def made(ctx, nm=_n, k=_k):
        m = MADE[nm]()
        ctx.prove(zb(beq(zi(attr(m, 'n_params')), k)), 'the number of parameters')
        judge(ctx, m, k, no_raise(attr(m, 'f_init_params'), nm), no_raise(attr(m, 'f_bounds'), nm))
        sp, x, y, d = data(ctx, k)
        accepted(ctx, m, x, y, d)
        for dd in (d, None):
            judge(ctx, m, k, no_raise(attr(m, 'f_init_params'), nm, x, y, dd), no_raise(attr(m, 'f_bounds'), nm, x, y, dd))


@unit('C03', 'default of a model with any number of parameters', seconds=30)
def default(ctx):
    k = size('k', 0)
    f = Gen('f', ['a_x', 'a_date', 'params', 'is_mult'], gen_values('f'), {'is_mult': False})
    m = call(need('fm.ForecastModel'), [string('name'), mki(k), f], {})
    sp, x, y, d = data(ctx, 1)
    for a in ((), (None, None), (x, y), (x, y, None), (x, y, d)):
        i0 = lib_np.arr(no_raise(attr(m, 'f_init_params'), 'default guess', *a))
        b = no_raise(attr(m, 'f_bounds'), 'default bounds', *a)
        ctx.prove(len(b) == 2, 'minimum and maximum')
        j = ctx.fresh(I, 'j')
        for v, nm in ((i0, 'guess'), (b[0], 'minimum'), (b[1], 'maximum')):
            v = v if isinstance(v, interp.SymSeq) else lib_np.arr(v)
            n = v.n if not isinstance(v, interp.SymSeq) else v.n
            ctx.prove(zb(beq(n, k)), 'one %s per parameter' % nm)
        inr = z3.And(j >= 0, j < k)
        i0.space.touch(j)
        v = sf(i0.get(j))
        ctx.prove(z3.Implies(inr, z3.And(zb(f_lt(sf(0.0), v)), le(v, 1.0))), 'default guess in (0, 1]')
        for q, lim in ((b[0], '-inf'), (b[1], 'inf')):
            w = q.get(j) if hasattr(q, 'get') else lib_np.arr(q).get(j)
            ctx.prove(z3.Implies(inr, zb(f_eq(sf(w), sf(float(lim))))), 'unlimited bounds')


for _op in ('+', '*'):
    @unit('C03', 'composition by %s of well-behaved models' % ('sum' if _op == '+' else 'product'), seconds=60)
    def comp(ctx, op=_op):
        """if both models keep the property (also for their multiplicative guess), so does the composition"""
        sp, x, y, d = data(ctx, 3)
        ms = [gen_model('m1', k=1, name='m1'), gen_model('m2', k=2, name='m2')]
        for m, k in zip(ms, (1, 2)):
            bnds, inis = [], []
            mk, ini = m.gen[2].make, m.gen[1].make

            def bounds(b, extra, mk=mk, bnds=bnds, inis=inis, k=k):
                lo, hi = mk(b, extra)
                bnds.append((lo, hi))
                for v in inis:
                    rel(v, lo, hi, k)
                for j in range(k):
                    ctx.assume(le(lo.get(j), hi.get(j)))
                return lo, hi

            def init(b, extra, ini=ini, bnds=bnds, inis=inis, k=k):
                v = ini(b, extra)
                inis.append(v)
                for lo, hi in bnds:
                    rel(v, lo, hi, k)
                return v
            m.gen[2].make, m.gen[1].make = bounds, init
        m = interp.binop(op, *ms)
        for dd in (None, d):
            i0 = no_raise(attr(m, 'f_init_params'), 'initial guess', x, y, dd)
            judge(ctx, m, 3, i0, no_raise(attr(m, 'f_bounds'), 'bounds', x, y, dd))


def rel(v, lo, hi, k):
    for j in range(k):
        C().assume(z3.And(le(lo.get(j), v.get(j)), le(v.get(j), hi.get(j))))
