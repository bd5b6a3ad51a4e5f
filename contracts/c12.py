"""C12 the forecast axis and the x on it."""
from dv.spec import *
from contracts.single import *


def calls(name, tier='quick', start=False, outliers=False, **kw):
    @unit('C12', 'what run_forecast_single extrapolates, %s' % name, seconds=120, tier=tier)
    def u(ctx):
        t = Single(ctx, **kw)
        sp = t.sp
        date = t.d is not None
        more = {}
        if start:
            st = stamp('date_start_actuals')
            more['date_start_actuals'] = st
        years = real('extrapolate_years')
        t.run(include_all_fits=True, extrapolate_years=years, **more)
        key = t.d if date else t.x
        kept = (lambda i: t.d.get(i).z >= st.z) if start else (lambda i: True)

        def used(i):
            c = kept(i)
            if t.w is not None:
                w = t.w.get(i)
                c = band(c, bnot(isnan(w)), f_lt(sf(0.0), w))
            return c
        fi, some = first_of(sp, used, lambda i: key.get(i))
        xi, _ = first_of(sp, used, lambda i: t.x.get(i))
        la, any_ = first_of(sp, kept, lambda i: key.get(i), later=True)
        h = z3.And(some, any_)
        eq = lambda a, b: z3.Implies(h, zb(cell_same(a, b)))
        for e in t.exts:
            a = e['args']
            ctx.prove(eq(a['date_start_actuals'], key.get(fi)), 'the axis starts at the first actual that is fitted')
            ctx.prove(eq(a['date_end_actuals'], key.get(la)), 'the horizon starts at the last actual')
            ctx.prove(eq(a['x_start_actuals'], t.x.get(xi)), 'x starts at the x of the first actual that is fitted')
            ctx.prove(zb(cell_same(a['extrapolate_years'], years)), 'the requested horizon')
            ctx.prove(zb(interp.zraw(interp.eq(a['freq'], t.freq_ if date else None))), 'the detected frequency')
        for f in t.fits:
            ctx.prove(zb(interp.zraw(interp.eq(f['args']['freq'], t.freq_ if date else None))), 'the frequency that is reported')


calls('dates', n_trend=1, literal=True)
calls('dates, weights', n_trend=1, weight=True, literal=True)
calls('date_start_actuals', n_trend=1, start=True, weight=True, literal=True)
calls('no dates', n_trend=1, date=False, weight=True, literal=True)


# ---------------------------------------------------------------- the axis

H = DAY // 24
FIXED = {'D': (DAY, 365), 'H': (H, 24 * 365)}
for _w in ('MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT', 'SUN'):
    FIXED['W-' + _w] = (7 * DAY, 52)
CAL = {'M': ('months', 12), 'MS': ('months', 12), 'Q': ('months', 12), 'Y': ('years', 1), 'YS': ('years', 1)}
WD = list(FIXED)[2:]


def times_years(years, units):
    """years * units rounded down, years >= 0"""
    k = C().fresh(I, 'periods')
    C().assume(z3.And(z3.ToReal(k) <= years.r * units, years.r * units < z3.ToReal(k) + 1, k >= 0))
    return k


def axis_of(ctx, s, start, x0, scaled):
    """index of the axis, and the obligation on x along it"""
    ix, a = as_array(attr(s, 'index')), as_array(s)
    i = ctx.fresh(I, 'i')
    ix.space.touch(i)
    a.space.touch(i)
    inr = zb(ix.space.in_range(i))
    t = ix.get(i).z
    el = z3.ToReal((t - start.z) / DAY)
    want = SF(x0.r + el)
    if scaled is not None:      # documented: these models are fitted and extrapolated on x / 100
        want = SF(z3.If(scaled, want.r / 100, want.r))
    ctx.prove(zb(beq(ix.n, a.n)), 'one x per date')
    ctx.prove(z3.Implies(inr, zb(cell_same(a.get(i), want))), 'x is the x of the first actual plus the elapsed days')
    return ix, i, inr


def make_axis(ctx, freq, model):
    start, end, x0, years = stamp('start'), stamp('end'), real('x_start_actuals'), real('extrapolate_years')
    ctx.assume(years.r >= 0)
    kw, scaled = {}, None
    if model:
        m = gen_model('m')
        nm = attr(m, 'name').z
        kw['model'] = m
        scaled = z3.Or(nm == z3.StringVal('sigmoid'), nm == z3.StringVal('logistic'))
    if freq is not None:
        kw['freq'] = freq
    run_ = lambda: no_raise(need('mu.get_s_x_extrapolate'), 'get_s_x_extrapolate', start, end, extrapolate_years=years, x_start_actuals=x0, **kw)
    return start, end, x0, years, scaled, run_


def fixed(freq, model=False):
    @unit('C12', 'axis of frequency %s%s' % (freq, ' for any model' if model else ''), seconds=60)
    def u(ctx):
        start, end, x0, years, scaled, run_ = make_axis(ctx, freq, model)
        step, per_year = FIXED[freq or 'W-MON']
        m = integer('periods between first and last actual', 0)
        ctx.assume(end.z == start.z + m.z * step)
        if freq in WD:
            ctx.assume(weekday_of(start.z) == WD.index(freq))
        k = times_years(years, per_year)
        s = run_()
        ix, i, inr = axis_of(ctx, s, start, x0, scaled)
        ctx.prove(zb(beq(ix.n, m.z + k + 1)), 'as many points as periods up to the last actual plus the horizon')
        ctx.prove(z3.Implies(inr, ix.get(i).z == start.z + i * step), 'starts at the first actual and advances by one period')


def weekday_of(t):
    return (t / DAY + 3) % 7


def cal(freq, model=False):
    @unit('C12', 'axis of frequency %s%s' % (freq, ' for any model' if model else ''), seconds=60)
    def u(ctx):
        start, end, x0, years, scaled, run_ = make_axis(ctx, freq, model)
        ctx.assume(end.z >= start.z)
        un, per_year = CAL[freq]
        k = times_years(years, 4 if freq == 'Q' else per_year)
        s = run_()
        ix, i, inr = axis_of(ctx, s, start, x0, scaled)
        anchor = lib_pd.UF('is_anchor_' + freq, I, B)
        last = lib_pd.Offset({un: mki(3 * k if freq == 'Q' else k)}).sv_offset(end, '+')
        day = lambda t: t / DAY
        t = ix.get(i).z
        ctx.prove(z3.Implies(inr, z3.And(anchor(day(t)), t >= start.z, t <= last.z, t % DAY == start.z % DAY)),
                  'every point is a date of the frequency from the first actual up to the horizon')
        j = i + 1
        ix.space.touch(j)
        ctx.prove(z3.Implies(z3.And(inr, zb(ix.space.in_range(j))), ix.get(j).z > t), 'increasing')
        find = getattr(ix.space, 'find_day', None)
        if find is None:
            raise Unsupported('the axis is not a date range')
        d = ctx.fresh(I, 'date')
        p = find(d)
        want = z3.And(anchor(d), d * DAY + start.z % DAY >= start.z, d * DAY + start.z % DAY <= last.z)
        ctx.prove(z3.Implies(want, z3.And(zb(ix.space.in_range(p)), ix.get(p).z == d * DAY + start.z % DAY)), 'no date of the frequency is missing')
        find(day(start.z))
        ix.space.touch(0)
        ctx.prove(z3.Implies(anchor(day(start.z)), z3.And(zb(ix.space.in_range(0)), ix.get(0).z == start.z)), 'starts at the first actual')


for _f in [None] + list(FIXED):
    fixed(_f)
for _f in CAL:
    cal(_f)
fixed('D', True)
cal('MS', True)


@unit('C12', 'axis without dates', seconds=40)
def num(ctx):
    start, x0, years = real('start'), real('x_start_actuals'), real('extrapolate_years')
    m = integer('steps', 0)
    ctx.assume(years.r >= 0)
    end = SF(start.r + z3.ToReal(m.z))
    k = times_years(years, 100)
    s = no_raise(need('mu.get_s_x_extrapolate'), 'get_s_x_extrapolate', start, end, extrapolate_years=years, x_start_actuals=x0)
    ix, a = as_array(attr(s, 'index')), as_array(s)
    ctx.prove(zb(beq(ix.n, m.z + k + 1)), 'as many points as steps up to the last actual plus the horizon')
    ctx.prove(zb(beq(ix.n, a.n)), 'one x per point')
    i = ctx.fresh(I, 'i')
    ix.space.touch(i)
    a.space.touch(i)
    inr = zb(ix.space.in_range(i))
    ctx.prove(z3.Implies(inr, zb(cell_same(ix.get(i), SF(start.r + z3.ToReal(i))))), 'starts at the first actual and advances by one')
    ctx.prove(z3.Implies(inr, zb(cell_same(a.get(i), SF(x0.r + z3.ToReal(i))))), 'x advances by one per step')


@unit('C12', 'weekly axis on another weekday is refused', seconds=40)
def refused(ctx):
    start, end = stamp('start'), stamp('end')
    ctx.assume(weekday_of(start.z) != 0)
    ctx.prove(raises(need('mu.get_s_x_extrapolate'), AssertionError, start, end, freq='W-MON'), 'refused')


def extra(name, date=True, k=2, actuals=False):
    @unit('C12', 'extrapolated values are the model on the axis, %s' % name, seconds=40)
    def u(ctx):
        sp = Space(size('n', 0), 'axis')
        ix = vec('axis', sp, dtype='time' if date else 'float', kind='dtindex' if date else 'index')
        x = vec('x', sp)
        calls_ = []

        def ax(b):
            calls_.append(b)
            return lib_pd.PSeries(x, lib_pd.as_index(ix, 'date' if date else None))
        stub('mu.get_s_x_extrapolate', ax)
        m = gen_model('m', k=k)
        p = vec('params', Space(k))
        start, end = (stamp('start'), stamp('end')) if date else (real('start'), real('end'))
        years, x0, fr = real('extrapolate_years'), real('x_start_actuals'), string('freq')
        more = {}
        if actuals:
            sa = Space(size('na', 1), 'actuals')
            more['df_actuals'] = frame(sa, x=vec('xa', sa), y=vec('ya', sa, nan=True))
        out = no_raise(need('fc.extrapolate_model'), 'extrapolate_model', m, p, start, end, freq=fr, extrapolate_years=years, x_start_actuals=x0, **more)
        ctx.prove(len(calls_) == 1 and columns(out) == ['y'], 'one table of values')
        b = calls_[0]
        ctx.prove(b['model'] is m, 'the axis of the model')
        for nm, v in (('date_start_actuals', start), ('date_end_actuals', end), ('extrapolate_years', years), ('x_start_actuals', x0), ('freq', fr)):
            ctx.prove(zb(interp.zraw(interp.eq(b[nm], v))), 'the requested axis: %s' % nm)
        want = call(m.gen[0], [x, ix, p], dict(is_mult=False, **more))
        w = as_array(want)
        post_elements(interp.getitem(out, 'y'), sp, lambda i: w.get(i), 'the model on the axis')
        post_elements(attr(out, 'index'), sp, lambda i: ix.get(i), 'the dates of the axis')


extra('dates')
extra('no dates', date=False)
extra('with actuals', actuals=True)
