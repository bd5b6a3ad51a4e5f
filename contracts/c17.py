"""C17 several sources: run_forecast hands each source's rows to run_forecast_single, and joins the results. normalize_df (C11)
and run_forecast_single (C08, C12, C16, C22) are represented by their contracts."""
from dv.spec import *
from dv import loops

TABLES = ('forecast', 'data', 'metadata', 'optimize_info')


def results(tag, source):
    """an arbitrary result of one source: four tables whose rows carry the source"""
    d, t = interp.IDict(), {}
    for k in TABLES:
        sp = Space(C().fresh(I, 'n_%s_%s' % (k, tag)), k)
        C().assume(sp.n >= 0)
        f = frame(sp, source=SArr(sp, lambda i: source, 'obj'), value=vec('%s_%s' % (k, tag), sp, nan=True),
                  model=vec('%s_model_%s' % (k, tag), sp, dtype='str'))
        if k in ('forecast', 'data'):
            f = lib_pd.f_copy(f)
            interp.setitem(f, 'date', lib_pd.PSeries(vec('%s_date_%s' % (k, tag), sp, dtype='time'), f.index))
        d.put(k, f)
        t[k] = f
    return d, t


def joined(ctx, out, parts, name):
    """out holds, for the arbitrary source, exactly the rows of its own table, in order, with all columns"""
    sp = out.space
    p = parts_of(sp)
    if p is None:
        raise Unsupported('a result that is not a concatenation')
    r, q, i = ctx.fresh(I, 'r'), ctx.fresh(I, 'q'), ctx.fresh(I, 'row')
    ctx.prove(set(columns(out)) == set(parts.cols), name + ': all columns')
    sp.touch(r)
    sp.touch(q)
    h = lambda v: z3.And(zb(sp.in_range(v)), zb(origin(sp, v, parts.space)[1]))
    o = lambda v: arrays.iexpr(origin(sp, v, parts.space)[0])
    ctx.prove(z3.Implies(h(r), zb(parts.space.in_range(o(r)))), name + ': rows of that source only')
    ctx.prove(z3.Implies(z3.And(h(r), h(q)), (o(r) < o(q)) == (r < q)), name + ': each row once, in order')
    for c in parts.cols:
        a, b = as_array(interp.getitem(out, c)), as_array(interp.getitem(parts, c))
        ctx.prove(z3.Implies(h(r), zb(cell_same(a.get(r), b.get(o(r))))), name + ': %s' % c)
    parts.space.touch(i)
    alts = [z3.And(h(v), o(v) == i) for v, _ in list(sp.touched().values())]
    ctx.prove(z3.Implies(zb(parts.space.in_range(i)), z3.Or(*alts)), name + ': no row is lost')
    ctx.prove(z3.Implies(zb(sp.in_range(r)), zb(cell_same(as_array(out.index).get(r), mki(r)))), name + ': fresh index')


def multi(name, date=True, weight=False, simplify=False, **kw):
    @unit('C17', name, seconds=60)
    def u(ctx):
        ctx.any_set_order = True
        sp = space(size('n', 1), 'rows')
        cols = dict(x=vec('x', sp), y=vec('y', sp, nan=True))
        if date:
            cols['date'] = dates('date', sp)
        if weight:
            cols['weight'] = vec('weight', sp, nan=True)
        src = vec('source', sp, dtype='str')
        table = frame(sp, source=src, **cols)
        bare = frame(sp, **cols)
        calls, res, norm = [], [], []

        def single(b):
            calls.append(b)
            d, t = results(str(len(calls)), b['source_id'])
            res.append(t)
            return d if not interp.truth(b['simplify_output']) else t['forecast']
        stub('fc.run_forecast_single', single)
        now = [table]

        def normalize(b):
            norm.append(b)
            return now[0]
        stub('fc.normalize_df', normalize)
        given = frame(sp, y=cols['y'])
        opts = dict(l_model_trend=[gen_model('t', k=1, name='trend')], l_model_season=[gen_model('s', k=1, name='season')], date_start_actuals=stamp('date_start_actuals'),
                    extrapolate_years=real('extrapolate_years'), season_add_mult=string('season_add_mult'), include_all_fits=boolean('include_all_fits'),
                    find_outliers=boolean('find_outliers'), l_season_yearly=[gen_model('ye', k=1, name='yearly')], l_season_weekly=[gen_model('we', k=1, name='weekly')],
                    l_model_naive=[gen_model('nv', k=1, name='naive')], l_model_calendar=[gen_model('ca', k=1, name='calendar')], n_cum=integer('n_cum', 1),
                    pi_q1=integer('pi_q1', 1, 49), pi_q2=integer('pi_q2', 1, 49), pi_widening_freq=string('pi_widening_freq'), use_cache=boolean('use_cache'))
        f = need('fc.run_forecast')
        names = dict(col_name_y='my y', col_name_x='my x', col_name_date='when', col_name_source='who', col_name_weight='w')
        out = no_raise(f, 'run_forecast', given, simplify_output=simplify, **dict(opts, **names))
        ctx.prove(len(norm) == 1 and norm[0]['df_y'] is given and all(norm[0][k] == v for k, v in names.items()), 'the table is normalised with the given column names')
        if len(calls) != 1:
            raise Unsupported('run_forecast_single is not called in a loop over the sources')
        b = calls[0]
        p = parts_of(out.space if simplify else interp.getitem(out, 'data').space)
        if p is None:
            raise Unsupported('the results are not a concatenation over the sources')
        over, j = p.seq.over, p.seq.j
        sj = over.get(j)
        same = lambda a, c: zb(interp.zraw(interp.eq(a, c)))
        g, h, e = ctx.fresh(I, 'g'), ctx.fresh(I, 'h'), ctx.fresh(I, 'e')
        for v in (g, h):
            over.space.touch(v)
        sp.touch(e)
        ctx.prove(z3.Implies(z3.And(zb(over.space.in_range(g)), zb(over.space.in_range(h)), g != h), z3.Not(same(over.get(g), over.get(h)))), 'a source is forecast once')
        w = [z3.And(zb(over.space.in_range(t)), same(over.get(t), src.get(e))) for t, _ in list(over.space.touched().values())]
        ctx.prove(z3.Implies(zb(sp.in_range(e)), z3.Or(*w)), 'every source is forecast')
        w = [z3.And(zb(sp.in_range(t)), same(over.get(g), src.get(t))) for t, _ in list(sp.touched().values())]
        ctx.prove(z3.Implies(zb(over.space.in_range(g)), z3.Or(*w)), 'no other source is forecast')
        ctx.prove(same(b['source_id'], sj), 'the name of the source')
        # the rows of that source, in order
        df = b['df_y']
        r, q = ctx.fresh(I, 'r'), ctx.fresh(I, 'q')
        for v in (r, q):
            df.space.touch(v)
        o = lambda v: arrays.iexpr(origin(df.space, v, sp)[0])
        inr = lambda v: zb(df.space.in_range(v))
        ctx.prove(set(cols) <= set(columns(df)), 'all columns')
        ctx.prove(z3.Implies(inr(r), z3.And(zb(sp.in_range(o(r))), same(src.get(o(r)), sj))), 'rows of that source only')
        ctx.prove(z3.Implies(z3.And(inr(r), inr(q)), (o(r) < o(q)) == (r < q)), 'in order, each row once')
        alts = [z3.And(inr(t), o(t) == e) for t, _ in list(df.space.touched().values())]
        ctx.prove(z3.Implies(z3.And(zb(sp.in_range(e)), same(src.get(e), sj)), z3.Or(*alts)), 'all rows of that source')
        for c in cols:
            ctx.prove(z3.Implies(inr(r), zb(cell_same(as_array(interp.getitem(df, c)).get(r), cols[c].get(o(r))))), 'unchanged %s' % c)
        # the arguments are those of a source forecast alone
        now[0] = bare
        alone = no_raise(f, 'run_forecast', given, simplify_output=False, source_id='alone', **dict(opts, **names))
        ctx.prove(len(calls) == 2, 'one source is forecast once')
        b2 = calls[1]
        for k, v in opts.items():
            if k in b:
                a1, a2 = b[k], b2[k]
                ok = (len(a1) == len(a2) == len(v) and all(x is y is z for x, y, z in zip(a1, a2, v))) if isinstance(v, list) else \
                    z3.And(zb(cell_same(a1, v)), zb(cell_same(a2, v)))
                ctx.prove(ok, 'the same %s for a source as alone' % k)
            else:
                ctx.prove(False, 'the same %s for a source as alone' % k)
        ctx.prove(b2['df_y'] is bare and b['simplify_output'] is False and b2['simplify_output'] is False and b2['source_id'] == 'alone', 'complete results of each source')
        for k in TABLES:
            ctx.prove(interp.getitem(alone, k) is res[1][k], 'one source: the result of run_forecast_single: %s' % k)
        if simplify:
            joined(ctx, out, res[0]['forecast'], 'forecast')
        else:
            for k in TABLES:
                joined(ctx, interp.getitem(out, k), res[0][k], k)


multi('several sources, dates')
multi('several sources, no dates, weights', date=False, weight=True)
multi('several sources, simplified output', simplify=True)


@unit('C17', 'aggregation of any number of results', seconds=40)
def agg(ctx):
    sp = space(size('results', 1), 'results')
    j = ctx.fresh(I, 'j')
    sp.touch(j)
    ctx.assume(zb(sp.in_range(j)))
    d, t = results('j', string('source'))
    l = loops.MapSeq(sp, j, d, 0, None)
    out = no_raise(need('fc.aggregate_forecast_dict_results'), 'aggregate_forecast_dict_results', l)
    ctx.prove(set(k for k, v in out.allitems()) == set(TABLES), 'the four tables')
    for k in TABLES:
        joined(ctx, interp.getitem(out, k), t[k], k)


@unit('C17', 'a list of any number of forecast inputs', seconds=40)
def inputs(ctx):
    sp = space(size('inputs', 1), 'inputs')
    j = ctx.fresh(I, 'j')
    sp.touch(j)
    ctx.assume(zb(sp.in_range(j)))
    s2 = space(size('n', 1), 'rows')
    df = frame(s2, date=dates('date', s2), y=vec('y', s2, nan=True))
    trend, season = [gen_model('t', k=1, name='trend')], [gen_model('s', k=1, name='season')]
    name, start = string('source'), stamp('date_start_actuals')
    inp_ = call(need('fc.ForecastInput'), [name, df], dict(l_model_trend=trend, l_model_season=season, date_start_actuals=start))
    l = loops.MapSeq(sp, j, inp_, 0, None)
    calls, res = [], []

    def run_(b):
        calls.append(b)
        d, t = results('r', b['source_id'])
        res.append(t)
        return d
    stub('fc.run_forecast', run_)
    opts = dict(col_name_y='my y', col_name_weight='w', col_name_x='my x', col_name_date='when', col_name_source='who', extrapolate_years=real('extrapolate_years'),
                season_add_mult=string('season_add_mult'), include_all_fits=boolean('include_all_fits'), find_outliers=boolean('find_outliers'), use_cache=boolean('use_cache'))
    out = no_raise(need('fc.run_l_forecast'), 'run_l_forecast', l, **opts)
    ctx.prove(len(calls) == 1, 'each input is forecast once')
    b = calls[0]
    ctx.prove(b['df_y'] is df and b['l_model_trend'] is trend and b['l_model_season'] is season, 'with its own table and models')
    ctx.prove(zb(cell_same(b['source_id'], name)), 'under its own name')
    ctx.prove(zb(cell_same(b['date_start_actuals'], start)), 'from its own start date')
    ctx.prove(b['simplify_output'] is False, 'complete results')
    for k, v in opts.items():
        ctx.prove(zb(cell_same(b[k], v)), 'the given %s' % k)
    for k in TABLES:
        joined(ctx, interp.getitem(out, k), res[0][k], k)
