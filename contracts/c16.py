"""C16 the output of a forecast: every actual once, one row per forecast date and model, labelled with what was fitted."""
from dv.spec import *
from contracts.single import *


def output(name, tier='quick', seconds=120, all_fits=True, start=False, **kw):
    @unit('C16', 'run_forecast_single, %s' % name, seconds=seconds, tier=tier)
    def u(ctx):
        t = Single(ctx, **kw)
        sp, date = t.sp, t.d is not None
        key = t.d if date else t.x
        # one sample per date (or x): then 'exactly once' is a statement about the rows
        sp.add_pair_fact(lambda i, j: z3.Implies(zb(i < j), zb(bnot(cell_same(key.get(i), key.get(j))))))
        more = {}
        if start:
            st = stamp('date_start_actuals')
            more['date_start_actuals'] = st
        r = t.run(include_all_fits=all_fits, **more)
        data, md = interp.getitem(r, 'data'), interp.getitem(r, 'metadata')
        cols = ['date', 'y', 'model', 'source', 'is_actuals']
        # every input sample is there
        v = ctx.fresh(I, 'v')
        sp.touch(v)
        kept = zb(sp.in_range(v))
        if start:
            kept = z3.And(kept, t.d.get(v).z >= st.z)

        def same(q, v):
            return z3.And(truth_z(q['is_actuals']), str_z(q['model']) == z3.StringVal('actuals'), zb(cell_same(q['date'], key.get(v))), zb(cell_same(q['y'], t.y.get(v))))
        prove_exists(data.space, lambda i: same(row_at(data, i, cols), v), 'every sample is an actual row of the output', kept)
        i, j = ctx.fresh(I, 'i'), ctx.fresh(I, 'j')
        data.space.touch(i)
        data.space.touch(j)
        inr = z3.And(zb(data.space.in_range(i)), zb(data.space.in_range(j)), zb(bnot(beq(i, j))))
        q, p = row_at(data, i, cols), row_at(data, j, cols)
        aq, ap = truth_z(q['is_actuals']), truth_z(p['is_actuals'])
        src = str_z(t.source)
        ini = zb(data.space.in_range(i))
        ctx.prove(z3.Implies(ini, str_z(q['source']) == src), 'every row carries its source')
        same_model = str_z(q['model']) == str_z(p['model'])
        ctx.prove(z3.Implies(z3.And(inr, aq == ap, same_model), zb(bnot(cell_same(q['date'], p['date'])))), 'one row per date and model')
        ok_row = z3.BoolVal(True)
        if start:
            ok_row = lambda v: t.d.get(v).z >= st.z
        else:
            ok_row = lambda v: True
        prove_exists(sp, lambda v: z3.And(same(q, v), zb(ok_row(v))), 'an actual row is a sample of the input', z3.And(ini, aq))
        # forecast rows
        alts = []
        for e in t.exts:
            f = [f for f in t.fits if f['params'] is e['args']['params']]
            ctx.prove(len(f) == 1, 'the reported parameters are extrapolated')
            if len(f) != 1:
                raise Unsupported('which candidate was extrapolated')
            f = f[0]
            a = e['args']
            ctx.prove(a['model'] is f['model'], 'with the model they were fitted for')
            ctx.prove(f['is_fit'].z, 'only fitted candidates are extrapolated')
            e['name'] = str_z(attr(f['model'], 'name'))
            for k, (w, h) in list(e['sp'].touched().items()):
                alts.append(z3.And(zb(e['sp'].in_range(w)), str_z(q['model']) == e['name'], zb(cell_same(q['date'], e['ix'].get(w))), zb(cell_same(q['y'], e['y'].get(w)))))
        ctx.prove(z3.Implies(z3.And(ini, z3.Not(aq)), z3.Or(*alts) if alts else z3.BoolVal(False)), 'a forecast row is the model evaluated on the axis')
        ctx.prove(z3.Implies(z3.And(ini, z3.Not(aq)), zb(bnot(isnan(q['y'])))), 'forecast values are not null')
        for m in rows_of(md, ['source', 'model']):
            ctx.prove(str_z(m['source']) == src, 'source of the metadata')
        # the table handed to the intervals is the data
        ctx.prove(len(t.pis) == 1 and t.pis[0]['df_forecast'].space is data.space, 'the forecast is made from the data')


output('naive and one trend, all fits', n_trend=1)
output('naive and one trend, weights', n_trend=1, all_fits=False, weight=True, literal=True)
output('naive and two trends, all fits', n_trend=2, literal=True)
output('date_start_actuals', n_trend=1, start=True, literal=True)
output('no dates', n_trend=1, date=False, literal=True)
