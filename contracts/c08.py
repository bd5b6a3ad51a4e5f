"""C08 the best fit: flagged once, fitted, of minimal score, and its rows are flagged in the data."""
from dv.spec import *
from contracts.single import *


def best(name, tier='quick', seconds=120, all_fits=True, **kw):
    @unit('C08', 'run_forecast_single, %s' % name, seconds=seconds, tier=tier)
    def u(ctx):
        t = Single(ctx, **kw)
        r = t.run(include_all_fits=all_fits)
        md, data = interp.getitem(r, 'metadata'), interp.getitem(r, 'data')
        fits = t.fits
        fit = [f['is_fit'].z for f in fits]
        names = [str_z(attr(f['model'], 'name')) for f in fits]
        some = z3.Or(*fit) if fit else z3.BoolVal(False)
        rows = rows_of(md, ['model', 'is_fit', 'is_best_fit', 'aic_c', 'source', 'source_long'])
        flag = [truth_z(q['is_best_fit']) for q in rows]
        if all_fits:
            ctx.prove(len(rows) == len(fits), 'one metadata row per candidate')
        # the rows of the metadata are told by the names of the models
        isb = []
        for k, nm in enumerate(names):
            isb.append(z3.Or(*[z3.And(str_z(q['model']) == nm, f) for q, f in zip(rows, flag)]) if rows else z3.BoolVal(False))
        for q, f in zip(rows, flag):
            ctx.prove(z3.Or(*[str_z(q['model']) == nm for nm in names]), 'the metadata describe candidates')
            if not all_fits:
                ctx.prove(f, 'only the best fit is described')
        ctx.prove(z3.Implies(some, z3.AtMost(*flag, 1) if flag else z3.BoolVal(False)), 'at most one best fit')
        ctx.prove(z3.Implies(some, z3.Or(*flag) if flag else z3.BoolVal(False)), 'a best fit when a candidate was fitted')
        ctx.prove(z3.Implies(z3.Not(some), z3.Not(z3.Or(*flag)) if flag else z3.BoolVal(True)), 'no best fit when none was fitted')
        for k, f in enumerate(fits):
            ctx.prove(z3.Implies(isb[k], f['is_fit'].z), 'the best fit was fitted')
            for j, h in enumerate(fits):
                if j != k:
                    ctx.prove(z3.Implies(z3.And(isb[k], h['is_fit'].z), zb(f_le(f['aic'], h['aic']))), 'no fitted candidate has a smaller score')
        i = ctx.fresh(I, 'i')
        data.space.touch(i)
        inr = zb(data.space.in_range(i))
        q = row_at(data, i, ['is_best_fit', 'is_actuals', 'model', 'source'])
        bf, ac = truth_z(q['is_best_fit']), truth_z(q['is_actuals'])
        ofbest = z3.Or(*[z3.And(isb[k], str_z(q['model']) == names[k]) for k in range(len(names))])
        ctx.prove(z3.Implies(inr, bf == z3.And(z3.Not(ac), ofbest)), 'exactly the rows of the best fit are flagged')
        if not all_fits:
            ctx.prove(z3.Implies(inr, z3.Or(ac, bf)), 'only actuals and rows of the best fit')
        # every row of the best forecast is there
        for e in t.exts:
            j = ctx.fresh(I, 'j')
            e['sp'].touch(j)
            k = [k for k, f in enumerate(fits) if f['params'] is e['args']['params']]
            if len(k) != 1:
                raise Unsupported('which candidate was extrapolated')
            k = k[0]
            ok = z3.And(zb(e['sp'].in_range(j)), z3.Not(zb(isnan(e['y'].get(j)))))
            if not all_fits:
                ok = z3.And(ok, isb[k])

            def found(v):
                w = row_at(data, v, ['is_actuals', 'model', 'date', 'y', 'is_best_fit'])
                return z3.And(z3.Not(truth_z(w['is_actuals'])), str_z(w['model']) == names[k], zb(cell_same(w['date'], e['ix'].get(j))),
                              zb(cell_same(w['y'], e['y'].get(j))), truth_z(w['is_best_fit']) == isb[k])
            prove_exists(data.space, found, 'every forecast row is returned', ok)


best('naive and one trend, all fits', n_trend=1)
best('naive and two trends', n_trend=2, literal=True, all_fits=False)
best('naive and two trends, all fits, weights', n_trend=2, literal=True, weight=True, tier='thorough')
best('no dates', n_trend=1, date=False)
