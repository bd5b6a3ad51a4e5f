"""C10 fit status: every series gets a status; only a fitted one carries parameters, cost and score."""
from dv.spec import *
from contracts.fit_common import *


def cell(df, c):
    return interp.getitem(getattr_(interp.getitem(df, c), 'iloc'), 0)


def fitted(name, weight, date, validator):
    @unit('C10', 'fit_model status, %s' % name, seconds=100)
    def u(ctx):
        t = Fit(ctx, weight, date, False, validator=validator)
        t.good_model()
        src, freq = string('source'), string('freq')
        r = t.run(freq=freq, source=src)
        md, oi = interp.getitem(r, 'metadata'), interp.getitem(r, 'optimize_info')
        for q, nm in ((md, 'metadata'), (oi, 'optimize_info')):
            ctx.prove(zb(beq(q.space.n, 1)), 'one row of ' + nm)
        st = cell(md, 'status')
        fit = interp.truth(cell(md, 'is_fit'))
        if not isinstance(st, str):
            raise Unsupported('symbolic status')
        n, k = zi(t.use.n), t.k
        ctx.prove(fit == (st == 'FIT'), 'is_fit exactly when the status is FIT')
        ctx.prove(zb(interp.zraw(interp.eq(cell(md, 'source'), src))), 'source of the metadata')
        ctx.prove(zb(interp.zraw(interp.eq(cell(md, 'freq'), freq))), 'frequency of the metadata')
        ctx.prove(zb(interp.zraw(interp.eq(cell(md, 'model'), attr(cell(md, 'model_obj'), 'name')))), 'name of the model')
        ctx.prove(cell(md, 'model_obj') is t.m, 'the model itself')
        cases = {'EMPTY_TS': n == 0, 'TS_TOO_SHORT': z3.And(n > 0, n < k + 2), 'INPUT_ERR': z3.And(n > 0, n >= k + 2),
                 'FIT': z3.And(n > 0, n >= k + 2), 'NO-FIT': z3.And(n > 0, n >= k + 2)}
        ctx.prove(st in cases, 'a documented status')
        ctx.prove(cases[st], 'status %s follows the number of usable samples' % st)
        if st in ('INPUT_ERR', 'FIT', 'NO-FIT'):
            ctx.prove((st == 'INPUT_ERR') == (t.rejected()), 'INPUT_ERR exactly when the model rejects the series')
        p, cost, aic = cell(md, 'params'), cell(md, 'cost'), cell(md, 'aic_c')
        if st in ('EMPTY_TS', 'TS_TOO_SHORT', 'INPUT_ERR'):
            ctx.prove(zb(beq(as_array(p).n, 0)), 'no parameters without a fit')
            ctx.prove(zb(isnan(cost)), 'no cost without a fit')
            ctx.prove(zb(isnan(aic)), 'no score without a fit')
            return
        if st != 'FIT':
            return
        ctx.prove(zb(beq(as_array(p).n, k)), 'one parameter per model parameter')
        calls = ctx.__dict__.get('lsq', [])
        if calls:
            f = calls[-1]['f']
        else:
            f = None
        ctx.prove(zb(band(bnot(isnan(cost)), beq(sf(cost).inf, 0), sf(cost).r >= 0)), 'finite cost, not negative')
        if f is not None:
            ctx.prove(zb(cell_same(cost, num_mul(0.5, lib_np.sum_squares(f)))), 'cost is half the sum of squared residuals')
        want = call(need('mu.get_aic_c'), [cost, SI(n), SI(k)])
        ctx.prove(zb(cell_same(aic, want)), 'score of that cost')


fitted('no weights, no dates', False, False, False)
fitted('weights and dates', True, True, False)
fitted('validator', False, False, True)
