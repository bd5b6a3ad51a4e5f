"""C22 automatic composition: multiplicative only when all of its conditions hold."""
from dv.spec import *


def table(ctx, date, weight):
    sp = space(size('n', 0), 'rows')
    cols = {}
    if date:
        cols['date'] = dates('date', sp)
    cols['x'] = vec('x', sp)
    cols['y'] = vec('y', sp, nan=True)
    if weight:
        cols['weight'] = vec('weight', sp, nan=True)
    return sp, cols, frame(sp, **cols)


for _d in (False, True):
    for _w in (False, True):
        @unit('C22', 'is_multiplicative%s%s' % (', dates' if _d else ', no dates', ', weights' if _w else ''))
        def u(ctx, date=_d, weight=_w):
            sp, cols, df = table(ctx, date, weight)
            y = cols['y']
            seen = []
            corr = SF(ctx.fresh(R, 'corr'), ctx.fresh(B, 'corr_null'))

            def stats(b):
                seen.append(b['df'])
                k = Space(size('months', 1))
                return frame(k, corr_mean_to_var=SArr(k, lambda i: corr, 'float'))
            stub('mu._get_mult_sum_stats', stats)
            r = no_raise(need('mu.is_multiplicative'), 'is_multiplicative', df)
            r = interp.zraw(r) if not isinstance(r, bool) else r
            nonpos = exists(sp, lambda i: band(bnot(isnan(y.get(i))), f_le(y.get(i), sf(0.0))), 'value <= 0')

            def usable(i):
                c = bnot(isnan(y.get(i)))
                if weight:
                    w = cols['weight'].get(i)
                    c = band(c, bnot(isnan(w)), f_lt(sf(0.0), w))
                return c
            use, src = lib_pd.subset(sp, usable, 'usable')
            ctx.prove(z3.Implies(zb(nonpos), zb(bnot(r))), 'additive with a value <= 0')
            if not date:
                ctx.prove(zb(bnot(r)), 'additive without dates')
                return
            ctx.prove(z3.Implies(use.n < 4, zb(bnot(r))), 'additive with fewer than 4 usable samples')
            d = cols['date']
            lo, hi = ctx.fresh(I, 'first'), ctx.fresh(I, 'last')       # a first and a last row, when there are rows
            sp.touch(lo)
            sp.touch(hi)
            ctx.assume(z3.Implies(zb(sp.n > 0), zb(band(sp.in_range(lo), sp.in_range(hi)))))
            sp.add_fact(lambda i: z3.And(d.get(i).z >= d.get(lo).z, d.get(i).z <= d.get(hi).z))
            span = d.get(hi).z - d.get(lo).z
            ctx.prove(z3.Implies(z3.And(zb(sp.n > 0), span < 60 * DAY), zb(bnot(r))), 'additive when the dates span less than 60 days')
            if seen:
                ctx.prove(zb(beq(r, band(bnot(corr.nan), corr.r >= sf(0.8).r))), 'multiplicative exactly when the correlation is at least 0.8')
                ctx.prove(zb(band(bnot(nonpos), use.n >= 4, span >= 60 * DAY)), 'statistics only when the other conditions hold')
            else:
                ctx.prove(zb(bor(nonpos, use.n < 4, span < 60 * DAY)), 'additive only for a documented reason')


@unit('C22', '_get_model_is_add_mult')
def u(ctx):
    k = 3
    ms = [gen_model('m%d' % i) for i in range(k)]
    m = gen_model('m')
    mode = string('season_add_mult')
    r = no_raise(need('fc._get_model_is_add_mult'), '_get_model_is_add_mult', m, mode, list(ms))
    nm = attr(m, 'name')
    isin = bor(*[zb(interp.zraw(interp.eq(m, q))) for q in ms])
    fixed = bor(mode.z == z3.StringVal('add'), mode.z == z3.StringVal('mult'))
    for v in ('add', 'mult'):
        got = zb(interp.zraw(interp.eq(r, v)))
        want = zb(bor(mode.z == z3.StringVal(v), band(bnot(fixed), isin if v == 'add' else bnot(isin))))
        ctx.prove(got == want, 'composition recorded as %s' % v)
