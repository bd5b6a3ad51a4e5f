"""C09 residuals: one per usable sample, absolute error times the sample's weight (shared between samples at one x)."""
from dv.spec import *
from contracts.fit_common import *


for _w in (False, True):
    for _k in (False, True):
        @unit('C09', 'residuals of an arbitrary model%s%s' % (', weights' if _w else '', ', cache' if _k else ''))
        def u(ctx, w=_w, kw=_k):
            sp = space(size('n', 0), 'samples')
            x, y, d = vec('a_x', sp), vec('a_y', sp, nan=True), dates('a_date', sp)
            a_w = vec('a_weights', sp) if w else None
            m = gen_model('m')
            p = vec('params', Space(zi(attr(m, 'n_params'))))
            extra = {'a_cached': vec('cached', sp)} if kw else {}
            r = no_raise(need('fc.get_residuals'), 'get_residuals', p, m, x, y, d, a_w, **extra)
            f = call(attr(m, 'f_model'), [x, d, p], dict(extra, is_mult=False, df_actuals=None))

            def want(i):
                e = num_sub(y.get(i), f.get(i))
                if w:
                    e = num_mul(e, a_w.get(i))
                return f_abs(e)
            post_elements(r, sp, want, 'residual')


def f_abs(v):
    return arrays.s_ite(f_lt(v, sf(0.0)), num_neg(v), v)


def fitted(name, weight, date, dup):
    @unit('C09', 'fit_model, %s' % name, seconds=400 if dup else 100, tier='thorough' if dup else 'quick')
    def u(ctx):
        if dup:
            arrays.MAX_HOPS = 1
        t = Fit(ctx, weight, date, dup, k=1 if dup else None)
        if dup:
            ctx.assume(zi(t.use.n) >= 3)
        t.good_model()
        r = t.run()
        calls = ctx.__dict__.get('lsq', [])
        ctx.prove(len(calls) <= 1, 'one optimisation')
        if not calls:
            return
        rec = calls[0]
        f = rec['f']
        u = t.use
        ctx.prove(zb(beq(f.n, u.n)), 'one residual per usable sample')
        m = t.m
        fm = m.gen[0].calls[-1][2]      # the prediction at the reported parameters
        i = ctx.fresh(I, 'i')
        u.touch(i)
        f.space.touch(i)
        xs = u.src(i)
        ctx.prove(z3.Implies(zb(u.in_range(i)), zb(cell_same(m.gen[0].calls[-1][0][0].get(i), t.x.get(xs)))), "the model is evaluated at the sample's x")
        if date:
            ctx.prove(z3.Implies(zb(u.in_range(i)), zb(cell_same(m.gen[0].calls[-1][0][1].get(i), t.d.get(xs)))), "the model is evaluated at the sample's date")
        e = num_sub(t.y.get(xs), fm.get(i))
        if weight:
            e = num_mul(e, SF(t.w.get(xs).r))
        if dup:             # several usable samples at one x share its weight
            k = lib_pd.count_witness(u, lib_pd.sel(t.x, u, u.src), i)
            share = num_div(SF(t.w.get(xs).r) if weight else 1.0, mki(k))
            e = num_sub(t.y.get(xs), fm.get(i))
            aw = dict(rec['kwargs']).get('a_weights')
            if isinstance(aw, SArr):        # the weights handed to get_residuals, whose contract is proved above
                aw.space.touch(i)
                ctx.prove(z3.Implies(zb(u.in_range(i)), zb(cell_same(aw.get(i), share))), 'each sample has its share of the weight')
                share = aw.get(i)
            e = num_mul(e, share)
        ctx.prove(z3.Implies(zb(u.in_range(i)), zb(cell_same(f.get(i), f_abs(e)))), 'residual = |y - prediction| * weight')


fitted('no weights, no dates', False, False, False)
fitted('weights and dates', True, True, False)
fitted('several samples at one x', False, False, True)
fitted('several samples at one x, weights', True, False, True)
