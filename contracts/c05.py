"""C05 fixing and simplifying parameters."""
from dv.spec import *


def data():
    n = size('n', 0)
    sp = space(n, 'samples')
    return sp, vec('a_x', sp), vec('a_y', sp), dates('a_date', sp)


def fixed_vector(k):
    """parameters to fix: NaN marks a free one"""
    return vec('fixed', Space(k), nan=True)


for _k in (1, 2, 3, 4):
    @unit('C05', 'fix_params_fmodel of an arbitrary model with %d parameters' % _k, seconds=60)
    def u(ctx, k=_k):
        m = gen_model('m', k=k)
        fx = [inp('fixed%d' % j, SF(ctx.fresh(R, 'fx'), ctx.fresh(B, 'free'))) for j in range(k)]
        sp, x, y, d = data()
        extra = {'df_actuals': vec('actuals', space(size('n_actuals', 0)))}
        free = [interp.truth(SB(v.nan)) for v in fx]
        r = no_raise(need('fm.fix_params_fmodel'), 'fix_params_fmodel', m, list(fx))
        nf = sum(free)
        ctx.prove(zb(beq(zi(attr(r, 'n_params')), nf)), 'as many parameters as left free')
        for rnd in range(2):
            p = [real('p%d_%d' % (rnd, j)) for j in range(nf)]
            it = iter(p)
            full = SArr.of([next(it) if free[j] else fx[j] for j in range(k)], 'float')
            full = SArr.of([SF(v.r) for v in full.items], 'float')
            for mult in (False, True):
                a = no_raise(attr(r, 'f_model'), 'fixed model', x, d, SArr.of(p, 'float'), is_mult=mult, **extra)
                b = call(attr(m, 'f_model'), [x, d, full], dict(is_mult=mult, **extra))
                post_same_arrays(a, b, 'same prediction (evaluation %d)' % rnd)
        for j in range(k):
            pass
        i0 = call(attr(m, 'f_init_params'), [x, y, d], {})
        i1 = as_array(no_raise(attr(r, 'f_init_params'), 'f_init_params', x, y, d))
        b0 = call(attr(m, 'f_bounds'), [x, y, d], {})
        b1 = no_raise(attr(r, 'f_bounds'), 'f_bounds', x, y, d)
        idx = [j for j in range(k) if free[j]]
        ctx.prove(zb(beq(i1.n, nf)), 'initial guess length')
        for q, j in enumerate(idx):
            ctx.prove(zb(cell_same(i1.get(q), i0.get(j))), 'initial guess of free parameter')
        for s in (0, 1):
            bb = lib_np.arr(b1[s])
            ctx.prove(zb(beq(bb.n, nf)), 'bounds length')
            for q, j in enumerate(idx):
                ctx.prove(zb(cell_same(bb.get(q), b0[s].get(j))), 'bound of free parameter')

    @unit('C05', 'simplify_model of an arbitrary model with %d parameters' % _k, seconds=60)
    def u2(ctx, k=_k):
        m = gen_model('m', k=k)
        sp, x, y, d = data()
        lo, hi = call(attr(m, 'f_bounds'), [x, y, d], {})
        eqs = [interp.truth(mkb(f_eq(lo.get(j), hi.get(j)))) for j in range(k)]
        r = no_raise(need('fm.simplify_model'), 'simplify_model', m, x, y, d)
        if not any(eqs):
            ctx.prove(r is m, 'unchanged when no bounds coincide')
            return
        nf = k - sum(eqs)
        ctx.prove(zb(beq(zi(attr(r, 'n_params')), nf)), 'exactly the coinciding bounds are fixed')
        p = [real('p%d' % j) for j in range(nf)]
        it = iter(p)
        full = SArr.of([SF(hi.get(j).r) if eqs[j] else next(it) for j in range(k)], 'float')
        extra = {'df_actuals': vec('actuals', space(size('n_actuals', 0)))}
        a = no_raise(attr(r, 'f_model'), 'simplified model', x, d, SArr.of(p, 'float'), **extra)
        b = call(attr(m, 'f_model'), [x, d, full], extra)
        post_same_arrays(a, b, 'same prediction with the bound in place')


@unit('C05', 'get_fixed_model', seconds=60)
def u3(ctx):
    for k in (1, 3):
        m = gen_model('m', k=k)
        fx = [real('fx%d' % j) for j in range(k)]
        sp, x, y, d = data()
        r = no_raise(need('fm.get_fixed_model'), 'get_fixed_model', m, list(fx))
        ctx.prove(zb(beq(zi(attr(r, 'n_params')), 0)), 'no parameter left')
        extra = {'df_actuals': vec('actuals', space(size('n_actuals', 0)))}
        a = no_raise(attr(r, 'f_model'), 'fixed', x, d, SArr.of([], 'float'), **extra)
        b = call(attr(m, 'f_model'), [x, d, SArr.of(fx, 'float')], dict(is_mult=False, **extra))
        post_same_arrays(a, b, 'same prediction')
        ctx.prove(raises(need('fm.get_fixed_model'), ValueError, m, list(fx) + [1.0]), 'wrong number refused')
