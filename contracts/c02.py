"""C02 built-in formulas: every predefined model returns its documented formula at every sample."""
from dv.spec import *
from dv.vals import f_exp, f_pow

ONE, ZERO = 1.0, 0.0


def x_vec():
    n = size('n', 0)
    sp = space(n, 'samples')
    return sp, vec('a_x', sp), dates('a_date', sp)


def A(x, y):
    return num_add(sf(x), sf(y))


def M(x, y):
    return num_mul(sf(x), sf(y))


def S(x, y):
    return num_sub(sf(x), sf(y))


def step(x, a, yes, no):
    """value `yes` from x >= a on, `no` before"""
    return arrays.s_ite(f_le(sf(a), sf(x)), sf(yes), sf(no))


FORMULA = {
    'model_constant': (1, lambda x, p, m: p[0]),
    'model_linear': (2, lambda x, p, m: A(M(p[0], x), p[1])),
    'model_linear_nondec': (2, lambda x, p, m: A(M(p[0], x), p[1])),
    'model_quasilinear': (3, lambda x, p, m: A(M(p[0], f_pow(x, p[1])), p[2])),
    'model_exp': (2, lambda x, p, m: M(p[0], f_pow(p[1], x))),
    'model_decay': (3, lambda x, p, m: A(M(p[0], f_exp(M(p[1], x))), p[2])),
    'model_step': (2, lambda x, p, m: step(x, p[0], p[1], 1.0 if m else 0.0)),
    'model_ramp': (2, lambda x, p, m: A(1.0 if m else 0.0, step(x, p[0], M(S(x, p[0]), p[1]), 0.0))),
    'model_sigmoid': (3, lambda x, p, m: sig(x, p, m)),
    'model_sigmoid_step': (3, lambda x, p, m: sig(x, p, m)),
    'model_two_steps': (4, lambda x, p, m:
                        (M(step(x, p[0], p[1], 1.0), step(x, p[2], p[3], 1.0)) if m else
                         A(step(x, p[0], p[1], 0.0), step(x, p[2], p[3], 0.0)))),
}


def sig(x, p, m):
    a = 1.0 if m else 0.0
    e = f_exp(M(num_neg(sf(p[2])), S(x, p[1])))
    return A(a, num_div(S(p[0], a), A(1.0, e)))


def mk(name, k, formula, mult, as_list):
    @unit('C02', '%s %s params as %s' % (name, 'multiplicative' if mult else 'additive', 'list' if as_list else 'array'))
    def u(ctx):
        model = need('fm.' + name)
        ctx.prove(zb(beq(getattr_(model, 'n_params'), k)), 'n_params is %d' % k)
        sp, x, d = x_vec()
        p = [real('p%d' % i) for i in range(k)]
        params = list(p) if as_list else SArr.of(list(p), 'float')
        r = no_raise(getattr_(model, 'f_model'), name, x, d, params, is_mult=mult)
        post_elements(r, sp, lambda i: formula(x.get(i), p, mult), 'formula')
        r2 = no_raise(model, name + ' call', x, d, params, is_mult=mult)
        post_elements(r2, sp, lambda i: formula(x.get(i), p, mult), 'formula by call')


for _n, (_k, _f) in FORMULA.items():
    for _m in (False, True):
        mk(_n, _k, _f, _m, False)


def mk_season(name, k, field, cache):
    for mult in (False, True):
        for cached in (False, True):
            @unit('C02', '%s %s%s' % (name, 'multiplicative' if mult else 'additive', ' cached' if cached else ''))
            def u(ctx, mult=mult, cached=cached):
                model = need('fm.' + name)
                ctx.prove(zb(beq(getattr_(model, 'n_params'), k)), 'n_params is %d' % k)
                sp, x, d = x_vec()
                p = [real('p%d' % i) for i in range(k)]
                params = SArr.of(list(p), 'float')
                kw = {}
                if cached:
                    c = no_raise(getattr_(model, 'init_cache'), 'init_cache', x, d)
                    kw = {kk: v for kk, v in c.allitems()}
                r = no_raise(getattr_(model, 'f_model'), name, x, d, params, is_mult=mult, **kw)
                full = [1.0 if mult else 0.0] + p
                post_elements(r, sp, lambda i: arrays.pick([sf(v) for v in full], season_index(d.get(i), field)), 'formula')


def season_index(t, field):
    if field == 'weekday':
        return vals.weekday_raw(t)
    return vals.cal('month', t) - 1


mk_season('model_season_wday', 6, 'weekday', 'a_weekday')
mk_season('model_season_month', 11, 'month', 'a_month')
mk_season('model_season_month_old', 11, 'month', 'a_month')


@unit('C02', 'null model is the neutral element')
def u_null(ctx):
    model = need('fm.model_null')
    sp, x, d = x_vec()
    for m in (False, True):
        r = no_raise(getattr_(model, 'f_model'), 'null', x, d, SArr.of([], 'float'), is_mult=m)
        ctx.prove(zb(cell_same(r, 1.0 if m else 0.0)) if is_num(r) else False, 'neutral value')


for _m in (False, True):
    @unit('C02', 'spike %s' % ('multiplicative' if _m else 'additive'))
    def u_spike(ctx, m=_m):
        model = need('fm.model_spike')
        n = size('n', 1)
        sp = space(n, 'samples')
        x, d = vec('a_x', sp), dates('a_date', sp)
        a = real('A')
        lo, hi = integer('x_min', 0), integer('x_max', 0)
        ctx.assume(z3.And(lo.z <= hi.z, hi.z <= n))
        r = no_raise(getattr_(model, 'f_model'), 'spike', x, d, SArr.of([a, sf(lo), sf(hi)], 'float'), is_mult=m)
        post_elements(r, sp, lambda i: arrays.s_ite(z3.And(arrays.iexpr(i) >= lo.z, arrays.iexpr(i) < hi.z), a,
                                                    sf(1.0 if m else 0.0)), 'formula')

    @unit('C02', 'spike_date %s' % ('multiplicative' if _m else 'additive'))
    def u_spiked(ctx, m=_m):
        f = need('fm.get_model_spike_date')
        sp, x, d = x_vec()
        a = real('A')
        lo, hi = stamp('date_start'), stamp('date_end')
        model = no_raise(f, 'constructor', lo, hi)
        r = no_raise(getattr_(model, 'f_model'), 'spike_date', x, d, SArr.of([a], 'float'), is_mult=m)
        post_elements(r, sp, lambda i: arrays.s_ite(z3.And(d.get(i).z >= lo.z, d.get(i).z < hi.z), a,
                                                    sf(1.0 if m else 0.0)), 'formula')

    @unit('C02', 'step_date %s' % ('multiplicative' if _m else 'additive'))
    def u_stepd(ctx, m=_m):
        f = need('fm.get_model_step_date')
        sp, x, d = x_vec()
        a = real('A')
        lo = stamp('date_start')
        model = no_raise(f, 'constructor', lo)
        r = no_raise(getattr_(model, 'f_model'), 'step_date', x, d, SArr.of([a], 'float'), is_mult=m)
        post_elements(r, sp, lambda i: arrays.s_ite(d.get(i).z >= lo.z, a, sf(1.0 if m else 0.0)), 'formula')

    @unit('C02', 'fourier %s' % ('multiplicative' if _m else 'additive'))
    def u_fourier(ctx, m=_m):
        model = need('fm.model_season_fourier_yearly')
        ctx.prove(zb(beq(getattr_(model, 'n_params'), 20)), 'n_params is 20')
        sp, x, d = x_vec()
        p = [real('p%d' % i) for i in range(20)]
        r = no_raise(getattr_(model, 'f_model'), 'fourier', x, d, SArr.of(list(p), 'float'), is_mult=m)
        sin, cos = vals.f_uf1('sin'), vals.f_uf1('cos')
        import math

        def want(i):
            t = vals.day_of(d.get(i))
            s = None
            for k in range(20):
                w = M(M(num_div(M(2.0, lib_np.NPMOD.attrs['pi']), 365.25), k % 10 + 1), mki(t))
                e = M(p[k], (sin if k < 10 else cos)(w))
                s = e if s is None else A(s, e)
            return s
        post_elements(r, sp, want, 'formula')
