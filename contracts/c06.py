"""C06 dummies act exactly on the listed values or dates."""
from dv.spec import *
from dv.lib_np import eq_soft


def data(lo=1):
    n = size('n', lo)
    sp = space(n, 'samples')
    return sp, vec('a_x', sp), dates('a_date', sp)


def check(ctx, model, sp, x, d, flagged, name):
    a = real('A')
    for mult in (False, True):
        r = no_raise(attr(model, 'f_model'), name, x, d, SArr.of([a], 'float'), is_mult=mult)

        def want(i):
            on = num_add(a, 1.0) if mult else a
            return arrays.s_ite(flagged(i), sf(on), sf(1.0 if mult else 0.0))
        post_elements(r, sp, want, '%s mult=%s' % (name, mult))


@unit('C06', 'dummy from a list of numbers', seconds=60)
def u1(ctx):
    ls = space(size('n_list', 1), 'list')
    l = vec('listed', ls)
    sp, x, d = data()
    for as_seq in (False, True):
        arg = interp.SymSeq(ls, l.get) if as_seq else l
        m = no_raise(need('fm.get_model_dummy'), 'get_model_dummy', 'dum', arg)
        ctx.prove(zb(beq(attr(m, 'n_params'), 1)), 'one parameter')
        check(ctx, m, sp, x, d, lambda i: exists(ls, lambda j: eq_soft(x.get(i), l.get(j))), 'numeric list')


@unit('C06', 'dummy from a list of dates', seconds=60)
def u2(ctx):
    ls = space(size('n_list', 1), 'list')
    l = vec('listed', ls, dtype='time')
    sp, x, d = data()
    m = no_raise(need('fm.get_model_dummy'), 'get_model_dummy', 'dum', l)
    check(ctx, m, sp, x, d, lambda i: exists(ls, lambda j: eq_soft(d.get(i), l.get(j))), 'date list')


@unit('C06', 'dummy from a mask function', seconds=60)
def u3(ctx):
    from contracts.c04 import mask_fn
    f = mask_fn('mask')
    sp, x, d = data()
    m = no_raise(need('fm.get_model_dummy'), 'get_model_dummy', 'dum', f)
    a = call(f, [x, d], {})
    check(ctx, m, sp, x, d, lambda i: f_eq(sf(a.get(i)), sf(1.0)), 'mask function')


@unit('C06', 'dummy from an arbitrary holiday rule', seconds=60)
def u4(ctx):
    h = lib_pd.Rule('any rule')
    sp, x, d = data()
    m = no_raise(need('fm.get_model_dummy'), 'get_model_dummy', 'dum', h)
    check(ctx, m, sp, x, d, lambda i: h.member(d.get(i)), 'holiday')


def calendar(nm, rules):
    cls = interp.IClass(nm, [lib_pd.HOLBASE], {'rules': rules}, nm)
    return call(cls, [], {})


for _k in (1, 2, 3):
    @unit('C06', 'model of %d arbitrary calendars' % _k, seconds=60)
    def u5(ctx, k=_k):
        rules = [[lib_pd.Rule('r%d%d' % (c, j)) for j in range(2)] for c in range(k)]
        cals = [calendar('cal%d' % c, rules[c]) for c in range(k)]
        m = no_raise(need('fm.get_model_from_calendars'), 'get_model_from_calendars', list(cals))
        ctx.prove(zb(beq(attr(m, 'n_params'), k)), 'one parameter per calendar')
        sp, x, d = data()
        p = [real('p%d' % c) for c in range(k)]
        for mult in (False, True):
            r = no_raise(attr(m, 'f_model'), 'calendars', x, d, SArr.of(p, 'float'), is_mult=mult)

            def want(i):
                v = sf(1.0 if mult else 0.0)
                for c in range(k):
                    on = bor(*[q.member(d.get(i)) for q in rules[c]])
                    e = arrays.s_ite(on, num_add(p[c], 1.0) if mult else p[c], sf(1.0 if mult else 0.0))
                    v = num_mul(v, e) if mult else num_add(v, e)
                return v
            post_elements(r, sp, want, 'calendars mult=%s' % mult)
        if k == 1:
            m1 = no_raise(need('fm.get_model_from_calendars'), 'single calendar', cals[0])
            ctx.prove(zb(beq(attr(m1, 'n_params'), 1)), 'one parameter for a single calendar')

    @unit('C06', 'model of %d date lists' % _k, seconds=60)
    def u6(ctx, k=_k):
        ls = [vec('dates%d' % c, space(size('n_list%d' % c, 1), 'list'), dtype='time') for c in range(k)]
        m = no_raise(need('fm.get_model_from_datelist'), 'get_model_from_datelist', 'dl', *ls)
        ctx.prove(zb(beq(attr(m, 'n_params'), k)), 'one parameter per list')
        sp, x, d = data()
        p = [real('p%d' % c) for c in range(k)]
        for mult in (False, True):
            r = no_raise(attr(m, 'f_model'), 'date lists', x, d, SArr.of(p, 'float'), is_mult=mult)

            def want(i):
                v = sf(1.0 if mult else 0.0)
                for c in range(k):
                    on = exists(ls[c].space, lambda j: eq_soft(d.get(i), ls[c].get(j)))
                    e = arrays.s_ite(on, num_add(p[c], 1.0) if mult else p[c], sf(1.0 if mult else 0.0))
                    v = num_mul(v, e) if mult else num_add(v, e)
                return v
            post_elements(r, sp, want, 'date lists mult=%s' % mult)


@unit('C06', 'predefined dummies', seconds=40)
def u7(ctx):
    sp, x, d = data()
    cal = vals.cal
    for nm, flag in (('model_season_wday_2', lambda t: vals.weekday_raw(t) < 5),
                     ('model_dummy_christmas', lambda t: z3.And(cal('month', t) == 12, cal('day', t) == 25)),
                     ('model_dummy_month_start', lambda t: cal('day', t) == 1)):
        check(ctx, need('fm.' + nm), sp, x, d, lambda i, flag=flag: flag(d.get(i)), nm)
