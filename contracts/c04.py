"""C04 cached evaluation equals uncached evaluation."""
from dv.spec import *
from . import c21


def data(lo=0):
    n = size('n', lo)
    sp = space(n, 'samples')
    return sp, vec('a_x', sp), dates('a_date', sp)


def items(d):
    return d.allitems() if hasattr(d, 'allitems') else list(d.items())


def with_cache(model, x, d, extra=()):
    c = no_raise(attr(model, 'init_cache'), 'init_cache', x, d)
    kw = interp.IDict()
    for k, v in list(items(c)) + list(extra):
        kw.put(k, v)
    return kw


def check(model, sp, x, d, p, name, extra=()):
    for mult in (False, True):
        kw = with_cache(model, x, d, extra)
        r1 = call(attr(model, 'f_model'), [x, d, p, mult], kw)
        kw2 = interp.IDict()
        for k, v in extra:
            kw2.put(k, v)
        r0 = call(attr(model, 'f_model'), [x, d, p, mult], kw2)
        post_same_arrays(r1, r0, '%s mult=%s cached = uncached' % (name, mult))


class Cached:
    """an arbitrary model with an arbitrary cache variable: its value is a function of its inputs and of the
    cached variable, which it computes itself when the cache does not hold it"""

    def __init__(self, tag, key, fcache):
        self.key, self.fcache = key, fcache
        self.g = Gen(tag + '.value', ['a_x', 'a_date', 'params', 'is_mult', 'mask'], gen_values(tag + '_v'), varkw=False)

    def sv_call(self, args, kwargs):
        names = ['a_x', 'a_date', 'params', 'is_mult']
        b = dict(zip(names, args))
        mask = None
        for k, v in items(kwargs):
            if isinstance(k, str) and k in names:
                b[k] = v
                continue
            e = interp.eq(k, self.key)
            if e is True or (not isinstance(e, bool) and provably(interp.zraw(e))):
                mask = v
        if mask is None:
            mask = call(self.fcache, [b['a_x'], b['a_date']], {})
        return call(self.g, [b['a_x'], b['a_date'], b['params'], b.get('is_mult', False), mask], {})


def cached_model(tag):
    key = string(tag + '.key')
    fc = Gen(tag + '.cache', ['a_x', 'a_date'], gen_values(tag + '_c'))
    k = integer(tag + '.k', 0)
    dct = interp.IDict()
    dct.put(key, fc)
    nm = string(tag + '.name')
    C().assume(nm.z != z3.StringVal('null'))
    m = call(need('fm.ForecastModel'), [nm, k, Cached(tag, key, fc)], {'dict_f_cache': dct})
    m.key = key
    return m


def comp(a, b, mult):
    return interp.binop('*' if mult else '+', a, b)


for _m in (False, True):
    @unit('C04', 'composition by %s of arbitrary cached models' % ('product' if _m else 'sum'), seconds=60)
    def u(ctx, mult=_m):
        m1, m2 = cached_model('m1'), cached_model('m2')
        ctx.assume(m1.key.z != m2.key.z)
        for q in (m1, m2):
            for w in ('a_x', 'a_date', 'params', 'is_mult'):
                ctx.assume(q.key.z != z3.StringVal(w))
        m = comp(m1, m2, mult)
        sp, x, d = data()
        p = vec('params', space(zi(attr(m, 'n_params'))))
        other = string('other_key')
        ctx.assume(z3.And(other.z != m1.key.z, other.z != m2.key.z))
        check(m, sp, x, d, p, 'composition')
        check(m, sp, x, d, p, 'composition with a foreign cache entry', [(other, vec('foreign', sp))])


for _name in ('model_season_wday', 'model_season_month', 'model_season_month_old', 'model_season_fourier_yearly',
              'model_season_wday_2', 'model_dummy_christmas', 'model_dummy_month_start', 'model_calendar_uk',
              'model_calendar_us', 'model_calendar_ita', 'model_linear', 'model_constant'):
    @unit('C04', 'predefined ' + _name, seconds=60)
    def u2(ctx, nm=_name):
        m = need('fm.' + nm)
        sp, x, d = data(1)
        k = attr(m, 'n_params')
        p = SArr.of([real('p%d' % j) for j in range(k)], 'float')
        check(m, sp, x, d, p, nm)
        check(m, sp, x, d, p, nm + ' with a foreign cache entry', [('foreign', vec('foreign', sp))])


@unit('C04', 'every named cache variable has a cache function', seconds=30)
def u3(ctx):
    t = need('fm._dict_f_cache')
    for nm in ('model_season_wday', 'model_season_month', 'model_season_fourier_yearly'):
        for v in attr(need('fm.' + nm), 'l_cache_vars'):
            ctx.prove(v in t, '%s is cached by a registered function' % v)


def mask_fn(tag):
    def make(b, extra):
        x = as_array(b['a_x'])
        f = C().fn(tag, I, B)
        return SArr(x.space, lambda i: sf(SB(f(arrays.iexpr(i)))), 'float')
    return Gen(tag, ['a_x', 'a_date'], make)


for _m in (False, True):
    @unit('C04', 'two dummies never share a cache entry (%s)' % ('product' if _m else 'sum'), seconds=60)
    def u4(ctx, mult=_m):
        n1, n2 = string('name1'), string('name2')
        ctx.assume(z3.And(n1.z != z3.StringVal('null'), n2.z != z3.StringVal('null')))
        m1 = no_raise(need('fm.get_model_dummy'), 'get_model_dummy', n1, mask_fn('f1'))
        m2 = no_raise(need('fm.get_model_dummy'), 'get_model_dummy', n2, mask_fn('f2'))
        sp, x, d = data(1)
        m = comp(m1, m2, mult)
        p = SArr.of([real('p1'), real('p2')], 'float')
        check(m, sp, x, d, p, 'two dummies')


# a naive model evaluated with the cache of another model is the same function of the actuals as without
c21.naive(True, prop='C04', a_weekday=lambda sq: vec('foreign', sq))
c21.naive(False, prop='C04', a_weekday=lambda sq: vec('foreign', sq))
