"""C21 naive models"""
from dv.spec import *
from .single import *
from dv.arrays import iexpr


def actuals(date=True, same_x=False):
    sp = space(size('n', 1), 'actuals')
    x, y = vec('x', sp), vec('y', sp, nan=True)
    sorted_fact(x)
    cols = dict(x=x, y=y)
    key = x
    if date:
        key = dates('date', sp)
        cols = dict(date=key, x=x, y=y)
    return sp, key, y, frame(sp, **cols)


def requested(date):
    sq = space(size('m', 1), 'requested')
    return sq, vec('a_x', sq), dates('a_date', sq) if date else None


def latest(sp, pred, key, earliest=False):
    """the row of the greatest (least) key among the rows with pred, the first of several; (row, some row has pred)"""
    ctx = C()
    r, some = ctx.fresh(I, 'latest'), ctx.fresh(B, 'some')
    sp.touch(r)
    ctx.assume(z3.Implies(some, zb(band(sp.in_range(r), pred(r)))))

    def fact(i):
        a, b = (key.get(i), key.get(r)) if not earliest else (key.get(r), key.get(i))
        return z3.Implies(zb(pred(i)), z3.And(some, zb(bor(interp.zraw(interp.scalar_cmp('<', a, b)), band(cell_same(a, b), iexpr(r) <= iexpr(i))))))
    sp.add_fact(fact)
    return r, some


def naive(date, many=False, repeated=False, prop='C21', **foreign):
    @unit(prop, 'naive model, %s%s%s%s' % ('dates' if date else 'numbers', ', several actuals per sample' * many, ', repeated samples' * repeated,
                                           ', given the cache of another model' * bool(foreign)), seconds=90)
    def u(ctx):
        arrays.MAX_HOPS, arrays.SCRATCH_HOP = 6, 3
        sp, key, y, df = actuals(date)
        sorted_fact(key, strict=not many)
        before = {c: arrays.frozen(as_array(interp.getitem(df, c))) for c in columns(df)}
        sq, ax, ad = requested(date)
        want = ad if date else ax
        sorted_fact(want, strict=not repeated)
        out = as_array(no_raise(need('fm._f_model_naive'), '_f_model_naive', ax, ad, [], False, df, **{k: f(sq) for k, f in foreign.items()}))
        ctx.prove(zb(beq(out.n, sq.n)), 'one value per requested sample')
        r = ctx.fresh(I, 'r')
        sq.touch(r)
        out.space.touch(r)
        inr = zb(sq.in_range(r))
        usable = lambda i: bnot(isnan(y.get(i)))
        lt = lambda a, b: zb(interp.zraw(interp.scalar_cmp('<', a, b)))
        t = want.get(r)
        v = sf(out.get(r))
        w, some = latest(sp, lambda i: band(usable(i), lt(key.get(i), t)), key)
        ctx.prove(z3.Implies(z3.And(inr, some), zb(cell_same(v, y.get(w)))), 'the latest usable value before the sample')
        e, any_ = latest(sp, usable, key, earliest=True)
        ctx.prove(z3.Implies(z3.And(inr, z3.Not(some), zb(bnot(v.nan))), z3.And(any_, zb(cell_same(v, y.get(e))))), 'a leading gap takes the first available value, or none')
        for c in columns(df):
            a = ctx.fresh(I, 'a')
            sp.touch(a)
            ctx.prove(z3.Implies(zb(sp.in_range(a)), zb(cell_same(as_array(interp.getitem(df, c)).get(a), before[c](a)))), 'the actuals keep their %s' % c)


naive(True)
naive(False)


@unit('C21', 'the seasonal naive model fills from earlier samples of the weekday', seconds=100)
def fillna_wday(ctx):
    arrays.SCRATCH_HOP = 2
    sp, key, y, df = actuals(True)
    sorted_fact(key, strict=True)
    out = no_raise(need('fm._fillna_wday'), '_fillna_wday', df)
    i = ctx.fresh(I, 'i')
    out.space.touch(i)
    part = parts_of(out.space)
    row, known = origin(out.space, i, sp)
    mine = z3.And(zb(out.space.in_range(i)), zb(known))
    wday = lambda v: arrays.iexpr(zi(lib_np.DT_FIELDS['weekday'](key.get(v))))
    w, some = latest(sp, lambda v: band(bnot(isnan(y.get(v))), key.get(v).z < key.get(row).z, wday(v) == wday(row)), key)
    v = sf(as_array(interp.getitem(out, 'y_out')).get(i))
    for c, a in (('date', key), ('y', y)):
        ctx.prove(z3.Implies(mine, zb(cell_same(as_array(interp.getitem(out, c)).get(i), a.get(row)))), 'a row keeps its %s' % c)
    ctx.prove(z3.Implies(z3.And(mine, some), zb(cell_same(v, y.get(w)))), 'the latest usable value of the weekday')
    ctx.prove(z3.Implies(z3.And(mine, z3.Not(some)), zb(v.nan)), 'nothing before the first one')
