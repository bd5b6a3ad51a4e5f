"""C19 outlier detection"""
from dv.spec import *
from .single import *


def table(date=True, nulls=False, tag=''):
    sp = space(size('n' + tag, 0), 'rows')
    cols = {}
    k = dates('date' + tag, sp) if date else vec('x' + tag, sp)
    if date:
        cols['date'] = k
    cols['x'] = vec('x', sp) if date else k
    cols['y'] = vec('y' + tag, sp, nan=nulls)
    return sp, k, cols


def changes(cols):
    """the documented thresholds: 1.5 interquartile ranges outside of the quartiles of all changes"""
    d = lib_pd.s_diff(lib_pd.PSeries(cols['y'], lib_pd.range_index(cols['y'].space), 'y'))
    q1, q3 = lib_pd.s_quantile(d, 0.25), lib_pd.s_quantile(d, 0.75)
    lo = interp.scalar_binop('-', q1, interp.scalar_binop('*', 1.5, interp.scalar_binop('-', q3, q1)))
    hi = interp.scalar_binop('+', q3, interp.scalar_binop('*', 1.5, interp.scalar_binop('-', q3, q1)))

    def is_change(i):
        v = sf(d.a.get(i))
        return zb(bor(interp.zraw(interp.scalar_cmp('<', v, lo)), interp.zraw(interp.scalar_cmp('>', v, hi))))
    return is_change


def detect(date, nulls):
    @unit('C19', 'flags, %s%s' % ('dates' if date else 'numbers', ', null values' if nulls else ''), seconds=60)
    def u(ctx):
        sp, k, cols = table(date, nulls)
        sp.add_pair_fact(lambda a, b: z3.Implies(zb(a < b), zb(bnot(cell_same(k.get(a), k.get(b))))))      # in any order
        before = snapshot(cols)
        df = frame(sp, **cols)
        step, spike = no_raise(need('fm.get_model_outliers'), 'get_model_outliers', df)
        step, spike = as_array(step), as_array(spike)
        ctx.prove(zb(band(beq(step.n, sp.n), beq(spike.n, sp.n))), 'one flag per sample')
        is_change = changes(cols)
        i = ctx.fresh(I, 'i')
        sp.touch(i)
        for m, nm in ((step, 'step'), (spike, 'spike')):
            m.space.touch(i)
            f = truth(m.get(i))
            w = some_change(sp, is_change)
            ctx.prove(z3.Implies(z3.And(zb(sp.in_range(i)), f), w), 'no flag in a series without large changes (%s)' % nm)
            own_group(ctx, i)
            if not arrays.tab('applied') and not arrays.provably(z3.Not(f)):
                raise Unsupported('which changes delimit a stretch')
            for kids in arrays.tab('applied').values():
                kids = kids[2]
                for q, op, side in ((0, '<=', 'before'), (arrays.simp_i(arrays.iexpr(kids.n) - 1), '>=', 'after')):
                    r = kids.src(q)         # the first and the last large change of the stretch
                    ctx.prove(z3.Implies(z3.And(zb(sp.in_range(i)), f), z3.And(zb(sp.in_range(r)), is_change(r), zb(interp.zraw(interp.scalar_cmp(op, k.get(r), k.get(i)))))),
                              'a large change at or %s every flagged sample (%s)' % (side, nm))
        r = ctx.fresh(I, 'r')
        sp.touch(r)
        ctx.prove(set(columns(df)) == set(cols), 'the given table keeps its columns')
        for c in cols:
            ctx.prove(z3.Implies(zb(sp.in_range(r)), zb(cell_same(as_array(interp.getitem(df, c)).get(r), before[c](r)))), 'the given table keeps its %s' % c)


def own_group(ctx, i):
    """the function applied to each group was executed for an arbitrary group: let it be the one of row i"""
    t = arrays.tab('applied')
    for lsp, rsp, hit, at in arrays.tab('matches').values():
        if rsp.uid in t:
            lsp.touch(i)
            ctx.assume(z3.Implies(zb(hit(i)), arrays.iexpr(at(i)) == t[rsp.uid][1]))


def truth(v):
    v = interp.force(v)
    return zb(v) if isinstance(v, bool) else zb(interp.zraw(v))


def some_change(sp, is_change):
    return zb(arrays.exists(sp, is_change, 'change'))


def snapshot(cols):
    return {c: arrays.frozen(a) for c, a in cols.items()}


for _d in (True, False):
    for _n in (False, True):
        detect(_d, _n)


@unit('C19', 'repeated dates are refused')
def repeated(ctx):
    for date in (True, False):
        sp, k, cols = table(date, True, 'd' if date else 'n')
        a, b = ctx.fresh(I, 'a'), ctx.fresh(I, 'b')
        for w in (a, b):
            sp.touch(w)
        ctx.assume(zb(band(sp.in_range(a), sp.in_range(b), a < b, cell_same(k.get(a), k.get(b)))))
        ctx.prove(raises(need('fm.get_model_outliers'), ValueError, frame(sp, **cols)), 'a table with a repeated %s is refused' % ('date' if date else 'x'))


def shifted(date):
    @unit('C19', 'adding a constant to all values does not change the flags, %s' % ('dates' if date else 'numbers'), seconds=100)
    def u(ctx):
        sp, k, cols = table(date, False)
        sp.add_pair_fact(lambda a, b: z3.Implies(zb(a < b), zb(bnot(cell_same(k.get(a), k.get(b))))))
        c = ctx.fresh(R, 'c')
        y = arrays.frozen(cols['y'])
        cols2 = dict(cols, y=arrays.SArr(sp, lambda i: SF(sf(y(i)).r + c), 'float'))
        f = need('fm.get_model_outliers')
        r1 = no_raise(f, 'get_model_outliers', frame(sp, **cols))
        r2 = no_raise(f, 'get_model_outliers', frame(sp, **cols2))
        i = ctx.fresh(I, 'i')
        sp.touch(i)
        own_group(ctx, i)
        for a, b, nm in zip(r1, r2, ('step', 'spike')):
            a, b = as_array(a), as_array(b)
            a.space.touch(i)
            b.space.touch(i)
            ctx.prove(z3.Implies(zb(sp.in_range(i)), truth(a.get(i)) == truth(b.get(i))), 'the same %s flags' % nm)


shifted(True)
shifted(False)


def in_forecast(weight, date):
    @unit('C19', 'spikes in a forecast, %s, %s' % ('weights' if weight else 'no weights', 'dates' if date else 'no dates'), seconds=100)
    def u(ctx):
        masks = []

        def outliers(b):
            n = b['df'].space
            m = [vec('mask%d' % k, n, dtype='bool') for k in range(2)]
            masks.append((b['df'], m))
            return tuple(m)
        stub('fm.get_model_outliers', outliers)
        t = Single(ctx, n_trend=1, date=date, weight=weight, literal=True)
        sp, key = t.sp, t.d if date else t.x
        r = t.run(include_all_fits=True, find_outliers=True)
        ctx.prove(len(masks) == 1, 'outliers are looked for once')
        given, (step, spike) = masks[0]
        i = ctx.fresh(I, 'i')
        sp.touch(i)
        inr = zb(sp.in_range(i))
        ctx.prove(zb(beq(given.n, sp.n)), 'in all samples')
        for c, a in (('y', t.y), ('date' if date else 'x', key)):
            ctx.prove(z3.Implies(inr, zb(cell_same(as_array(interp.getitem(given, c)).get(i), a.get(i)))), 'with their %s' % c)
        for n, f in enumerate(t.fits):
            df = f['args']['df_y']
            q = ctx.fresh(I, 'q%d' % n)
            df.space.touch(q)
            inq = zb(df.space.in_range(q))
            row, ok = origin(df.space, q, sp)
            w = sf(as_array(interp.getitem(df, 'weight')).get(q))
            w0 = sf(t.w.get(row)) if weight else sf(1.0)
            ctx.prove(z3.Implies(inq, z3.And(zb(ok), zb(sp.in_range(row)), z3.Not(truth(spike.get(row))))), 'no spike is fitted')
            ctx.prove(z3.Implies(inq, zb(cell_same(w, w0))), 'the weight of the other samples is unchanged')
            ctx.prove(z3.Implies(inq, zb(cell_same(as_array(interp.getitem(df, 'y')).get(q), t.y.get(row)))), 'and their value')
        data = interp.getitem(r, 'data')
        cols = ['date', 'y', 'model', 'source', 'is_actuals']

        def same(q, v):
            return z3.And(truth_z(q['is_actuals']), str_z(q['model']) == z3.StringVal('actuals'), zb(cell_same(q['date'], key.get(v))), zb(cell_same(q['y'], t.y.get(v))))
        prove_exists(data.space, lambda k: same(row_at(data, k, cols), i), 'every sample, spike or not, is an actual row of the output', inr)


for _w in (False, True):
    for _d in (True, False):
        in_forecast(_w, _d)


@unit('C19', 'thresholds are 1.5 interquartile ranges outside of the quartiles')
def thresholds(ctx):
    sp = space(size('n', 0), 'changes')
    v = vec('changes', sp, nan=True)
    s = lib_pd.PSeries(v, lib_pd.range_index(sp), 'dif')
    r = no_raise(need('fm.get_iqr_thresholds'), 'get_iqr_thresholds', s)
    ctx.prove(len(r) == 2, 'a lower and an upper threshold')
    q1, q3 = sf(lib_pd.s_quantile(s, 0.25)), sf(lib_pd.s_quantile(s, 0.75))
    for got, want, nm in ((r[0], q1.r - 1.5 * (q3.r - q1.r), 'lower'), (r[1], q3.r + 1.5 * (q3.r - q1.r), 'upper')):
        got = sf(got)
        ctx.prove(zb(beq(got.nan, q1.nan)), '%s threshold is null without changes' % nm)
        ctx.prove(z3.Implies(zb(bnot(q1.nan)), got.r == want), '%s threshold' % nm)
