"""C15 prediction intervals"""
from dv.spec import *

QS = lambda q1, q2: ['q%d' % v for v in (q1, q2, 100 - q2, 100 - q1)]


def matrix(name, n0, n1, finite=True):
    f = C().fn(name, I, I, R)
    return arrays.SMat(n0, n1, lambda i, j: SF(f(arrays.iexpr(i), arrays.iexpr(j))))


def nested(ctx, out, q1, q2, r, inr, tag):
    l = [sf(as_array(interp.getitem(out, c)).get(r)) for c in QS(q1, q2)]
    for a, b, n in zip(l, l[1:], ('outer lower <= inner lower', 'inner lower <= inner upper', 'inner upper <= outer upper')):
        ctx.prove(z3.Implies(inr, z3.And(zb(bnot(a.nan)), zb(bnot(b.nan)), a.r <= b.r)), '%s: %s' % (tag, n))
    return l


def limits(q1, q2):
    @unit('C15', 'limits of any sample of paths, percentiles %d and %d' % (q1, q2), seconds=40)
    def u(ctx):
        sp = space(size('rows', 0), 'rows')
        cols = dict(date=dates('date', sp), source=vec('source', sp, dtype='str'), model=vec('model', sp, dtype='str'), y=vec('y', sp))
        df = frame(sp, **cols)
        mat = matrix('sample', size('n_sims', 1), sp.n)
        out = no_raise(need('fc._df_add_pi_percentiles'), '_df_add_pi_percentiles', df, mat, q1, q2)
        ctx.prove(set(columns(out)) == set(cols) | set(QS(q1, q2)), 'the four limits are added')
        ctx.prove(set(columns(df)) == set(cols), 'the given table has the same columns')
        ctx.prove(zb(beq(out.n, sp.n)), 'no row is lost or added')
        i = ctx.fresh(I, 'i')
        sp.touch(i)
        out.space.touch(i)
        inr = zb(sp.in_range(i))
        for c in cols:
            for t, d in (('the result', out), ('the given table', df)):
                ctx.prove(z3.Implies(inr, zb(cell_same(as_array(interp.getitem(d, c)).get(i), cols[c].get(i)))), '%s keeps its %s' % (t, c))
        l = nested(ctx, out, q1, q2, i, inr, 'limits')
        # a sample of paths without any deviation has no width
        z = ctx.fresh(B, 'no deviation')
        w = [x for x in mat.__dict__.get('looked', [])]
        for t, nm in zip(l, QS(q1, q2)):
            lo, hi = ctx.fresh(R, 'lo'), ctx.fresh(R, 'hi')
            every(ctx, mat, lambda v: z3.And(lo <= v, v <= hi))
            ctx.prove(z3.Implies(inr, z3.And(sf(cols['y'].get(i)).r + lo <= t.r, t.r <= sf(cols['y'].get(i)).r + hi)),
                      '%s: the value plus something between the smallest and the largest deviation' % nm)


def every(ctx, mat, p):
    """hypothesis: p holds for every entry of the matrix that was looked at"""
    for (i, j) in list(mat.touched):
        v = mat.get0(i, j)
        ctx.assume(z3.Implies(z3.And(i >= 0, i < zi(mat.n0), j >= 0, j < zi(mat.n1)), p(v.r)))


def matrix(name, n0, n1):
    f = C().fn(name, I, I, R)
    get0 = lambda i, j: SF(f(arrays.iexpr(i), arrays.iexpr(j)))
    seen = []

    def get(i, j):
        seen.append((arrays.iexpr(i), arrays.iexpr(j)))
        return get0(i, j)
    m = arrays.SMat(n0, n1, get)
    m.touched, m.get0 = seen, get0
    return m


for _q in ((5, 20), (20, 20), (1, 49), (10, 45)):
    limits(*_q)


@unit('C15', 'days per step of a frequency')
def days(ctx):
    f = need('fc._get_days_from_freq')
    for k, v in {None: 1, 'D': 1, 'H': 1, 'W': 7, 'W-MON': 7, 'W-SUN': 7, 'M': 30, 'MS': 30, 'Y': 365, 'YS': 365}.items():
        ctx.prove(zb(cell_same(no_raise(f, '_get_days_from_freq', k), v)), 'days of %s' % k)
    s = string('freq')
    d = no_raise(f, '_get_days_from_freq', s)
    ctx.prove(z3.And(arrays.iexpr(zi(d)) >= 1), 'at least a day per step')


def banded(ctx, b, zero):
    """the contract proved for _df_add_pi_percentiles above: one path per simulation and one deviation per row, none of them null;
    the limits are the values plus nested numbers between the smallest and the largest deviation"""
    df, mat = b['df_fcast'], b['a_sample']
    i, j = ctx.fresh(I, 'i'), ctx.fresh(I, 'j')
    x = sf(mat.get(i, j))
    ok = z3.And(i >= 0, i < zi(mat.n0), j >= 0, j < zi(mat.n1))
    ctx.prove(z3.And(zi(mat.n0) >= 1, zb(beq(mat.n1, df.n))), 'deviations: one per simulation and row')
    ctx.prove(z3.Implies(ok, zb(bnot(x.nan))), 'deviations: none is null')
    if zero:
        ctx.prove(z3.Implies(ok, x.r == 0), 'deviations: zero without residual error')
    out = call(getattr_(df, 'copy'), [], {})
    q = QS(b['pi_q1'], b['pi_q2'])
    y = as_array(interp.getitem(df, 'y'))
    fs = [ctx.fn(k, I, R) for k in q]

    def limit(k):
        def get(i):
            w = [f(arrays.iexpr(i)) for f in fs]
            ctx.assume(z3.And(w[0] <= w[1], w[1] <= w[2], w[2] <= w[3]))
            if zero:
                ctx.assume(z3.And(w[0] == 0, w[3] == 0))
            v = sf(y.get(i))
            return SF(v.r + w[k], v.nan)
        return SArr(df.space, get, 'float')
    for k, c in enumerate(q):
        interp.setitem(out, c, limit(k))
    return out


def single(name, source=True, weight=False, best=False, numbers=False, seconds=100, tier='quick', zero=False):
    @unit('C15', name, seconds=seconds, tier=tier)
    def u(ctx):
        ctx.any_set_order = True
        q1, q2 = 5, 20
        sp = space(size('rows', 1), 'rows')
        cols = dict(date=vec('date', sp, dtype='int') if numbers else dates('date', sp), y=vec('y', sp, nan=True), model=vec('model', sp, dtype='str'),
                    is_actuals=vec('is_actuals', sp, dtype='bool'))
        if source:
            src = string('source')
            cols['source'] = SArr(sp, lambda i: src, 'str')
        if weight:
            cols['weight'] = vec('weight', sp, nan=True)
        if best:
            cols['is_best_fit'] = vec('is_best_fit', sp, dtype='bool')
        df = frame(sp, **cols)
        c = lambda k, i: cols[k].get(i)
        act = lambda i: zb(c('is_actuals', i).z)
        usable = lambda i: band(act(i), bnot(isnan(c('y', i))))
        fc_row = lambda i: band(bnot(act(i)), zb(c('is_best_fit', i).z) if best else True)
        if zero:
            # forecast rows without residual error: every usable actual on their date has their value
            sp.add_pair_fact(lambda i, j: z3.Implies(zb(band(usable(i), fc_row(j), bnot(isnan(c('y', j))), cell_same(c('date', i), c('date', j)))),
                                                     sf(c('y', i)).r == sf(c('y', j)).r))
        stub('mu.detect_freq', lambda b: 'D')
        e0 = ctx.fresh(I, 'e0')
        sp.touch(e0)
        ctx.assume(z3.And(zb(sp.in_range(e0)), zb(usable(e0))))     # a source with actuals
        step = integer('days per step', 1)
        stub('fc._get_days_from_freq', lambda b: step)
        n_sims = size('n_sims', 1)
        stub('fc._df_add_pi_percentiles', lambda b: banded(ctx, b, zero))
        out = no_raise(need('fc._get_pi_single_source'), '_get_pi_single_source', df, mki(n_sims), integer('n_cum', 1), q1, q2)
        osp = out.space
        r, e = ctx.fresh(I, 'r'), ctx.fresh(I, 'e')
        osp.touch(r)
        sp.touch(e)
        inr, ine = zb(osp.in_range(r)), zb(sp.in_range(e))
        o, known = origin(osp, r, sp)
        sp.touch(o)
        keep = [k for k in ('date', 'source', 'model', 'y', 'is_actuals') if k in cols]
        a = {k: as_array(interp.getitem(out, k)) for k in columns(out)}
        for k in keep:
            x, w = a[k].get(r), c(k, o)
            if k == 'y':
                x, w = sf(x), sf(w)
            ctx.prove(z3.Implies(inr, zb(cell_same(x, w))), 'rows keep their %s' % k)
        ctx.prove(z3.Implies(inr, zb(bor(usable(o), fc_row(o)))), 'actuals with a value and selected forecast rows only')
        # each of them once
        alts = [z3.And(zb(osp.in_range(t)), zb(beq(origin(osp, t, sp)[0], e))) for t, h in list(osp.touched().values())]
        ctx.prove(z3.Implies(z3.And(ine, zb(usable(e))), z3.Or(*alts)), 'every actual with a value is there')
        limits = set(QS(q1, q2)) & set(a)
        if not limits:
            return          # no residuals: the actuals only
        ctx.prove(set(a) == set(keep) | set(QS(q1, q2)), 'the columns')
        ctx.prove(z3.Implies(z3.And(ine, zb(fc_row(e))), z3.Or(*alts)), 'every selected forecast row is there')
        r2 = ctx.fresh(I, 'r2')
        osp.touch(r2)
        ctx.prove(z3.Implies(z3.And(inr, zb(osp.in_range(r2)), r != r2), zb(bnot(beq(o, origin(osp, r2, sp)[0])))), 'no row is repeated')
        isa = act(o)
        for k in QS(q1, q2):
            ctx.prove(z3.Implies(z3.And(inr, isa), zb(isnan(a[k].get(r)))), 'actuals have no interval')
        l = nested(ctx, out, q1, q2, r, z3.And(inr, z3.Not(isa), zb(bnot(isnan(c('y', o))))), 'limits')
        if zero:
            for x, k in zip(l, QS(q1, q2)):
                ctx.prove(z3.Implies(z3.And(inr, z3.Not(isa), zb(bnot(isnan(c('y', o))))), x.r == sf(c('y', o)).r), '%s: zero width without residual error' % k)


single('one source')
single('one source, best fit', best=True)
single('one source, weights', weight=True, seconds=300)
single('one source, numbers', numbers=True)
single('one source, no residual error', zero=True)


def several(name, n_cum=None):
    @unit('C15', name, seconds=60)
    def u(ctx):
        """any number of sources: every source alone, then joined"""
        ctx.any_set_order = True
        sp = space(size('rows', 1), 'rows')
        src = vec('source', sp, dtype='str')
        cols = dict(date=dates('date', sp), source=src, model=vec('model', sp, dtype='str'), y=vec('y', sp, nan=True),
                    is_actuals=vec('is_actuals', sp, dtype='bool'))
        df = frame(sp, **cols)
        calls = []

        def one(b):
            calls.append(b)
            d = b['df_forecast']
            q = space(size('result', 1), 'result')
            s = as_array(interp.getitem(d, 'source')).get(0)
            t = dict(date=dates('date_r', q), source=SArr(q, lambda i: s, 'str'), model=vec('model_r', q, dtype='str'), y=vec('y_r', q, nan=True),
                     is_actuals=vec('is_actuals_r', q, dtype='bool'))
            t.update({c: vec(c, q, nan=True) for c in QS(b['pi_q1'], b['pi_q2'])})
            return frame(q, **t)
        res = []
        stub('fc._get_pi_single_source', lambda b: res.append(one(b)) or res[-1])
        days = integer('days', 1)
        asked = []
        stub('fc._get_days_from_freq', lambda b: asked.append(b['freq']) or days)
        wf, nc, ns = string('widening_freq'), integer('n_cum', 1), integer('n_sims', 1)
        kw = dict(n_cum=nc) if n_cum else dict(widening_freq=wf)
        out = no_raise(need('fc.get_pi'), 'get_pi', df, n_sims=ns, pi_q1=5, pi_q2=20, **kw)
        b = calls[0]
        ctx.prove(len(calls) == 1, 'each source once')
        ctx.prove(zb(cell_same(b['n_sims'], ns)) if True else False, 'the number of simulations')
        ctx.prove(z3.And(zb(cell_same(b['pi_q1'], 5)), zb(cell_same(b['pi_q2'], 20))), 'the percentiles')
        if n_cum:
            ctx.prove(zb(cell_same(b['n_cum'], nc)), 'the widening in days')
        else:
            ctx.prove(len(asked) == 1 and asked[0] is wf, 'the widening frequency')
            ctx.prove(zb(cell_same(b['n_cum'], days)), 'the widening in days')
        d = b['df_forecast']
        if out is res[0]:
            # a single source
            ctx.prove(d is df, 'the whole table')
            i, k = ctx.fresh(I, 'i'), ctx.fresh(I, 'k')
            for v in (i, k):
                sp.touch(v)
            ctx.prove(z3.Implies(z3.And(zb(sp.in_range(i)), zb(sp.in_range(k))), zb(cell_same(src.get(i), src.get(k)))), 'only one source')
            return
        p = parts_of(out.space)
        if p is None:
            raise Unsupported('the results are not a concatenation over the sources')
        over, j = p.seq.over, p.seq.j
        sj = over.get(j)
        same = lambda a, c: zb(interp.zraw(interp.eq(a, c)))
        g, h, e, r, q = [ctx.fresh(I, v) for v in 'gherq']
        for v in (g, h):
            over.space.touch(v)
        sp.touch(e)
        d.space.touch(r)
        d.space.touch(q)
        ctx.prove(z3.Implies(z3.And(zb(over.space.in_range(g)), zb(over.space.in_range(h)), g != h), z3.Not(same(over.get(g), over.get(h)))), 'a source is treated once')
        w = [z3.And(zb(over.space.in_range(t)), same(over.get(t), src.get(e))) for t in [over.space.rank(e)]]
        ctx.prove(z3.Implies(zb(sp.in_range(e)), z3.Or(*w)), 'every source is treated')
        o = lambda v: arrays.iexpr(origin(d.space, v, sp)[0])
        inr = lambda v: zb(d.space.in_range(v))
        ctx.prove(set(columns(d)) == set(cols), 'all columns')
        ctx.prove(z3.Implies(inr(r), z3.And(zb(sp.in_range(o(r))), same(src.get(o(r)), sj))), 'rows of that source only')
        ctx.prove(z3.Implies(z3.And(inr(r), inr(q)), (o(r) < o(q)) == (r < q)), 'in order, each row once')
        alts = [z3.And(inr(t), o(t) == e) for t, _ in list(d.space.touched().values())]
        ctx.prove(z3.Implies(z3.And(zb(sp.in_range(e)), same(src.get(e), sj)), z3.Or(*alts)), 'all rows of that source')
        for c in cols:
            ctx.prove(z3.Implies(inr(r), zb(cell_same(as_array(interp.getitem(d, c)).get(r), cols[c].get(o(r))))), 'unchanged %s' % c)
        whole(ctx, out, res[0])


def whole(ctx, out, part):
    """out holds, for the arbitrary source, exactly the rows of its own result"""
    sp = out.space
    r, q, i = ctx.fresh(I, 'r'), ctx.fresh(I, 'q'), ctx.fresh(I, 'row')
    ctx.prove(set(columns(out)) == set(part.cols), 'the result: all columns')
    sp.touch(r)
    sp.touch(q)
    h = lambda v: z3.And(zb(sp.in_range(v)), zb(origin(sp, v, part.space)[1]))
    o = lambda v: arrays.iexpr(origin(sp, v, part.space)[0])
    ctx.prove(z3.Implies(h(r), zb(part.space.in_range(o(r)))), 'the result: rows of that source only')
    ctx.prove(z3.Implies(z3.And(h(r), h(q), r != q), o(r) != o(q)), 'the result: each row once')
    for c in part.cols:
        a, b = as_array(interp.getitem(out, c)), as_array(interp.getitem(part, c))
        ctx.prove(z3.Implies(h(r), zb(cell_same(a.get(r), b.get(o(r))))), 'the result: unchanged %s' % c)
    part.space.touch(i)
    alts = [z3.And(h(v), o(v) == i) for v, _ in list(sp.touched().values())]
    ctx.prove(z3.Implies(zb(part.space.in_range(i)), z3.Or(*alts)), 'the result: no row is lost')


several('several sources')
several('several sources, widening in days', True)
