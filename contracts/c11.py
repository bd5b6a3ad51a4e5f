"""C11 normalised tables."""
from dv.spec import *


def monday(t):
    return t - ((t / DAY + 3) % 7) * DAY


def case(name, date='col', x=False, weight=False, source=False, rename=(), other=False, int_y=False, seconds=60, as_series=False, null_x=False):
    @unit('C11', name, seconds=seconds)
    def u(ctx):
        ctx.any_set_order = True
        sp = space(size('n', 1), 'rows')
        cols = dict(y=vec('y', sp, nan=not int_y, dtype='int' if int_y else 'float'))
        if weight:
            cols['weight'] = vec('weight', sp, nan=True)
        if x:
            cols['x'] = vec('x', sp, nan=null_x)
        d = None
        if date:
            d = dates('date', sp)
            if date == 'col':
                cols['date'] = d
        if source:
            cols['source'] = vec('source', sp, dtype='str')
        nm = lambda k: ('my ' + k) if k in rename else k
        kw = {'col_name_' + k: nm(k) for k in rename}
        given = {nm(k): a for k, a in cols.items()}
        if other:
            given['other'] = vec('other', sp)
        if as_series:
            df = lib_pd.PSeries(cols['y'], d if date == 'index' else None, 'y')
        else:
            df = frame(sp, **given)
            if date == 'index':
                df.index = lib_pd.as_index(d, 'when')
        out = no_raise(need('fc.normalize_df'), 'normalize_df', df, **kw)
        want = [c for c in ('date', 'source', 'x', 'y', 'weight') if c in cols or c == 'x' or (c == 'date' and date)]
        got = columns(out)
        ctx.prove(set(got) == set(want), 'the given columns under their standard names, and x: %s' % ', '.join(map(str, got)))
        a = {c: as_array(interp.getitem(out, c)) for c in want}
        osp = out.space
        given = dict(cols)
        if date:
            given['date'] = d
        r, q = ctx.fresh(I, 'r'), ctx.fresh(I, 'q')
        osp.touch(r)
        osp.touch(q)
        inr, inq = zb(osp.in_range(r)), zb(osp.in_range(q))
        i, ci = origin(osp, r, sp)
        k, ck = origin(osp, q, sp)
        parts = parts_of(osp)
        hr, hq = z3.And(inr, zb(ci)), z3.And(inq, zb(ck))
        # one output row per input row
        ctx.prove(z3.Implies(hr, zb(sp.in_range(i))), 'every row comes from an input row')
        ctx.prove(z3.Implies(z3.And(hr, hq, r != q), i != k), 'no input row appears twice')
        e = ctx.fresh(I, 'e')
        sp.touch(e)
        if parts is None:
            ctx.prove(zb(beq(osp.n, sp.n)), 'as many rows as the input has')
            src_ok = lambda row: True
        else:
            seq, over = parts.seq, parts.seq.over
            sj = over.get(seq.j)
            g, h = ctx.fresh(I, 'g'), ctx.fresh(I, 'h')
            over.space.touch(g)
            over.space.touch(h)
            same = lambda u, v: zb(interp.zraw(interp.eq(u, v)))
            ctx.prove(z3.Implies(z3.And(zb(over.space.in_range(g)), zb(over.space.in_range(h)), g != h), z3.Not(same(over.get(g), over.get(h)))),
                      'a source is handled once')
            w = [z3.And(zb(over.space.in_range(t)), same(over.get(t), cols['source'].get(e))) for t, _ in list(over.space.touched().values())]
            ctx.prove(z3.Implies(zb(sp.in_range(e)), z3.Or(*w)), 'the source of every row is handled')
            ctx.prove(z3.Implies(hr, same(cols['source'].get(i), sj)), 'rows of that source')
            mine = z3.And(zb(sp.in_range(e)), same(cols['source'].get(e), sj))
            alts = []
            for t, _ in list(osp.touched().values()):
                o, c = origin(osp, t, sp)
                alts.append(z3.And(zb(osp.in_range(t)), zb(c), iz(o) == e))
            ctx.prove(z3.Implies(mine, z3.Or(*alts)), 'every row of that source appears')
        # values
        for c in want:
            if c in given:
                v = a[c].get(r)
                ctx.prove(z3.Implies(hr, zb(cell_same(v, given[c].get(i)))), 'unchanged %s' % c)
        ctx.prove(z3.Implies(inr, zb(cell_same(as_array(out.index).get(r), mki(r)))), 'fresh index')
        # order
        lt = lambda u, v: zb(interp.zraw(interp.scalar_cmp('<', u, v)))
        ord_ = zb(bnot(lib_pd.lt_cells(a['x'].get(q), a['x'].get(r))))      # missing x last
        if source:
            s1, s2 = a['source'].get(r), a['source'].get(q)
            ord_ = z3.Or(lt(s1, s2), z3.And(zb(interp.zraw(interp.eq(s1, s2))), ord_))
        ctx.prove(z3.Implies(z3.And(inr, inq, r < q), ord_), 'ordered by source and x')
        # x
        if not x:
            first = z3.IntVal(0) if parts is None else iz(parts.seq.over.space.src(parts.seq.j))
            v = a['x'].get(r)
            if date:
                sp.touch(first)
                f = d.get(first)
                days = (d.get(i).z - monday(f.z)) / DAY
                ctx.prove(z3.Implies(hr, zb(cell_same(v, mki(days)))), 'x is the number of days since the Monday on or before the first date')
            else:
                v2 = a['x'].get(q)
                nj = sp.n if parts is None else parts.local.n
                ctx.prove(z3.Implies(hr, zb(band(interp.zraw(interp.scalar_cmp('>=', v, 0)), interp.zraw(interp.scalar_cmp('<', v, mki(nj)))))), 'x is a row number')
                ctx.prove(z3.Implies(z3.And(hr, hq), lt(v, v2) == (iz(i) < iz(k))), 'x counts the rows in input order')
        ctx.prove(not arrays.was_mutated(df), 'the input table is not modified')


def iz(i):
    return arrays.iexpr(i)


case('dates')
case('dates, weight, other columns', weight=True, other=True)
case('date index', date='index')
case('no dates', date=None)
case('no dates, x', date=None, x=True, weight=True)
case('dates and x', x=True)
case('missing x', x=True, null_x=True, weight=True)
case('series of values', date=None, as_series=True)
case('series of values over dates', date='index', as_series=True)
case('renamed columns', weight=True, x=True, rename=('y', 'weight', 'x', 'date'), other=True)
case('integer values', int_y=True, date=None)
case('sources, dates', source=True)
case('sources, x', source=True, x=True, date=None, weight=True)
case('sources, no dates', source=True, date=None)
case('sources, dates, x, renamed', source=True, x=True, weight=True, rename=('y', 'weight', 'x', 'date', 'source'))
case('sources, date index', source=True, date='index')


@unit('C11', 'empty table', seconds=20)
def empty(ctx):
    sp = space(0, 'rows')
    df = frame(sp, date=dates('date', sp), y=vec('y', sp))
    ctx.prove(no_raise(need('fc.normalize_df'), 'normalize_df', df) is None, 'an empty input gives None')
