"""C20 eligibility of ramps, calendars and automatic seasonality; combinations of trends and seasons."""
from dv.spec import *

D = vals.DAY


class Dates:
    """an arbitrary table of dates (any order, repeated), optionally weighted, and the facts about its usable dates"""

    def __init__(self, ctx, weight):
        self.ctx = ctx
        self.sp = sp = space(size('n', 0), 'rows')
        self.d = dates('dates', sp)
        self.w = vec('weight', sp, nan=True) if weight else None
        cols = dict(date=self.d, y=vec('y', sp, nan=True))
        if weight:
            cols['weight'] = self.w
        self.df = frame(sp, **cols)

    def usable(self, i):
        if self.w is None:
            return True
        w = self.w.get(i)
        return band(bnot(w.nan), w.r > 0)

    def measure(self):
        """first and last usable date and the smallest positive distance of two usable dates, by their defining properties"""
        if hasattr(self, 'some'):
            return
        ctx, sp = self.ctx, self.sp
        lo, hi, ga, gb = [ctx.fresh(I, k) for k in ('lo', 'hi', 'ga', 'gb')]
        self.some, self.two = ctx.fresh(B, 'some'), ctx.fresh(B, 'two')
        D_ = lambda i: self.d.get(i).z
        ok = lambda i: zb(band(sp.in_range(i), self.usable(i)))
        for k in (lo, hi, ga, gb):
            sp.touch(k)
        self.first, self.last, self.gap = D_(lo), D_(hi), D_(gb) - D_(ga)
        ctx.assume(z3.Implies(self.some, z3.And(ok(lo), ok(hi))))
        ctx.assume(z3.Implies(self.two, z3.And(ok(ga), ok(gb), self.gap > 0)))
        sp.add_fact(lambda i: z3.Implies(zb(self.usable(i)), z3.And(self.some, D_(i) >= self.first, D_(i) <= self.last)))
        sp.add_pair_fact(lambda i, j: z3.Implies(z3.And(zb(self.usable(i)), zb(self.usable(j)), D_(i) < D_(j)),
                                                 z3.And(self.two, D_(j) - D_(i) >= self.gap)))

    def span_over(self, lim):
        """two usable dates are further apart than lim"""
        self.measure()
        return z3.And(self.some, self.last - self.first > lim)

    def gap_upto(self, lim):
        """two different usable dates are at most lim apart"""
        self.measure()
        return z3.And(self.two, self.gap <= lim)


def outcome(ctx, r):
    r = interp.force(r)
    if isinstance(r, bool):
        return r
    return ctx.branch(zb(interp.truth(r)) if not isinstance(r, SB) else r.z, 'outcome')


def elig(nm, f, build):
    for weight in (True, False):
        def body(ctx, weight=weight):
            t = Dates(ctx, weight)
            want = build(t)
            r = no_raise(need(f), f, t.df)
            ctx.prove(zb(outcome(ctx, r)) == want, nm)
        unit('C20', '%s, %s' % (nm, 'weights' if weight else 'no weights'))(body)


elig('the ramp needs more than two years of usable dates', 'fc._get_use_ramp', lambda t: t.span_over(730 * D))
elig('calendars need at least daily usable dates over more than a year', 'fc._get_use_calendar',
     lambda t: z3.And(t.span_over(365 * D), t.gap_upto(D)))


@unit('C20', 'no ramp and no calendar without dates')
def nodate(ctx):
    sp = space(size('n', 0), 'rows')
    df = frame(sp, x=vec('x', sp), y=vec('y', sp, nan=True), weight=vec('w', sp, nan=True))
    ctx.prove(zb(bnot(zb(outcome(ctx, no_raise(need('fc._get_use_ramp'), 'ramp', df))))), 'no ramp')
    ctx.prove(zb(bnot(zb(outcome(ctx, no_raise(need('fc._get_use_calendar'), 'calendar', df))))), 'no calendar')


# ---------------------------------------------------------------- automatic seasonality

def index_dates(ctx):
    """facts about an arbitrary array of dates"""
    t = Dates.__new__(Dates)
    t.ctx, t.w = ctx, None
    t.sp = space(size('n', 0), 'dates')
    t.d = dates('dates', t.sp)
    return t


def model_names(r):
    return [interp.force(attr(m, 'name')) for m in interp.iterate(r)]


def auto(opt_w, opt_y, mode):
    @unit('C20', 'automatic seasonality: weekly %s, yearly %s, %s' % (opt_w, opt_y, mode), seconds=120)
    def body(ctx):
        ctx.any_set_order = True        # the order of list(set(cache variables)) is taken as given here: only C04 depends on it
        t = index_dates(ctx)
        wk = z3.And(t.span_over(10 * D + D // 2), t.gap_upto(D))
        yr = z3.And(t.span_over(547 * D + D // 2), t.gap_upto(92 * D))
        null, wday, four = need('fm.model_null'), need('fm.model_season_wday'), need('fm.model_season_fourier_yearly')
        cw, cy = need('fm.model_season_month_old'), need('fm.model_linear')
        lw = {'default': None, 'empty': [], 'given': [cw, null]}[opt_w]
        ly = {'default': None, 'empty': [], 'given': [cy]}[opt_y]
        r = no_raise(need('fm.get_l_model_auto_season'), 'auto season', t.d, season_add_mult=mode, l_season_weekly=lw, l_season_yearly=ly)
        got = list(interp.iterate(r))
        names = [interp.force(attr(m, 'name')) for m in got]
        if not all(isinstance(x, str) for x in names):
            raise Unsupported('model names depend on the data')
        for qw in (False, True):
            for qy in (False, True):
                W = {'default': [wday, null], 'empty': [null], 'given': [cw, null]}[opt_w] if qw else [null]
                Y = {'default': [four, null], 'empty': [null], 'given': [cy]}[opt_y] if qy else [null]
                want = ['null']
                for a in W:
                    for b in Y:
                        c = interp.binop('+' if mode == 'add' else '*', a, b)
                        if c is not null:
                            want.append(interp.force(attr(c, 'name')))
                ctx.prove(z3.Implies(z3.And(wk == qw, yr == qy), zb(sorted(names) == sorted(want))),
                          'exactly the combinations of the %s weekly and %s yearly components' % ('offered' if qw else 'no', 'offered' if qy else 'no'))


for _w in ('default', 'empty', 'given'):
    for _y in ('default', 'empty', 'given'):
        for _m in ('add', 'mult'):
            auto(_w, _y, _m)


# ---------------------------------------------------------------- combinations of trends and seasons

def combos(nt, ns, mode, concrete=False):
    @unit('C20', 'combinations of %d trends and %d seasons, %s' % (nt, ns, mode), seconds=60)
    def body(ctx):
        ctx.any_set_order = True
        T = [gen_model('t%d' % i) for i in range(nt)]
        S = [gen_model('s%d' % i) for i in range(ns)]
        lt, ls = list(T), list(S)
        r = no_raise(need('fc.get_list_model'), 'get_list_model', T, S, mode)
        got = [x for x in interp.iterate(r)]
        want = []
        for a in lt:
            for b in ls:
                if mode in ('add', 'both'):
                    want.append(interp.binop('+', a, b))
                if mode in ('mult', 'both'):
                    want.append(interp.binop('*', a, b))
        if not ns:
            want = lt
        elif not nt:
            want = ls
        same = lambda a, b: zb(interp.zraw(interp.eq(attr(a, 'name'), attr(b, 'name'))))
        for w in want:
            ctx.prove(bor(*[same(w, x) for x in got]), 'every combination is there')
        for x in got:
            ctx.prove(bor(*[same(w, x) for w in want]), 'nothing but combinations')
        for i in range(len(got)):
            for j in range(i):
                ctx.prove(bnot(same(got[i], got[j])), 'no duplicates')
        ctx.prove(len(lt) == len(T) and len(ls) == len(S) and all(a is b for a, b in zip(lt + ls, T + S)), 'the given lists are unchanged')


for _m in ('add', 'mult', 'both'):
    for _nt, _ns in ((1, 1), (2, 1), (1, 2), (2, 2), (0, 2), (2, 0)):
        combos(_nt, _ns, _m)
