"""Shared by C09 and C10: an arbitrary table, an arbitrary well-behaved model, and fit_model run on them."""
from dv.spec import *


class Fit:
    def __init__(self, ctx, weight, date, dup, k=None, sc='n', use_cache=True, validator=False):
        self.ctx = ctx
        ctx.any_set_order = True
        self.sp = sp = space(size('n', 0), 'rows')
        self.x = vec('x', sp)
        self.y = vec('y', sp, nan=True)
        self.w = vec('weight', sp, nan=True) if weight else None
        self.d = dates('date', sp) if date else None
        cols = {}
        if date:
            cols['date'] = self.d
        cols.update(x=self.x, y=self.y)
        if weight:
            cols['weight'] = self.w
        self.df = frame(sp, **cols)
        self.use = subset_of(sp, self.usable)
        if not dup:
            u = self.use
            u.add_pair_fact(lambda i, j: z3.Implies(zb(i < j), zb(bnot(beq(self.x.get(u.src(i)).r, self.x.get(u.src(j)).r)))))
        self.m = gen_model('m', k=k, validator=validator)
        self.k = zi(k) if k is not None else zi(attr(self.m, 'n_params'))
        if sc == 'n':       # x is used as it is
            nm = attr(self.m, 'name')
            ctx.assume(z3.And(nm.z != z3.StringVal('sigmoid'), nm.z != z3.StringVal('logistic')))

    def usable(self, i):
        y = self.y.get(i)
        c = bnot(isnan(y))
        if self.w is not None:
            w = self.w.get(i)
            c = band(c, bnot(w.nan), w.r > 0)
        return c

    def good_model(self):
        """precondition of fitting (C03): bounds are proper intervals and the initial guess lies in them"""
        # the stubs of an arbitrary model answer equally for equal arguments, so this instance is the one the code sees
        m = self.m
        mk = m.gen[2].make
        ini = m.gen[1].make

        bnds, inis = [], []

        def relate(v, lo, hi):
            v.space.add_fact(lambda i: zb(band(f_le(lo.get(i), v.get(i)), f_le(v.get(i), hi.get(i)))))

        def bounds(b, extra):
            lo, hi = mk(b, extra)
            lo.space.add_fact(lambda i: zb(f_lt(lo.get(i), hi.get(i))))
            for v in inis:
                relate(v, lo, hi)
            bnds.append((lo, hi))
            return lo, hi

        def init(b, extra):
            v = ini(b, extra)
            for lo, hi in bnds:
                relate(v, lo, hi)
            inis.append(v)
            return v
        m.gen[2].make = bounds
        m.gen[1].make = init

    def rejected(self):
        v = self.m.gen[3]
        return v is not None and any(isinstance(r, PyRaise) for _, _, r in v.calls)

    def run(self, **kw):
        return no_raise(need('fc.fit_model'), 'fit_model', self.m, self.df, **kw)


def subset_of(sp, cond):
    s, src = lib_pd.subset(sp, cond, 'usable')
    s.src = src
    return s
