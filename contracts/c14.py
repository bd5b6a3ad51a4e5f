"""C14 gap filling on a regular grid."""
from dv.spec import *

STEP = {'D': DAY, 'H': DAY // 24, 'W-MON': 7 * DAY, 'W-SUN': 7 * DAY, None: 1}


def at0(i):
    return z3.is_int_value(arrays.iexpr(i)) and arrays.iexpr(i).as_long() == 0


class Grid:
    """samples on a regular grid: sample i sits at grid point k(i), strictly increasing"""

    def __init__(self, ctx, freq, x=True, int_x=True, weight=False, dup=False, n=None):
        ctx.any_set_order = True
        self.ctx, self.freq = ctx, freq
        self.step = STEP[freq]
        self.sp = sp = space(size('n', 2) if n is None else n, 'rows')
        kf = ctx.fn('k', I, I)
        self.k = k = lambda i: z3.IntVal(0) if at0(i) else kf(arrays.iexpr(i))
        sp.add_pair_fact(lambda i, j: z3.Implies(zb(i < j), k(i) <= k(j) if dup else k(j) - k(i) >= arrays.iexpr(j) - arrays.iexpr(i)))
        ctx.assume(kf(z3.IntVal(0)) == 0)
        self.last = z3.simplify(arrays.iexpr(sp.n) - 1)
        for i in (z3.IntVal(0), self.last):
            sp.touch(i)
        self.y = vec('y', sp, nan=True)
        cols = {}
        self.d = self.x = None
        if freq is not None:
            d0 = stamp('first')
            if freq.startswith('W-'):
                wd = ['MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT', 'SUN'].index(freq[2:])
                q = ctx.fresh(I, 'week')
                tod = ctx.fresh(I, 'tod')
                ctx.assume(z3.And(d0.z == (q * 7 + wd - 3) * DAY + tod, tod >= 0, tod < DAY))
            self.d = SArr(sp, lambda i: ST(arrays.simp_i(d0.z + k(i) * self.step)), 'time')
            cols['date'] = self.d
        if x:
            x0 = integer('x0')
            c = {'D': 1, 'W-MON': 7, 'W-SUN': 7, None: 1}.get(freq, 1)
            xs = lambda i: x0.z + c * k(i)
            self.x = SArr(sp, (lambda i: mki(xs(i))) if int_x else (lambda i: SF(z3.ToReal(xs(i)))), 'int' if int_x else 'float')
            self.xs = lambda p: x0.z + c * p
            self.int_x = int_x
            cols['x'] = self.x
        cols['y'] = self.y
        self.w = None
        if weight:
            self.w = cols['weight'] = vec('weight', sp, nan=True)
        self.df = frame(sp, **cols)
        self.cols = cols
        stub('mu.detect_freq', lambda b: self.freq if n != 1 else None)

    def point(self, p):
        """some sample sits at grid point p"""
        return arrays.exists(self.sp, lambda i: self.k(i) == p, 'sample_at')


def fill(name, freq, mask, interp_y, seconds=120, tier='quick', **kw):
    @unit('C14', name, seconds=seconds, tier=tier)
    def u(ctx):
        t = Grid(ctx, freq, **kw)
        sp, k = t.sp, t.k
        fr = need('mu.interpolate_df')
        out = no_raise(fr, 'interpolate_df', t.df, include_mask=mask, interpolate_y=interp_y)
        if out is t.df:
            # nothing to fill: every grid point has a sample, or the samples are evenly spaced
            p = ctx.fresh(I, 'p')
            i = ctx.fresh(I, 'i')
            for v in (i, i + 1, z3.IntVal(1)):
                sp.touch(v)
            for g in ctx.__dict__.get('tab_grids', {}).get('all', []):
                g.touch(p)
            inside = z3.And(p >= 0, p <= k(t.last))
            at = t.point(p)
            even = z3.Implies(z3.And(i >= 0, i + 1 < zi(sp.n)), k(i + 1) - k(i) == k(z3.IntVal(1)))
            if freq == 'D':
                even = z3.And(even, z3.Implies(zi(sp.n) > 1, k(z3.IntVal(1)) == 1))
            ctx.prove(z3.Or(z3.Implies(inside, zb(at)), even), 'a series with missing grid points is filled')
            return
        osp = out.space
        want = set(t.cols) | ({'is_gap_filled'} if mask and t.x is not None else set())
        ctx.prove(set(columns(out)) == want, 'the columns')
        a = {c: as_array(interp.getitem(out, c)) for c in want}
        r = ctx.fresh(I, 'r')
        osp.touch(r)
        inr = zb(osp.in_range(r))
        # the rows are the grid points from the first to the last sample
        ctx.prove(zb(beq(osp.n, k(t.last) + 1)), 'one row per grid point')
        if t.d is not None:
            ctx.prove(z3.Implies(inr, iz(a['date'].get(r).z) == iz(t.d.get(0).z) + r * t.step), 'the grid points in order')
        else:
            ctx.prove(z3.Implies(inr, zb(cell_same(sf(a['x'].get(r)), sf(mki(t.xs(r)))))), 'the grid points in order')
        # every sample is there
        e = ctx.fresh(I, 'e')
        sp.touch(e)
        osp.touch(k(e))
        ine = zb(sp.in_range(e))
        for c in t.cols:
            v = t.cols[c].get(e)
            hyp = ine
            if interp_y and c in ('y', 'weight'):
                hyp = z3.And(ine, zb(bnot(isnan(v))))
            w = a[c].get(k(e))
            ctx.prove(z3.Implies(hyp, zb(cell_same(sf(w) if c in ('x', 'y', 'weight') else w, sf(v) if c in ('x', 'y', 'weight') else v))), 'samples keep their %s' % c)
        # the others are inserted
        new = z3.And(inr, z3.Not(zb(t.point(r))))
        if not interp_y:
            ctx.prove(z3.Implies(new, zb(isnan(a['y'].get(r)))), 'inserted rows have no value')
        else:
            line(ctx, t, a['y'], r, new)
        ctx.prove(z3.Implies(new, z3.And(r > 0, r < k(t.last))), 'inserted rows lie between the first and the last sample')
        if mask and t.x is not None:
            m = a['is_gap_filled']
            b = lambda i: zb(interp.truth_z(m.get(i)) if hasattr(interp, 'truth_z') else m.get(i).z)
            ctx.prove(z3.Implies(new, b(r)), 'the mask flags inserted rows')
            ctx.prove(z3.Implies(ine, z3.Not(b(k(e)))), 'the mask flags no sample')


def line(ctx, t, y, r, new):
    """an inserted value lies on the line through the nearest samples with values on both sides"""
    sp = t.sp
    p, q, i = ctx.fresh(I, 'p'), ctx.fresh(I, 'q'), ctx.fresh(I, 'i')
    for v in (p, q):
        sp.touch(v)
        y.space.touch(t.k(v))
    near = z3.And(zb(sp.in_range(p)), zb(sp.in_range(q)), t.k(p) < r, r < t.k(q), zb(bnot(isnan(t.y.get(p)))), zb(bnot(isnan(t.y.get(q)))))
    ctx.assume(near)
    sp.add_fact(lambda i: z3.Implies(z3.And(i > p, i < q), zb(isnan(t.y.get(i)))))
    want = lib_pd.on_line(sf(t.y.get(p)).r, sf(t.y.get(q)).r, t.k(p), t.k(q), r)
    ctx.prove(z3.Implies(new, zb(cell_same(sf(y.get(r)), SF(want)))), 'an inserted value lies on the line between its neighbours')


def iz(i):
    return arrays.iexpr(i)


for _f in ('D', 'W-MON', 'H', None):
    for _m in (False, True):
        for _i in (False, True):
            if _f == 'H' and _m:
                continue
            fill('%s, %s, %s' % ({None: 'numbers'}.get(_f, _f), 'mask' if _m else 'no mask', 'interpolated' if _i else 'null'), _f, _m, _i, x=_f != 'H')
fill('D, weight, real x', 'D', True, True, weight=True, int_x=False)
fill('D, no x', 'D', True, False, x=False)


def refused(freq, mask):
    @unit('C14', '%s, several samples at one point%s' % (freq or 'numbers', ', mask' if mask else ''), seconds=120)
    def u(ctx):
        t = Grid(ctx, freq, dup=True, weight=mask)
        e = ctx.fresh(I, 'twice')
        for v in (e, e + 1):
            t.sp.touch(v)
        ctx.assume(t.k(t.last) > 0)       # at least two different points
        ctx.assume(z3.And(e >= 0, e + 1 < zi(t.sp.n), t.k(e) == t.k(e + 1)))
        try:
            out = call(need('mu.interpolate_df'), [t.df], dict(include_mask=mask))
        except PyRaise as x:
            ctx.prove(issubclass(getattr(x.exc, 'cls', Exception), ValueError), 'refused with a ValueError: %s' % short(x))
            return
        ctx.prove(out is t.df, 'never filled with several samples at one point')


for _f in ('D', 'W-MON', None):
    refused(_f, False)
refused('D', True)


@unit('C14', 'a single sample')
def single_sample(ctx):
    for f in ('D', None):
        t = Grid(ctx, f, n=1)
        ctx.prove(no_raise(need('mu.interpolate_df'), 'interpolate_df', t.df, include_mask=True) is t.df, 'returned unchanged (%s)' % f)
