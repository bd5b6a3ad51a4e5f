"""C13 detected frequency."""
from dv.spec import *

H = vals.HOUR
D = vals.DAY
WD = ['W-MON', 'W-TUE', 'W-WED', 'W-THU', 'W-FRI', 'W-SAT', 'W-SUN']


def spec(ctx, sp, d, r):
    """r: the returned code (a plain string or None) on this path; prove it is the documented one.

    gap: the smallest positive difference of two dates of the set."""
    n = sp.n
    two = exists(sp, lambda i: bnot(beq(d.get(i).z, d.get(z3.IntVal(0)).z)))
    # smallest gap: lower bound at every pair of different dates, attained at some pair
    gap = ctx.fresh(I, 'gap')
    a, b = ctx.fresh(I, 'ga'), ctx.fresh(I, 'gb')
    sp.touch(a)
    sp.touch(b)
    ctx.assume(z3.Implies(zb(two), z3.And(zb(sp.in_range(a)), zb(sp.in_range(b)), gap > 0,
                                          d.get(b).z - d.get(a).z == gap)))
    sp.add_pair_fact(lambda i, j: z3.Implies(z3.And(zb(two), d.get(i).z < d.get(j).z), d.get(j).z - d.get(i).z >= gap))
    first = ctx.fresh(I, 'first')
    f0 = ctx.fresh(I, 'f0')
    sp.touch(f0)
    ctx.assume(z3.Implies(n > 0, z3.And(zb(sp.in_range(f0)), d.get(f0).z == first)))
    sp.add_fact(lambda i: d.get(i).z >= first)
    allfirst = bnot(exists(sp, lambda i: vals.cal('day', d.get(i)) != 1))
    allyear = band(allfirst, bnot(exists(sp, lambda i: vals.cal('month', d.get(i)) != 1)))
    wd = vals.weekday_raw(ST(first))
    cases = [
        ('None', z3.Not(zb(two))),
        ('H', gap == H),
        ('W', gap == 7 * D),
        ('M', z3.And(gap >= 28 * D, gap <= 31 * D)),
        ('Q', z3.And(gap >= 89 * D, gap <= 92 * D)),
        ('Y', z3.And(gap >= 365 * D, gap <= 366 * D)),
        ('D', z3.And(gap >= 23 * H, gap < 28 * D, gap != 7 * D)),
        ('small', gap < 23 * H),
    ]
    got = r
    c = dict(cases)
    two_ = zb(two)

    def obl(cond, ok, name):
        ctx.prove(z3.Implies(cond, zb(ok)), name)
    obl(z3.Not(two_), got is None, 'fewer than two different dates: None')
    obl(z3.And(two_, c['H']), got == 'H', 'one hour: H')
    if isinstance(got, str) or got is None:
        obl(z3.And(two_, c['W']), bor(*[band(wd == k, got == WD[k]) for k in range(7)]), 'seven days: W code of the earliest date')
    else:
        obl(z3.And(two_, c['W']), bor(*[band(wd == k, interp.zraw(interp.eq(got, WD[k]))) for k in range(7)]),
            'seven days: W code of the earliest date')
    obl(z3.And(two_, c['M']), ite(zb(allfirst), zb(got == 'MS'), zb(got == 'M')), '28-31 days: M / MS')
    obl(z3.And(two_, c['Q']), got == 'Q', '89-92 days: Q')
    obl(z3.And(two_, c['Y']), ite(zb(allyear), zb(got == 'YS'), zb(got == 'Y')), '365-366 days: Y / YS')
    obl(z3.And(two_, c['D']), got == 'D', 'other gaps of 23 hours up to below 28 days: D')
    obl(z3.And(two_, gap < 23 * H, gap != H), got is None, 'smaller gaps: None')


def final(r):
    r = interp.force(r)
    if isinstance(r, SS):
        for k in WD:
            if C().branch(r.z == z3.StringVal(k)):
                return k
    return r


@unit('C13', 'any dates given as an index')
def u1(ctx):
    sp = space(size('n', 0), 'dates')
    d = dates('dates', sp)
    r = final(no_raise(need('mu.detect_freq'), 'detect_freq', d))
    spec(ctx, sp, d, r)


@unit('C13', 'any dates given as a series')
def u2(ctx):
    sp = space(size('n', 0), 'dates')
    d = dates('dates', sp)
    r = final(no_raise(need('mu.detect_freq'), 'detect_freq', lib_pd.PSeries(d)))
    spec(ctx, sp, d, r)


@unit('C13', 'a table with a date column')
def u3(ctx):
    sp = space(size('n', 0), 'dates')
    d = dates('dates', sp)
    df = frame(sp, date=d, y=vec('y', sp, nan=True))
    r = final(no_raise(need('mu.detect_freq'), 'detect_freq', df))
    spec(ctx, sp, d, r)


@unit('C13', 'a table without dates')
def u4(ctx):
    sp = space(size('n', 0), 'rows')
    df = frame(sp, x=vec('x', sp), y=vec('y', sp, nan=True))
    r = no_raise(need('mu.detect_freq'), 'detect_freq', df)
    ctx.prove(r is None, 'None without dates')
