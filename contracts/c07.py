"""C07 AICc formula and best key."""
from dv.spec import *
from dv.vals import f_log


def aicc(e, n, k):
    lg = num_sub(f_log(sf(e)), f_log(sf(n)))
    a = num_mul(sf(n), lg)
    b = num_add(a, num_mul(sf(2), sf(k)))
    c = num_div(num_mul(num_mul(sf(2), sf(k)), num_add(sf(k), sf(1))), num_sub(num_sub(sf(n), sf(k)), sf(1)))
    return num_add(b, c)


def sizes():
    k = integer('n_params', 0)
    n = integer('n', 0)
    return n, k


@unit('C07', 'formula for positive error')
def u1(ctx):
    n, k = sizes()
    e = real('E')
    ctx.assume(z3.And(e.r > 0, n.z > k.z + 1))
    r = no_raise(need('mu.get_aic_c'), 'get_aic_c', e, n, k)
    ctx.prove(zb(cell_same(r, aicc(e, n, k))), 'n log(E/n) + 2k + 2k(k+1)/(n-k-1)')


@unit('C07', 'too short a series is refused')
def u2(ctx):
    n, k = sizes()
    e = real('E')
    ctx.assume(z3.And(e.r >= 0, n.z <= k.z + 1))
    ctx.prove(raises(need('mu.get_aic_c'), ValueError, e, n, k), 'ValueError')


@unit('C07', 'defined for a perfect fit')
def u3(ctx):
    n, k = sizes()
    ctx.assume(n.z > k.z + 1)
    r = no_raise(need('mu.get_aic_c'), 'get_aic_c', 0.0, n, k)
    ctx.prove(zb(bnot(isnan(r))), 'not null')
    r = sf(r)
    ctx.prove(zb(bnot(beq(r.inf, 1))), 'not +inf')
    e = real('E')
    ctx.assume(e.r >= z3.RealVal('1e-300'))
    r2 = sf(no_raise(need('mu.get_aic_c'), 'get_aic_c', e, n, k))
    ctx.prove(zb(f_lt(r, r2)), 'below the score of any noticeable error')


@unit('C07', 'strictly increasing in the error')
def u4(ctx):
    n, k = sizes()
    e1, e2 = real('E1'), real('E2')
    ctx.assume(z3.And(n.z > k.z + 1, e1.r > 0, e1.r < e2.r))
    f = need('mu.get_aic_c')
    ctx.prove(zb(f_lt(sf(no_raise(f, 'get_aic_c', e1, n, k)), sf(no_raise(f, 'get_aic_c', e2, n, k)))), 'score grows with E')


@unit('C07', 'increasing in the number of parameters')
def u5(ctx):
    n, k = sizes()
    e = real('E')
    k2 = SI(k.z + 1)
    ctx.assume(z3.And(n.z > k.z + 2, e.r > 0))
    f = need('mu.get_aic_c')
    ctx.prove(zb(f_lt(sf(no_raise(f, 'get_aic_c', e, n, k)), sf(no_raise(f, 'get_aic_c', e, n, k2)))), 'score grows with k', ms=20000)


@unit('C07', 'best key of an arbitrary table of scores')
def u6(ctx):
    n = size('rows', 0)
    sp = space(n, 'scores')
    f, g_, h = ctx.fn('score', I, R), ctx.fn('null', I, B), ctx.fn('sinf', I, I)

    def cell(i):
        i = arrays.iexpr(i)
        return SF(f(i), g_(i), z3.If(h(i) < 0, z3.IntVal(-1), z3.If(h(i) > 0, z3.IntVal(1), z3.IntVal(0))))
    a = SArr(sp, cell, 'float')
    inp('scores', a)
    keys = vec('keys', sp, dtype='str', kind='index')
    sp.add_pair_fact(lambda i, j: z3.Implies(zb(bnot(beq(i, j))), keys.get(i).z != keys.get(j).z))
    s = lib_pd.PSeries(a, keys)
    r = no_raise(need('mu.get_s_aic_c_best_result_key'), 'best key', s)
    if r is None:
        forall(sp, lambda i: a.get(i).nan, 'None only when all scores are null')
        return
    ctx.prove(zb(exists(sp, lambda i: bnot(a.get(i).nan))), 'a key only when some score is not null')
    w = exists(sp, lambda i: band(eq_key(keys.get(i), r), bnot(a.get(i).nan)))
    ctx.prove(zb(w), 'the key is in the table and its score is not null')
    i, j = ctx.fresh(I, 'i'), ctx.fresh(I, 'j')
    sp.touch(i)
    sp.touch(j)
    ctx.prove(z3.Implies(zb(band(sp.in_range(i), sp.in_range(j), eq_key(keys.get(i), r), bnot(a.get(j).nan))),
                         zb(f_le(a.get(i), a.get(j)))), 'no other score is smaller')


def eq_key(a, b):
    return interp.zraw(interp.eq(a, b)) if not isinstance(interp.eq(a, b), bool) else interp.eq(a, b)
