"""C01 composition of arbitrary models."""
from dv.spec import *


def data():
    n = size('n', 0)
    sp = space(n, 'samples')
    return sp, vec('a_x', sp), vec('a_y', sp), dates('a_date', sp)


def comp(a, b, mult):
    return interp.binop('*' if mult else '+', a, b)


def slices(p, k1):
    n = p.n
    z = z3.IntVal(0)
    a = SArr(Space(k1), lambda i: p.get(i), 'float')
    b = SArr(Space(arrays.simp_i(arrays.iexpr(n) - k1)), lambda i: p.get(arrays.simp_i(arrays.iexpr(i) + k1)), 'float')
    return a, b


for _m in (False, True):
    T = 'product' if _m else 'sum'

    @unit('C01', 'f_model of a %s is the %s of its parts on consecutive slices' % (T, T), seconds=60)
    def u(ctx, mult=_m):
        m1, m2 = gen_model('m1'), gen_model('m2')
        m = comp(m1, m2, mult)
        sp, x, y, d = data()
        k1, k2 = zi(attr(m1, 'n_params')), zi(attr(m2, 'n_params'))
        ctx.prove(zb(beq(zi(attr(m, 'n_params')), k1 + k2)), 'n_params is the sum')
        p = vec('params', space(k1 + k2))
        extra = {'a_extra': vec('a_extra', sp)}
        r = no_raise(attr(m, 'f_model'), 'f_model', x, d, p, is_mult=mult, **extra)
        p1, p2 = slices(p, k1)
        r1 = call(attr(m1, 'f_model'), [x, d, p1], dict(is_mult=mult, **extra))
        r2 = call(attr(m2, 'f_model'), [x, d, p2], dict(is_mult=mult, **extra))
        op = num_mul if mult else num_add
        post_elements(r, sp, lambda i: op(r1.get(i), r2.get(i)), 'composition')
        # the enclosing composition's own mode must not leak into the parts
        r3 = no_raise(attr(m, 'f_model'), 'f_model', x, d, p, is_mult=not mult, **extra)
        post_elements(r3, sp, lambda i: op(r1.get(i), r2.get(i)), 'composition, outer mode ignored')

    @unit('C01', 'initial guess of a %s is the concatenation' % T)
    def u2(ctx, mult=_m):
        m1, m2 = gen_model('m1'), gen_model('m2')
        m = comp(m1, m2, mult)
        sp, x, y, d = data()
        k1, k2 = zi(attr(m1, 'n_params')), zi(attr(m2, 'n_params'))
        r = as_array(no_raise(attr(m, 'f_init_params'), 'f_init_params', x, y, d, not mult))
        if r is None:
            ctx.prove(False, 'initial guess is an array')
            return
        i1 = call(attr(m1, 'f_init_params'), [x, y, d], {'is_mult': mult})
        i2 = call(attr(m2, 'f_init_params'), [x, y, d], {'is_mult': mult})
        ctx.prove(zb(beq(r.n, k1 + k2)), 'length')
        forall(Space(k1), lambda i: cell_same(r.get(i), i1.get(i)), 'first part first')
        forall(Space(k2), lambda i: cell_same(r.get(arrays.iexpr(i) + k1), i2.get(i)), 'second part second')

    @unit('C01', 'bounds of a %s are the concatenation' % T)
    def u3(ctx, mult=_m):
        m1, m2 = gen_model('m1'), gen_model('m2')
        m = comp(m1, m2, mult)
        sp, x, y, d = data()
        k1, k2 = zi(attr(m1, 'n_params')), zi(attr(m2, 'n_params'))
        r = no_raise(attr(m, 'f_bounds'), 'f_bounds', x, y, d)
        rows = interp.iterate(r)
        ctx.prove(len(rows) == 2, 'a pair of bounds')
        b1, b2 = call(attr(m1, 'f_bounds'), [x, y, d], {}), call(attr(m2, 'f_bounds'), [x, y, d], {})
        for k, nm in enumerate(('minimum', 'maximum')):
            a = as_array(rows[k])
            if a is None:
                a = lib_np.arr(rows[k])
            ctx.prove(zb(beq(a.n, k1 + k2)), nm + ' length')
            forall(Space(k1), lambda i: cell_same(a.get(i), b1[k].get(i)), nm + ' first part first')
            forall(Space(k2), lambda i: cell_same(a.get(arrays.iexpr(i) + k1), b2[k].get(i)), nm + ' second part second')

    @unit('C01', 'a %s accepts exactly the inputs both parts accept' % T)
    def u4(ctx, mult=_m):
        m1, m2 = gen_model('m1'), gen_model('m2')
        m = comp(m1, m2, mult)
        sp, x, y, d = data()
        r = no_raise(attr(m, 'validate_input'), 'validate_input', x, y, d)
        v1 = no_raise(attr(m1, 'validate_input'), 'validate_input', x, y, d)
        v2 = no_raise(attr(m2, 'validate_input'), 'validate_input', x, y, d)
        ctx.prove(zb(interp.truth(r)) == z3.And(zb(interp.truth(v1)), zb(interp.truth(v2))), 'accepts iff both accept')

    @unit('C01', 'null is neutral for a %s' % T)
    def u5(ctx, mult=_m):
        null = need('fm.model_null')
        m1 = gen_model('m1')
        ctx.prove(comp(m1, null, mult) is m1, 'm o null is m')
        ctx.prove(comp(null, m1, mult) is m1, 'null o m is m')
        ctx.prove(interp.eq(comp(null, null, mult), null) is True, 'null o null is null')

    @unit('C01', 'nested %s' % T, seconds=90)
    def u6(ctx, mult=_m):
        ms = [gen_model('m%d' % j, validator=False) for j in range(3)]
        for nm, m in (('left', comp(comp(ms[0], ms[1], mult), ms[2], mult)),
                      ('right', comp(ms[0], comp(ms[1], ms[2], mult), mult))):
            sp, x, y, d = data()
            ks = [zi(attr(q, 'n_params')) for q in ms]
            p = vec('params', space(ks[0] + ks[1] + ks[2]))
            r = no_raise(attr(m, 'f_model'), 'f_model', x, d, p)
            parts = []
            off = z3.IntVal(0)
            for q, k in zip(ms, ks):
                pp = SArr(Space(k), lambda i, off=off: p.get(arrays.simp_i(arrays.iexpr(i) + off)), 'float')
                parts.append(call(attr(q, 'f_model'), [x, d, pp], {'is_mult': mult}))
                off = off + k
            op = num_mul if mult else num_add
            post_elements(r, sp, lambda i: op(op(parts[0].get(i), parts[1].get(i)), parts[2].get(i)), nm + ' nesting')


@unit('C01', 'sum of several models and reflected operators')
def u7(ctx):
    ms = [gen_model('m%d' % j, name='m%d' % j, validator=False) for j in range(2)]
    for mult in (False, True):
        m = comp(ms[0], ms[1], mult)
        m2 = call(attr(ms[1], '__rmul__' if mult else '__radd__'), [ms[0]], {})
        ctx.prove(zb(beq(zi(attr(m, 'n_params')), zi(attr(m2, 'n_params')))), 'reflected operator composes the same parts')
        ctx.prove(interp.eq(m, ms[0]) is False, 'a composition is not its part')
        ctx.prove(interp.eq(comp(ms[0], ms[1], False), comp(ms[0], ms[1], True)) is False, 'sum and product differ')
