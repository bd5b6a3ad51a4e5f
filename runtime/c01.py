from common import *
import ref
from anticipy import forecast_models as fm


def rand_model(c, name, k, log):
    """a model with a pure arbitrary function that records how it was called"""
    w = c.rng.normal(0, 1, k + 1)

    def f_model(a_x, a_date, params, is_mult=False, **kw):
        log.append((name, bool(is_mult), [float(v) for v in params]))
        assert len(params) == k
        return w[0] + np.asarray(a_x) * sum(w[1 + j] * params[j] for j in range(k)) + (0.5 if is_mult else 0.0)

    def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
        return np.array([w[0] + j + (100 if is_mult else 0) for j in range(k)])

    def f_bounds(a_x=None, a_y=None, a_date=None):
        return ([w[0] - j - 5 for j in range(k)], [w[0] + j + 500 for j in range(k)])
    lim = c.int(0, 12)

    def f_val(a_x, a_y, a_date):
        assert len(a_x) >= lim
    return fm.ForecastModel(name, k, f_model, f_init, f_bounds, f_val), f_val, w, lim


@check('C01', 'arbitrary parts: values, parameter slices, mode, guess, bounds, validation', 150)
def a(c):
    log = []
    ka, kb, kc = c.int(0, 3), c.int(0, 3), c.int(0, 3)
    na, nb, nc = c.pick(('a', 'b', 'c'), ('m', 'm', 'n'), ('x+y', 'x', 'y'), ('z', 'a', 'b'))
    A, va, wa, la = rand_model(c, na, ka, log)
    B, vb, wb, lb = rand_model(c, nb, kb, log)
    x, d = ref.samples(c)
    y = values(c, len(x))
    p = [c.real() for _ in range(ka + kb)]
    conv = c.pick(list, np.array, tuple)
    outer = c.flip()
    mul = c.flip()
    c.show(names=(na, nb), k=(ka, kb), x=x, params=p, mul=mul, outer=outer)
    M = A * B if mul else A + B
    c.ensure(M.n_params == ka + kb, 'parameter count %s', M.n_params)
    y1 = c.call('composition', M, x, d, conv(p), outer)
    calls = list(log)
    exp_a = A.f_model(x, d, p[:ka], is_mult=mul)
    exp_b = B.f_model(x, d, p[ka:], is_mult=mul)
    c.exact(y1, exp_a * exp_b if mul else exp_a + exp_b, 'value of the composition')
    c.ensure(sorted(calls) == sorted([(na, mul, p[:ka]), (nb, mul, p[ka:])]), 'parts were called as %s', calls)
    i0 = c.call('f_init_params', M.f_init_params, x, y, d, c.flip())
    c.exact(i0, np.concatenate([A.f_init_params(x, y, d, mul), B.f_init_params(x, y, d, mul)]), 'initial guess')
    lo, hi = c.call('f_bounds', M.f_bounds, x, y, d)
    c.exact(lo, np.concatenate([A.f_bounds()[0], B.f_bounds()[0]]), 'minimum bounds')
    c.exact(hi, np.concatenate([A.f_bounds()[1], B.f_bounds()[1]]), 'maximum bounds')
    c.ensure(bool(M.validate_input(x, y, d)) == (len(x) >= la and len(x) >= lb), 'validation accepts n=%d for limits %s', len(x), (la, lb))
    # three parts, both groupings
    C_, vc, wc, lc = rand_model(c, nc, kc, log)
    mul2 = c.flip()
    p3 = p + [c.real() for _ in range(kc)]
    left = (M * C_) if mul2 else (M + C_)
    ym = M(x, d, p, mul2)
    yc = C_.f_model(x, d, p3[ka + kb:], is_mult=mul2)
    c.exact(c.call('left', left, x, d, p3), ym * yc if mul2 else ym + yc, '(a.b).c')
    right = (C_ * M) if mul2 else (C_ + M)
    p4 = p3[ka + kb:] + p
    c.exact(c.call('right', right, x, d, p4), yc * ym if mul2 else yc + ym, 'c.(a.b)')
    c.ensure(bool(left.validate_input(x, y, d)) == (len(x) >= max(la, lb, lc)), 'validation of three parts')
    c.ensure(bool(right.validate_input(x, y, d)) == (len(x) >= max(la, lb, lc)), 'validation of three parts')
    c.ensure(fm.model_null + M is M and M + fm.model_null is M and fm.model_null * M is M and M * fm.model_null is M,
             'null model')


@check('C01', 'compositions of the predefined models', 150)
def b(c):
    x, d = ref.samples(c)
    fams = [ref.PLAIN, ref.DATED, ref.DUMMY, ref.MULTI, ref.NULL]
    A = ref.tree(c, d, fams, c.int(1, 3))
    B = ref.tree(c, d, fams, c.int(1, 3))
    M = A * B if c.flip() else A + B
    p = M.params(c, x, d)
    c.show(model=M.tag, x=x, date=d, params=p)
    r = c.call(M.tag, M.model, x, d, c.pick(list, np.array)(p))
    c.ensure(M.model.n_params == M.k, 'parameter count')
    e = M.evaluate(x, d, p, False)
    if np.isfinite(e).all():
        if np.ndim(r) == 0:
            r = np.full(len(x), float(r))
        c.same(r, e, 'composition ' + M.tag, 1e-8, 1e-8)
    # the model slots used elsewhere stay usable: sum() and prod() of models
    for m, f in ((A.model, np.sum), (A.model, np.prod)):
        q = f([A.model, B.model])
        c.ensure(q.n_params == A.k + B.k, 'np.sum/np.prod of models')
    y = np.abs(values(c, len(x))) + 1
    for q in (A.model + B.model, A.model * B.model):
        c.ensure(bool(q.validate_input(x, y, d)) == (bool(A.model.validate_input(x, y, d)) and bool(B.model.validate_input(x, y, d))),
                 'validation of the composition')


@check('C01', 'composition with arbitrary functions of extra arguments', 40)
def e(c):
    seen = []

    def mk(name):
        def f(a_x, a_date, params, is_mult=False, **kw):
            seen.append((name, sorted(kw)))
            return np.full(len(a_x), params[0]) * kw.get('scale', 1.0)
        return fm.ForecastModel(name, 1, f)
    A, B, C_ = mk('a'), mk('b'), mk('c')
    x, d = ref.samples(c)
    s = c.real()
    c.show(scale=s)
    for M, f in (((A + B) * C_, lambda: (1 * s) * 0), ((A * B) + C_, None)):
        del seen[:]
        r = c.call('composition', M, x, d, [2., 3., 5.], scale=s)
        c.ensure(sorted(seen) == [('a', ['scale']), ('b', ['scale']), ('c', ['scale'])], 'extra arguments reach every part: %s', seen)
        v = (2 * s + 3 * s) * (5 * s) if f else (2 * s) * (3 * s) + 5 * s
        c.same(r, np.full(len(x), v), 'value')
