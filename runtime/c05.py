from common import *
import ref
from anticipy import forecast_models as fm

FAMS = [ref.PLAIN, ref.DATED, ref.DUMMY, ref.MULTI]


def bounded(c, k, p_eq=0.5):
    lo, hi, eq = [], [], []
    for j in range(k):
        a = c.real()
        if c.flip(p_eq):
            lo.append(a), hi.append(a), eq.append(True)
        else:
            t = c.int(0, 3)
            lo.append(-np.inf if t == 0 else a)
            hi.append(np.inf if t in (0, 1) else a + c.pick(1e-9, 0.5, 3.))
            eq.append(False)
    w = c.rng.normal(0, 1, k + 1)

    def f_model(a_x, a_date, params, is_mult=False, **kw):
        return w[0] + sum((w[1 + j] * params[j]) * np.asarray(a_x) ** (j % 3) for j in range(k)) * (2 if is_mult else 1)

    def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
        return np.array([(max(lo[j], -100) + min(hi[j], 100)) / 2 for j in range(k)])
    conv = c.pick(list, np.array, tuple)
    return fm.ForecastModel('m', k, f_model, f_init, lambda a_x=None, a_y=None, a_date=None: (conv(lo), conv(hi))), lo, hi, eq


def check_fixed(c, r, m, fx, x, y, d, rounds=3):
    free = [j for j in range(len(fx)) if np.isnan(fx[j])]
    c.ensure(r.n_params == len(free), 'fixed model has %s parameters, %d left free', r.n_params, len(free))
    c.exact(np.asarray(r.f_init_params(x, y, d)).shape, (len(free),), 'length of the initial guess')
    lo, hi = m.f_bounds(x, y, d)
    blo, bhi = c.call('f_bounds', r.f_bounds, x, y, d)
    c.exact(blo, np.array(lo, dtype=float)[free], 'minimum bounds of free parameters')
    c.exact(bhi, np.array(hi, dtype=float)[free], 'maximum bounds of free parameters')
    np.random.seed(5)
    a = np.array(m.f_init_params(x, y, d), dtype=float)[free]
    np.random.seed(5)
    c.exact(r.f_init_params(x, y, d), a, 'initial guess of free parameters')
    outs = []
    for _ in range(rounds):
        q = [c.real() for _ in free]
        full = np.array(fx, dtype=float)
        full[free] = q
        for mult in (False, True):
            v = c.call('fixed model', r, x, d, c.pick(list, np.array)(q), mult)
            e = m(x, d, full.copy(), mult)
            c.same(v, e, 'prediction of the fixed model')
            outs.append((v, np.array(v, dtype=float)))
    for v, w in outs:
        c.exact(v, w, 'an earlier prediction was changed by a later evaluation')


@check('C05', 'fixing parameters', 300)
def a(c):
    x, d = ref.samples(c)
    y = values(c, len(x))
    if c.flip():
        R = ref.tree(c, d, FAMS, c.int(1, 2))
        m, k = R.model, R.k
        tag = R.tag
    else:
        k = c.int(1, 6)
        m = bounded(c, k, 0.2)[0]
        tag = 'arbitrary'
    fx = [np.nan if c.flip(c.pick(0.2, 0.5, 0.8)) else c.real() for _ in range(k)]
    c.show(model=tag, x=x, date=d, fixed=fx)
    try:
        m.f_bounds(x, y, d), m.f_init_params(x, y, d)
    except Exception:
        raise Skip('the model rejects the series')
    given = c.pick(list, np.array)(fx)
    keep = list(fx)
    r = c.call('fix_params_fmodel', fm.fix_params_fmodel, m, given)
    check_fixed(c, r, m, fx, x, y, d)
    c.exact(np.array(given), np.array(keep), 'list of fixed values changed by evaluation')
    # interleaved use of several fixed models
    fx2 = [np.nan if c.flip() else c.real() for _ in range(k)]
    r2 = fm.fix_params_fmodel(m, fx2)
    check_fixed(c, r2, m, fx2, x, y, d, 1)
    check_fixed(c, r, m, fx, x, y, d, 1)
    # inside a composition
    S = r + r2
    f1, f2 = [j for j in range(k) if np.isnan(fx[j])], [j for j in range(k) if np.isnan(fx2[j])]
    q1, q2 = [c.real() for _ in f1], [c.real() for _ in f2]
    g1, g2 = np.array(fx), np.array(fx2)
    g1[f1], g2[f2] = q1, q2
    c.same(c.call('sum of fixed models', S, x, d, q1 + q2), m(x, d, g1) + m(x, d, g2), 'sum of two fixed models')


@check('C05', 'simplifying models with coinciding bounds', 300)
def b(c):
    x, d = ref.samples(c)
    y = values(c, len(x))
    k = c.int(1, 6)
    m, lo, hi, eq = bounded(c, k)
    if c.flip(0.3):
        m2, lo2, hi2, eq2 = bounded(c, c.int(1, 3))
        m, lo, hi, eq, k = m + m2, lo + lo2, hi + hi2, eq + eq2, k + len(lo2)
    c.show(lo=lo, hi=hi, x=x)
    r = c.call('simplify_model', fm.simplify_model, m, x, y, d)
    if not any(eq):
        c.ensure(r is m, 'a model without coinciding bounds is returned unchanged')
        return
    fx = [lo[j] if eq[j] else np.nan for j in range(k)]
    check_fixed(c, r, m, fx, x, y, d)
    c.ensure(c.call('simplify_model', fm.simplify_model, r, x, y, d) is r, 'simplifying twice')


@check('C05', 'models of the library with one usable value', 60)
def s(c):
    n = c.int(5, 12)
    x = np.sort(c.rng.uniform(0, 20, n))
    y = np.full(n, c.real())
    c.show(x=x, y=y)
    for m in (fm.model_sigmoid_step, fm.model_linear + fm.model_sigmoid_step):
        lo, hi = m.f_bounds(x, y, None)
        r = c.call('simplify_model', fm.simplify_model, m, x, y, None)
        free = [j for j in range(m.n_params) if lo[j] != hi[j]]
        c.ensure(r.n_params == len(free), '%s of a constant series keeps %s parameters', m.name, r.n_params)
        full = np.array(lo, dtype=float)
        q = [c.real(0.1, 2) for _ in free]
        full[free] = q
        c.same(r(x, None, q), m(x, None, full), 'prediction of the simplified model')


@check('C05', 'compositions with a naive model keep their actuals', 60)
def nv(c):
    n = c.int(3, 20)
    x = np.arange(float(n))
    d = pd.date_range('2020-01-01', periods=n)
    df = pd.DataFrame({'date': d, 'x': x, 'y': [c.real() for _ in range(n)]})
    m = fm.model_naive + fm.model_linear
    full = np.array([c.real(), c.real()])
    fx = np.where([c.flip(), c.flip()], np.nan, full)
    c.show(table=df, fixed=fx)
    e = m(x, d, full, df_actuals=df)
    r = c.call('fix_params_fmodel', fm.fix_params_fmodel, m, list(fx))
    c.same(c.call('fixed model', r, x, d, full[np.isnan(fx)], df_actuals=df), e, 'prediction of the fixed model')
    c.same(c.call('get_fixed_model', fm.get_fixed_model(m, list(full)), x, d, [], df_actuals=df), e, 'prediction of the fully fixed model')
