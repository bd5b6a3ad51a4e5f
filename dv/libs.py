"""Registry of library modules: models of what is used, opaque tokens for the rest."""
import itertools
import datetime as _dt
import z3
from .core import C, Unsupported
from .vals import *
from . import interp, lib_np, lib_pd
from .interp import LibMod, HostFn, TypeTok, iterate
from .vals import Opaque


def _noop(*a, **k):
    return None


class Logger:
    """logging has no effect on results"""

    def sv_getattr(self, nm):
        return HostFn(_noop, 'logging.' + nm)


def _product(*its, repeat=1):
    ls = []
    for it in its:
        l = iterate(it)
        if l is None:
            raise Unsupported('product of unknown length')
        ls.append(l)
    return [tuple(t) for t in itertools.product(*(ls * repeat))]


def _chain(*its):
    out = []
    for it in its:
        l = iterate(it)
        if l is None:
            raise Unsupported('chain of unknown length')
        out += l
    return out


def _dt_ctor(y, m=None, d=None, *a):
    from .vals import time_of
    if all(isinstance(v, int) for v in (y, m, d)):
        return time_of(_dt.datetime(y, m, d, *a))
    raise Unsupported('datetime of symbolic fields')


def _now(*a):
    return ST(C().fresh(z3.IntSort(), 'now'))


DATETIME = TypeTok('datetime', ctor=_dt_ctor, check=lambda v: isinstance(v, ST), attrs={'now': HostFn(_now, 'datetime.now'),
                                                                                   'today': HostFn(_now, 'datetime.today')})
DATE = TypeTok('date', ctor=lambda y, m, d: Date((_dt.date(y, m, d) - _dt.date(1970, 1, 1)).days), check=lambda v: isinstance(v, (Date, ST)))

class OptResult:
    """scipy.optimize.OptimizeResult: a dict whose keys are also attributes"""

    def __init__(self, d):
        self.d = d

    def sv_getitem(self, k):
        k = interp.force(k)
        if k in self.d:
            return self.d[k]
        raise Unsupported('least_squares result[%r]' % (k,))

    def sv_getattr(self, nm):
        return self.sv_getitem(nm)


def _least_squares(fun, x0, jac='2-point', bounds=None, method='trf', ftol=1e-8, xtol=1e-8, gtol=1e-8, x_scale=1.0, args=(), kwargs=None, **opt):
    """Contract of scipy.optimize.least_squares: refuses an infeasible start or empty bounds; otherwise returns a point
    within the bounds (whatever the optimiser did), with cost = half the sum of the squared residuals at that point and
    success exactly for a positive status; or raises LinAlgError. Nothing about optimality is assumed."""
    from .vals import R, I, B, SF, SI, SB, SS, sf, zb, band, bnot, num_mul, f_lt, f_le, isnan, mkb
    from . import arrays, lib_np
    from .arrays import SArr
    if opt:
        raise Unsupported('least_squares options %s' % sorted(opt))
    ctx = C()
    x0 = lib_np.arr(x0)
    m = x0.n
    kw = dict(kwargs.allitems() if hasattr(kwargs, 'allitems') else (kwargs or {}).items())
    args = list(interp.iterate(args)) if not isinstance(args, tuple) else list(args)
    if bounds is None:
        lo = hi = None
    else:
        b = list(interp.iterate(bounds))
        lo, hi = [lib_np.arr(v) if not is_num(v) else v for v in b]
        lo = frozen_or(lo)
        hi = frozen_or(hi)
        g = arrays.frozen(x0)
        bad = arrays.exists(x0.space, lambda i: bnot(f_lt(sf(lo(i)), sf(hi(i)))), 'empty bounds')
        if interp.truth(mkb(bad), 'some lower bound is not below its upper bound'):
            interp.raise_py(ValueError, 'Each lower bound must be strictly less than each upper bound.')
        bad = arrays.exists(x0.space, lambda i: bnot(band(f_le(sf(lo(i)), sf(g(i))), f_le(sf(g(i)), sf(hi(i))))), 'infeasible')
        if interp.truth(mkb(bad), 'the initial guess is outside of the bounds'):
            interp.raise_py(ValueError, '`x0` is infeasible.')
    calls = ctx.__dict__.setdefault('lsq', [])
    rec = dict(fun=fun, x0=x0, bounds=bounds, args=args, kwargs=kw, lo=lo, hi=hi)
    calls.append(rec)
    f0 = lib_np.arr(interp.call(fun, [x0] + args, kw))
    rec['f'] = f0
    f0g = arrays.frozen(f0)
    bad = arrays.exists(f0.space, lambda i: bnot(band(bnot(isnan(f0g(i))), beq(sf(f0g(i)).inf, 0))), 'nonfinite residual')
    if interp.truth(mkb(bad), 'some residual is not finite at the initial guess'):
        interp.raise_py(ValueError, 'Residuals are not finite in the initial point.')
    if ctx.branch(ctx.fresh(B, 'linalgerror'), 'LinAlgError'):
        interp.raise_py(lib_np.LinAlgError, 'SVD did not converge')
    fx = ctx.fn('lsq_x', I, R)
    x = SArr(x0.space, lambda i: SF(fx(arrays.iexpr(i))), 'float')
    if lo is not None:
        x.space.add_fact(lambda i: zb(band(f_le(sf(lo(i)), x.get(i)), f_le(x.get(i), sf(hi(i))))))
    f = lib_np.arr(interp.call(fun, [x] + args, kw))
    rec['x'], rec['f'] = x, f
    fg = arrays.frozen(f)
    f.space.add_fact(lambda i: zb(band(bnot(isnan(fg(i))), beq(sf(fg(i)).inf, 0))))
    cost = num_mul(0.5, lib_np.sum_squares(f))       # finite residuals: evaluations that overflow are left to the bounded checks
    st = ctx.fresh(I, 'lsq_status')
    ctx.assume(z3.And(st >= -1, st <= 4))
    opt_ = ctx.fresh(R, 'lsq_opt')
    ctx.assume(opt_ >= 0)
    n = ctx.fresh(I, 'nfev')
    ctx.assume(n >= 1)
    return OptResult(dict(x=x, cost=cost, fun=f, status=SI(st), success=SB(st > 0), optimality=SF(opt_), nfev=SI(n), njev=SI(ctx.fresh(I, 'njev')),
                          message=SS(ctx.fresh(z3.StringSort(), 'lsq_message'))))


def frozen_or(v):
    from . import arrays
    from .arrays import SArr
    if isinstance(v, SArr):
        return arrays.frozen(v)
    return lambda i: v


_opt = LibMod('scipy.optimize', {'least_squares': HostFn(_least_squares, 'scipy.optimize.least_squares')})
MODS = {
    'numpy': lib_np.NPMOD,
    'numpy.linalg': lib_np.NPMOD.attrs['linalg'],
    'math': lib_np.MATHMOD,
    'pandas': lib_pd.PDMOD,
    'pandas.tseries.holiday': LibMod('pandas.tseries.holiday', {
        'Holiday': lib_pd.HOLIDAY, 'AbstractHolidayCalendar': lib_pd.HOLBASE,
        'MO': HostFn(lambda n=1: 'MO(%s)' % n, 'MO'), 'nearest_workday': 'nearest_workday', 'next_monday': 'next_monday',
        'next_monday_or_tuesday': 'next_monday_or_tuesday',
        'GoodFriday': lib_pd.Rule('Good Friday'), 'EasterMonday': lib_pd.Rule('Easter Monday')}),
    'pandas.tseries.offsets': LibMod('pandas.tseries.offsets', {'DateOffset': HostFn(lambda **k: 'DateOffset(%r)' % (k,), 'DateOffset')}),
    'logging': LibMod('logging', {'getLogger': HostFn(lambda *a: Logger(), 'logging.getLogger')}),
    'itertools': LibMod('itertools', {'product': HostFn(_product, 'itertools.product'), 'chain': HostFn(_chain, 'itertools.chain')}),
    'datetime': LibMod('datetime', {'datetime': DATETIME, 'date': DATE, 'timedelta': HostFn(lambda days=0, seconds=0, **k: lib_pd.pd_timedelta(days=days, seconds=seconds, **k), 'timedelta')}),
    'scipy': LibMod('scipy', {'optimize': _opt}),
    'scipy.optimize': _opt,
    'copy': LibMod('copy', {}),
    '__future__': LibMod('__future__', {}),
}


def _usfed():
    rules = [lib_pd.Rule('usfed_%d' % i) for i in range(3)]
    cls = interp.IClass('USFederalHolidayCalendar', [lib_pd.HOLBASE], {'rules': rules}, 'pandas.USFederalHolidayCalendar')
    return cls


MODS['pandas.tseries.holiday'].attrs['USFederalHolidayCalendar'] = _usfed()


def module(name):
    if name in MODS:
        return MODS[name]
    return Opaque('module ' + name)
