"""Specification helpers: symbolic inputs, unit registry, common postcondition shapes."""
import z3
from . import core, vals, arrays, interp, lib_np, lib_pd, world
from .core import C, explore, Unsupported, PyRaise
from .vals import *
from .arrays import SArr, SMat, Space, forall, cell_same, provably, exists
from .interp import call, getattr_, HostFn, IObj

UNITS = []      # (prop, name, fn, opts)


def unit(prop, name, seconds=40, tier='quick', paths=400):
    def deco(f):
        UNITS.append({'prop': prop, 'name': name, 'fn': f, 'seconds': seconds, 'tier': tier, 'paths': paths})
        return f
    return deco


_SHORT = {'fm': 'anticipy.forecast_models', 'mu': 'anticipy.model_utils', 'fc': 'anticipy.forecast',
          'fp': 'anticipy.forecast_plot', 'app': 'anticipy.app'}


def mod(short):
    return world.load(_SHORT[short])


def g(path):
    """'fm.model_linear' -> the object defined by the repository's own text"""
    m, _, rest = path.partition('.')
    o = mod(m)
    for p in rest.split('.'):
        o = getattr_(o, p)
    return o


def need(path):
    """like g, but a name that no longer exists makes the unit undecided instead of refuted"""
    try:
        return g(path)
    except PyRaise:
        raise Unsupported('%s does not exist any more' % path)


def run(unit_, seconds=None):
    for m in ('mu', 'fm', 'fc'):
        mod(m)
    world.boot_objects()

    def body(ctx):
        for m in ('mu', 'fm', 'fc'):
            for a in mod(m).boot_asserts:
                ctx.assume(a)
        unit_['fn'](ctx)
    return explore('%s:%s' % (unit_['prop'], unit_['name']), body, max_paths=unit_['paths'],
                   seconds=seconds or unit_['seconds'])


# ---------------------------------------------------------------- inputs

def inp(name, v):
    C().inputs.append((name, v))
    return v


def size(name='n', lo=0):
    n = C().fresh(I, name)
    C().assume(n >= lo)
    inp(name, n)
    return n


def real(name):
    return inp(name, SF(C().fresh(R, name)))


def integer(name, lo=None, hi=None):
    z = C().fresh(I, name)
    if lo is not None:
        C().assume(z >= lo)
    if hi is not None:
        C().assume(z <= hi)
    return inp(name, SI(z))


def boolean(name):
    return inp(name, SB(C().fresh(B, name)))


def string(name):
    return inp(name, SS(C().fresh(z3.StringSort(), name)))


def stamp(name):
    return inp(name, ST(C().fresh(I, name)))


def space(n, label=''):
    return Space(n, label)


def vec(name, sp, nan=False, dtype='float', kind='nd'):
    """array of finite numbers (or numbers with missing values) over the index space sp"""
    ctx = C()
    if dtype == 'int':
        f = ctx.fn(name, I, I)
        a = SArr(sp, lambda i: mki(f(arrays.iexpr(i))), 'int', kind)
    elif dtype == 'bool':
        f = ctx.fn(name, I, B)
        a = SArr(sp, lambda i: SB(f(arrays.iexpr(i))), 'bool', kind)
    elif dtype == 'str':
        f = ctx.fn(name, I, z3.StringSort())
        a = SArr(sp, lambda i: SS(f(arrays.iexpr(i))), 'obj', kind)
    elif dtype == 'time':
        f = ctx.fn(name, I, I)
        a = SArr(sp, lambda i: ST(f(arrays.iexpr(i))), 'time', kind)
    else:
        f = ctx.fn(name, I, R)
        fn = ctx.fn(name + '_null', I, B) if nan else None
        a = SArr(sp, lambda i: SF(f(arrays.iexpr(i)), fn(arrays.iexpr(i)) if nan else False), 'float', kind)
    inp(name, a)
    return a


def dates(name, sp, daily=False):
    a = vec(name, sp, dtype='time', kind='dtindex')
    if daily:
        f = C().fn(name + '_day', I, I)
        b = SArr(sp, lambda i: ST(f(arrays.iexpr(i)) * DAY), 'time', 'dtindex')
        C().inputs[-1] = (name, b)
        return b
    return a


def sorted_fact(a, strict=False):
    def pf(i, j):
        x, y = a.get(i), a.get(j)
        return z3.Implies(zb(i < j), zb(interp.zraw(interp.scalar_cmp('<' if strict else '<=', x, y))))
    a.space.add_pair_fact(pf)


# ---------------------------------------------------------------- postconditions

def as_array(r, what='result'):
    if isinstance(r, (SArr,)):
        return r
    if hasattr(r, 'sv_arr'):
        return r.sv_arr()
    return None


def post_elements(r, sp, want, name):
    """r is a 1-d array with one element per row of sp, element i equal to want(i)"""
    ctx = C()
    a = as_array(r)
    if a is None:
        ctx.prove(False, name + ': one value per sample (an array)')
        return
    ctx.prove(zb(beq(a.n, sp.n)), name + ': one value per sample')
    i = ctx.fresh(I, 'i')
    sp.touch(i)
    a.space.touch(i)
    ctx.prove(z3.Implies(zb(sp.in_range(i)), zb(cell_same(a.get(i), want(i)))), name + ': value')


def post_same_arrays(r1, r2, name):
    ctx = C()
    a, b = as_array(r1), as_array(r2)
    if a is None and b is None:
        ctx.prove(zb(cell_same(r1, r2)), name)
        return
    if a is None or b is None:
        ctx.prove(False, name + ': both arrays')
        return
    ctx.prove(zb(beq(a.n, b.n)), name + ': same length')
    i = ctx.fresh(I, 'i')
    a.space.touch(i)
    b.space.touch(i)
    ctx.prove(z3.Implies(zb(a.space.in_range(i)), zb(cell_same(a.get(i), b.get(i)))), name + ': same value')


def no_raise(f, name, *args, **kw):
    """obligation: the call returns (no exception on any path)"""
    try:
        return call(f, list(args), kw)
    except PyRaise as e:
        C().prove(False, '%s: no exception (%s)' % (name, short(e)))
        raise core.PathEnd('raised')


def short(e):
    x = e.exc
    return '%s %s' % (getattr(getattr(x, 'cls', None), '__name__', ''), getattr(x, 'args', ''))


def raises(f, exc, *args, **kw):
    """True when the call raises exc on this path"""
    try:
        call(f, list(args), kw)
    except PyRaise as e:
        return issubclass(getattr(e.exc, 'cls', Exception), exc)
    return False


# ---------------------------------------------------------------- opaque pure functions (contracts of arbitrary callables)

_ABSENT = object()


class Gen:
    """An arbitrary deterministic function: equal arguments give equal results, nothing else is known."""

    def __init__(self, name, params, make, defaults=None, record=False, varkw=True):
        self.name, self.params, self.make = name, params, make
        self.defaults = defaults or {}
        self.calls = []
        self.varkw = varkw

    def __repr__(self):
        return 'Gen(%s)' % self.name

    def bind(self, args, kwargs):
        b = dict(zip(self.params, args))
        if len(args) > len(self.params):
            raise_py(TypeError, 'too many arguments for %s' % self.name)
        kw = kwargs.allitems() if hasattr(kwargs, 'allitems') else list(kwargs.items())
        extra = []
        for k, v in kw:
            if isinstance(k, str) and k in self.params:
                if k in b:
                    raise_py(TypeError, 'multiple values for %s' % k)
                b[k] = v
            elif self.varkw:
                if v is not None:       # an absent optional argument and None are the same call
                    extra.append((k, v))
            else:
                raise_py(TypeError, '%s() got an unexpected keyword argument' % self.name)
        for k in self.params:
            if k not in b:
                if k in self.defaults:
                    b[k] = self.defaults[k]
                else:
                    raise_py(TypeError, '%s() missing argument %s' % (self.name, k))
        return b, extra

    def sv_call(self, args, kwargs):
        b, extra = self.bind(args, kwargs)
        vals_ = [norm_arg(b[p]) for p in self.params]
        for v0, e0, r in self.calls:
            if all(same_arg(p, q) for p, q in zip(v0, vals_)) and same_kw(e0, extra):
                if isinstance(r, PyRaise):
                    raise PyRaise(r.exc)
                return r
        frozen_ = [arrays.thaw(v) if isinstance(v, SArr) else v for v in vals_]
        try:
            r = self.make(b, extra)
        except PyRaise as e:
            self.calls.append((frozen_, extra, e))
            raise
        self.calls.append((frozen_, extra, r))
        return r


def norm_arg(v):
    v = interp.force(v)
    if isinstance(v, (list, tuple)) and all(is_num(x) for x in v):
        return SArr.of([sf(x) if not is_bool(x) else x for x in v], 'float')
    if hasattr(v, 'sv_arr') and not isinstance(v, SArr):
        return v.sv_arr()
    return v


def same_arg(a, b):
    if a is b:
        return True
    if isinstance(a, SArr) and isinstance(b, SArr):
        return arrays.same_content(a, b)
    if isinstance(a, (SArr, SMat)) or isinstance(b, (SArr, SMat)):
        return False
    c = cell_same(a, b) if not (is_bool(a) and is_bool(b)) else interp.zraw(interp.eq(a, b))
    return c if isinstance(c, bool) else provably(c)


def same_kw(a, b):
    if len(a) != len(b):
        return False
    b = list(b)
    for k, v in a:
        for j, (k2, v2) in enumerate(b):
            if same_arg(k, k2) and same_arg(v, v2):
                del b[j]
                break
        else:
            return False
    return True


def gen_values(name):
    """maker: an arbitrary array with one value per element of a_x"""
    def make(b, extra):
        x = as_array(b['a_x'])
        f = C().fn(name, I, R)
        return SArr(x.space, lambda i: SF(f(arrays.iexpr(i))), 'float')
    return make


def gen_vector(name, n):
    def make(b, extra):
        f = C().fn(name, I, R)
        return SArr(Space(n), lambda i: SF(f(arrays.iexpr(i))), 'float')
    return make


def gen_bounds(name, n):
    def make(b, extra):
        f, h = C().fn(name + '_lo', I, R), C().fn(name + '_hi', I, R)
        fi, hi = C().fn(name + '_loinf', I, B), C().fn(name + '_hiinf', I, B)

        def lo(i):
            i = arrays.iexpr(i)
            return SF(f(i), False, z3.If(fi(i), z3.IntVal(-1), z3.IntVal(0)))

        def up(i):
            i = arrays.iexpr(i)
            return SF(h(i), False, z3.If(hi(i), z3.IntVal(1), z3.IntVal(0)))
        sp = Space(n)
        return (SArr(sp, lo, 'float'), SArr(sp, up, 'float'))
    return make


def gen_validator(name):
    def make(b, extra):
        ok = C().fresh(B, name)
        if not C().branch(ok, name):
            raise_py(AssertionError)
        return None
    return Gen(name, ['a_x', 'a_y', 'a_date'], make)


def gen_model(tag, k=None, name=None, validator=True, bounds=True, cls='fm.ForecastModel', **kw):
    """an arbitrary forecast model built by the real constructor"""
    ctx = C()
    if k is None:
        k = integer(tag + '.n_params', 0)
    kz = zi(k)
    nm = name if name is not None else string(tag + '.name')
    if name is None:
        ctx.assume(nm.z != z3.StringVal('null'))
    fmod = Gen(tag + '.f_model', ['a_x', 'a_date', 'params', 'is_mult'], gen_values(tag + '_f'), {'is_mult': False})
    fini = Gen(tag + '.f_init', ['a_x', 'a_y', 'a_date', 'is_mult'], gen_vector(tag + '_init', kz),
               {'a_x': None, 'a_y': None, 'a_date': None, 'is_mult': False}, varkw=False)
    fbnd = Gen(tag + '.f_bounds', ['a_x', 'a_y', 'a_date'], gen_bounds(tag + '_bnd', kz),
               {'a_x': None, 'a_y': None, 'a_date': None}, varkw=False)
    args = dict(f_init_params=fini, **kw)
    if bounds:
        args['f_bounds'] = fbnd
    val = gen_validator(tag + '.valid') if validator else None
    if validator:
        args['l_f_validate_input'] = val
    m = call(need(cls), [nm, k, fmod], args)
    m.gen = (fmod, fini, fbnd, val)
    return m


def attr(o, nm):
    return getattr_(o, nm)


def frame(sp, **cols):
    """an arbitrary table over sp with the given columns and a default index"""
    d = interp.IDict()
    for k, a in cols.items():
        d.put(k, a)
    return lib_pd.pd_frame(d)


def col(df, name):
    """column of a result table as an array, or None"""
    c = interp.getitem(df, name)
    return as_array(c)


def columns(df):
    return [x for x in interp.iterate(getattr_(df, 'columns'))]



def origin(sp, r, base):
    """row of the input space base that row r of a derived space comes from, and the condition under which it is known:
    a witness only, the cells are compared by the solver"""
    cond = True
    for _ in range(40):
        if sp is base:
            return r, cond
        if getattr(sp, 'seq', None) is not None:
            cond = band(cond, sp.is_j(r))
            sp, r = sp.local, sp.pos(r)
        elif getattr(sp, 'parent', None) is not None:
            sp, r = sp.parent, sp.src(r)
        elif getattr(sp, 'parents', None) is not None and len(sp.which(r)) == 1:
            c, k, r = sp.which(r)[0]
            cond = band(cond, c)
            sp = sp.parents[k]
        elif getattr(sp, 'parents', None) is not None:
            alts = [(c, origin(sp.parents[k], l, base)) for c, k, l in sp.which(r)]
            o, known = alts[-1][1]
            for c, (o2, k2) in reversed(alts[:-1]):
                o, known = ite(zb(c), arrays.iexpr(o2), arrays.iexpr(o)), bor(band(c, k2), band(bnot(c), known))
            return o, band(cond, known)
        else:
            break
    raise Unsupported('rows that do not come from the input by selecting and ordering')


def parts_of(sp):
    """the concatenation over the elements of a loop that the rows of sp come from"""
    for _ in range(40):
        if getattr(sp, 'seq', None) is not None:
            return sp
        sp = getattr(sp, 'parent', None)
        if sp is None:
            return None


def stub(path, make):
    """replaces a function of the package by a contract: its arguments are bound by the signature the text has now, and
    make(bound arguments) gives the result. The functions that call it are then checked against the contract only."""
    f = need(path)
    if not isinstance(f, interp.IFunc):
        raise Unsupported('%s is not a function any more' % path)
    interp.Contracts.table[f.qual] = lambda f_, b: make(b)
