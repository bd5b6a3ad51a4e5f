"""Models (trusted contracts) of numpy, math and scalar methods."""
import datetime as _dt
import itertools
import math
import z3
from .core import C, Unsupported, PyRaise
from .vals import *
from . import arrays
from .arrays import (SArr, SMat, Space, Cell, s_ite, ew, frozen, mark_mutation, exists, forall_b, subset, reduction,
                     provably, key_of, cell_same)
from . import interp
from .interp import (HostFn, TypeTok, LibMod, IObj, IFunc, IDict, SymSeq, SSet, force, truth, call, iterate, binop,
                     getattr_, scalar_cmp, scalar_binop, norm_slice, check_index, add_i, concretize, zraw, to_str)

NAN = float('nan')
INF = float('inf')


def arr(v, dtype=None):
    """coerce to SArr / SMat / scalar"""
    v = force(v)
    if isinstance(v, (SArr, SMat)):
        return v
    if hasattr(v, 'sv_arr'):
        return v.sv_arr()
    if isinstance(v, SymSeq):
        a = SArr(v.space, v.get, seq_dtype(v))
        return a
    if isinstance(v, range):
        return SArr.of(list(v))
    if isinstance(v, (list, tuple)):
        v = [force(x) for x in v]
        subs = [x for x in v if isinstance(x, (list, tuple, SArr, SymSeq, SMat)) or hasattr(x, 'sv_arr')]
        if subs and len(subs) == len(v):
            rows = [arr(x) for x in v]
            if all(isinstance(r, SArr) for r in rows):
                n = rows[0].n
                for r in rows[1:]:
                    if not truth(mkb(beq(r.n, n)), 'row lengths'):
                        raise_py(ValueError, 'setting an array element with a sequence')
                return SMat.of_rows(rows)
            raise Unsupported('3-d array')
        if subs:
            if all(isinstance(x, SArr) and x.n == 1 if isinstance(x, SArr) else not isinstance(x, (list, tuple, SMat)) for x in v):
                v = [x.get(0) if isinstance(x, SArr) else x for x in v]
            else:
                raise_py(ValueError, 'setting an array element with a sequence (inhomogeneous shape)')
        if any(x is None for x in v) or any(isinstance(x, (IObj, IFunc)) for x in v):
            return SArr.of(v, 'obj')
        return SArr.of(v)
    return v


def seq_dtype(s):
    i = C().fresh(z3.IntSort(), 'dt')
    return arrays.dtype_of_items([force_soft(s.get(i))])


def force_soft(v):
    return v if not isinstance(v, Cell) else v.alts[-1][1]


def need_arr(v):
    a = arr(v)
    if isinstance(a, SArr):
        return a
    if isinstance(a, SMat):
        return a
    return SArr.of([a])


def astype(a, t):
    nm = t if isinstance(t, str) else getattr(t, 'name', None)
    if nm in ('float', 'np.float64', 'float64', 'f8'):
        if a.dtype == 'float':
            f, d = (lambda x: x), 'float'
        elif a.dtype in ('int', 'bool'):
            f, d = (lambda x: sf(x) if isinstance(x, (SI, SB)) else float(x)), 'float'
        elif a.dtype == 'obj':
            f, d = to_float_cell, 'float'
        elif a.dtype == 'str':
            raise_py(ValueError, 'could not convert string to float')
        else:
            raise Unsupported('astype(float) of %s' % a.dtype)
    elif nm in ('int', 'np.int64', 'int64'):
        if a.dtype == 'float':
            if not provably_finite(a):
                if truth(mkb(exists(a.space, lambda i: bnot(f_isfinite(a.get(i))))), 'non-finite to int'):
                    raise_py(ValueError, 'Cannot convert non-finite values (NA or inf) to integer')
            f, d = trunc_raw, 'int'
        elif a.dtype in ('int', 'bool'):
            f, d = (lambda x: mki(zi(x))), 'int'
        else:
            raise Unsupported('astype(int) of %s' % a.dtype)
    elif nm in ('bool', 'np.bool_'):
        from .builtins_m import rawb
        f, d = (lambda x: mkb(rawb(x))), 'bool'
    elif nm in ('str', 'object'):
        if nm == 'object':
            f, d = (lambda x: x), 'obj'
        else:
            f, d = to_str, 'str'
    else:
        raise Unsupported('astype(%r)' % (t,))
    r = ew(f, d, a)
    r.kind = a.kind if a.kind != 'dtindex' else 'index'
    return r


def to_float_cell(x):
    if isinstance(x, Cell):
        v = None
        for g, y in reversed(x.alts):
            y = to_float_cell(y)
            v = y if v is None else s_ite(g, y, v)
        return v
    if x is None:
        return sf(NAN)
    if isinstance(x, MaybeNull):
        y = sf(x.v)
        return SF(y.r, bor(y.nan, x.null), y.inf)
    if is_num(x):
        return sf(x)
    raise_py(TypeError, 'float() argument')


def trunc_raw(x):
    if isinstance(x, float):
        return int(x)
    if isinstance(x, (int, SI)):
        return x
    x = sf(x)
    if z3.is_to_real(x.r):
        return mki(x.r.arg(0))
    return SI(z3.If(x.r >= 0, z3.ToInt(x.r), -z3.ToInt(-x.r)))


def provably_finite(a):
    w = C().fresh(z3.IntSort(), 'pf')
    a.space.touch(w)
    c = f_isfinite(a.get(w))
    return c is True or provably(z3.Implies(zb(a.space.in_range(w)), zb(c)))


def shape_of(s):
    """int/tuple size argument → raw length, or (n0, n1)"""
    s = force(s)
    if s is None:
        return 1
    if isinstance(s, (tuple, list)):
        if len(s) == 1:
            return shape_of(s[0])
        if len(s) == 2:
            return (shape_of(s[0]), shape_of(s[1]))
        raise Unsupported('3-d shape')
    if isinstance(s, (float, SF)):
        raise_py(TypeError, 'expected a sequence of integers or a single integer')
    z = zi(s)
    if isinstance(z, int):
        if z < 0:
            raise_py(ValueError, 'negative dimensions are not allowed')
        return z
    if not C().cap_stack and C().branch(z < 0, 'negative dimension'):
        raise_py(ValueError, 'negative dimensions are not allowed')
    return z


def np_full(shape, fill_value, dtype=None):
    n = shape_of(shape)
    fill_value = force(fill_value)
    if isinstance(fill_value, SArr):
        if fill_value.n == 1:
            fill_value = fill_value.get(0)
        else:
            f = frozen(fill_value)
            return SArr(Space(n), f, fill_value.dtype)
    if hasattr(fill_value, 'sv_arr'):
        raise Unsupported('np.full with series')
    if isinstance(n, tuple):
        return SMat(n[0], n[1], lambda i, j: fill_value)
    dt = arrays.dtype_of_items([fill_value])
    r = SArr(Space(n), lambda i: fill_value, dt)
    return astype(r, dtype) if dtype is not None else r


def np_concatenate(seq, axis=0):
    parts = [arr(x) for x in (iterate(seq) if not isinstance(seq, SMat) else [seq.row(i) for i in range(seq.n0)])]
    if not parts:
        raise_py(ValueError, 'need at least one array to concatenate')
    if any(not isinstance(p, (SArr, SMat)) for p in parts):
        raise_py(ValueError, 'zero-dimensional arrays cannot be concatenated')
    if all(isinstance(p, SMat) for p in parts):
        if axis == 0:
            rows = []
            for p in parts:
                if not isinstance(p.n0, int):
                    raise Unsupported('concatenate of matrices')
                rows += [p.row(i) for i in range(p.n0)]
            n = rows[0].n
            for r in rows[1:]:
                if not truth(mkb(beq(r.n, n)), 'concat shapes'):
                    raise_py(ValueError, 'all the input array dimensions must match exactly')
            return SMat.of_rows(rows)
        n0 = parts[0].n0
        for p in parts[1:]:
            if not truth(mkb(beq(p.n0, n0)), 'concat shapes'):
                raise_py(ValueError, 'all the input array dimensions must match exactly')
        if not isinstance(n0, int):
            raise Unsupported('concatenate axis 1')
        return SMat.of_rows([arrays.concat_arrays([p.row(i) for p in parts]) for i in range(n0)])
    if any(isinstance(p, SMat) for p in parts):
        raise_py(ValueError, 'all the input arrays must have same number of dimensions')
    if axis not in (0, -1):
        raise_py(ValueError, 'axis 1 is out of bounds for array of dimension 1')
    return arrays.concat_arrays(parts)


def u1(fn, dt='float'):
    def g(x, *a, **k):
        x = arr(x)
        if isinstance(x, SArr):
            r = ew(fn, dt if dt != 'same' else x.dtype, x)
            return r
        if isinstance(x, SMat):
            return SMat(x.n0, x.n1, lambda i, j: fn(x.get(i, j)))
        if hasattr(x, 'sv_map'):
            return x.sv_map(fn, dt)
        return fn(x)
    return wrap_series(g)


def wrap_series(g):
    """apply to the values of a Series, keep its index"""
    def h(x, *a, **k):
        x = force(x)
        if hasattr(x, 'sv_rewrap'):
            return x.sv_rewrap(g(x.sv_arr(), *a, **k))
        return g(x, *a, **k)
    return h


def u2(fn, dt='float'):
    def g(x, y, *a, **k):
        sx = next((v for v in (force(x), force(y)) if hasattr(v, 'sv_rewrap')), None)
        x, y = arr(x), arr(y)
        if isinstance(x, SMat) or isinstance(y, SMat):
            m = x if isinstance(x, SMat) else y
            raise Unsupported('binary ufunc on matrices')
        if isinstance(x, SArr) or isinstance(y, SArr):
            d = dt
            if dt == 'num':
                ds = [v.dtype if isinstance(v, SArr) else arrays.dtype_of_items([v]) for v in (x, y)]
                d = 'float' if 'float' in ds else ds[0]
            r = ew(fn, d, x, y)
            return sx.sv_rewrap(r) if sx is not None else r
        return fn(x, y)
    return g


def s_heaviside(x, h):
    x, h = sf(x), sf(h)
    if fin(x):
        pos, zero = x.r > 0, x.r == 0
    else:
        pos, zero = f_lt(sf(0), x), f_eq(x, sf(0))
    r = s_ite(pos, sf(1.0), s_ite(zero, h, sf(0.0)))
    return SF(r.r, bor(r.nan, x.nan), r.inf)


def s_power(x, y):
    return f_pow(sf(x) if isinstance(x, float) or isinstance(y, float) else x, y)


def s_isnan(x):
    x = force(x)
    if is_str(x) or x is None or isinstance(x, (IObj,)):
        raise_py(TypeError, "ufunc 'isnan' not supported for the input types")
    return mkb(isnan(x))


def s_isinf(x):
    if isinstance(x, float):
        return math.isinf(x)
    if isinstance(x, SF):
        return mkb(band(bnot(x.nan), bnot(beq(x.inf, 0))))
    return False


def s_sign(x):
    x = force(x)
    if isinstance(x, SF):
        z = fsign(x)
        return SF(z3.ToReal(z) if z3.is_expr(z) else z3.RealVal(z), x.nan)
    z = zi(x)
    return mki(z3.If(z > 0, 1, z3.If(z < 0, -1, 0)) if z3.is_expr(z) else (z > 0) - (z < 0))


def lt(a, b):
    return scalar_cmp('<', a, b)


def gt(a, b):
    return scalar_cmp('>', a, b)


def s_max2(x, y):
    if is_float(x) or is_float(y):
        x, y = sf(x), sf(y)
        r = s_ite(f_lt(x, y), y, x)
        return SF(r.r, bor(x.nan, y.nan), r.inf)
    return s_ite(zb(lt(x, y)), y, x)


def s_min2(x, y):
    if is_float(x) or is_float(y):
        x, y = sf(x), sf(y)
        r = s_ite(f_lt(y, x), y, x)
        return SF(r.r, bor(x.nan, y.nan), r.inf)
    return s_ite(zb(lt(y, x)), y, x)


def s_clip(x, lo, hi):
    return s_min2(s_max2(x, lo), hi)


# ------------------------------------------------------------ reductions

def nonempty(a, msg):
    if truth(mkb(beq(a.n, 0)), 'empty'):
        raise_py(ValueError, msg)


def extreme(a, op, mode='np'):
    """max ('>') / min ('<') of an array.
    mode 'np': NaN if any NaN; 'nan': ignore NaN (all NaN → NaN); 'py': Python max/min (unspecified if a NaN occurs)
    """
    ck = ('ext', op, mode)

    def make():
        ctx = C()
        g = frozen(a)
        w = ctx.fresh(z3.IntSort(), 'ext')
        a.space.touch(w)
        rng = a.space.in_range(w)
        if a.dtype in ('int', 'time') and z3.is_expr(a.n) and isnan(g(w)) is False and not ctx.cap_stack:
            # sorted: the first or the last element
            last = arrays.simp_i(arrays.iexpr(a.n) - 1)
            for end in ((0, last) if op == '<' else (last, 0)):
                a.space.touch(end)
                better = scalar_cmp(op, g(w), g(end))
                if better is False or ctx.check(z3.Not(z3.And(arrays.iexpr(a.n) > 0, z3.Implies(zb(rng), zb(bnot(better))))), ms=400)[0] == z3.unsat:
                    return g(end), end
        if a.dtype in ('int', 'bool', 'str'):
            ctx.assume(zb(rng))
            v = g(w)
            a.space.add_fact(lambda i: bnot(scalar_cmp(op, g(i), v)))
            return v, w
        v = g(w)
        if mode == 'nan':
            some = zb(bnot(beq(a.n, 0))) if isnan(v) is False else ctx.fresh(z3.BoolSort(), 'notnan')
            ctx.assume(z3.Implies(some, zb(band(rng, bnot(isnan(v))))))
            a.space.add_fact(lambda i: bor(isnan(g(i)), band(some, bnot(scalar_cmp(op, g(i), v)))))
            v = set_nan(v, bnot(some))
            return v, w
        hasnan = False if isnan(v) is False else exists(a.space, lambda i: isnan(g(i)), 'hasnan')
        ctx.assume(z3.Implies(zb(bnot(hasnan)), zb(band(rng, bnot(isnan(v))))))
        a.space.add_fact(lambda i: bor(hasnan, bnot(scalar_cmp(op, g(i), v))))
        if mode == 'np':
            v = set_nan(v, hasnan)
        else:
            ctx.assume(zb(rng))
        return v, w
    if isinstance(a.n, int) and a.n <= 6 and mode != 'nan' and a.dtype in ('int', 'float'):
        items = a.tolist()
        v = items[0]
        for x in items[1:]:
            v = (s_max2 if op == '>' else s_min2)(v, x) if mode == 'np' else s_ite(zb(scalar_cmp(op, x, v)), x, v)
        return v
    return reduction(ck, a, make)[0]


def set_nan(v, cond):
    """v, or NaN/NaT where cond (and not NaN otherwise)"""
    if isinstance(v, (SF, float)):
        v = sf(v)
        return SF(v.r, cond, v.inf)
    if isinstance(v, ST):
        return ST(v.z, cond)
    if isinstance(v, SD):
        return SD(v.z, cond)
    return v


def arg_extreme(a, op):
    """first index of the maximum / minimum"""
    nonempty(a, 'attempt to get argmax of an empty sequence')

    def make():
        ctx = C()
        g = frozen(a)
        w = ctx.fresh(z3.IntSort(), 'arg')
        a.space.touch(w)
        ctx.assume(zb(a.space.in_range(w)))
        v = g(w)
        hasnan = exists(a.space, lambda i: isnan(g(i)), 'hasnan')
        # NaN wins in numpy; the first one
        a.space.add_fact(lambda i: z3.Implies(zb(bnot(hasnan)), zb(band(bnot(scalar_cmp(op, g(i), v)),
                                                                        bor(i >= w, scalar_cmp(op, v, g(i)))))))
        return SI(w)
    return reduction(('arg', op), a, make)


def np_sum(a, axis=None, **k):
    a = arr(a)
    if isinstance(a, SMat):
        raise Unsupported('sum of a matrix')
    if not isinstance(a, SArr):
        return a
    if isinstance(a.n, int) and a.n <= 24:
        items = a.tolist()
        if a.dtype == 'obj' or any(isinstance(x, IObj) for x in items):
            if not items:
                return 0
            r = items[0]
            for x in items[1:]:
                r = binop('+', r, x)
            return r
        r = 0.0 if a.dtype == 'float' else 0
        for x in items:
            r = scalar_binop('+', r, x)
        return r
    return sym_sum(a, 'sum')


def dict_fromkeys(it, value=None):
    from .interp import IDict, SSet, hashable
    l = iterate(it)
    if l is None:
        raise Unsupported('dict.fromkeys of unknown length')
    d = IDict()
    if all(hashable(x) for x in l):
        for x in l:
            d.put(x, value)
    else:                                       # insertion order is kept among the keys compared by ==
        d.sym = [(x, value) for x in SSet(l).items]
    return d


def sym_sum(a, name, skipna=False):
    if a.dtype == 'bool':                       # the number of true entries
        return np_count_nonzero(a)

    def make():
        ctx = C()
        g = frozen(a)
        if a.dtype in ('int', 'bool'):
            v = SI(ctx.fresh(I, name))
            neg = exists(a.space, lambda i: zi(g(i)) < 0, 'neg')
            nz = exists(a.space, lambda i: bnot(beq(zi(g(i)), 0)), 'nz')
            ctx.assume(z3.Implies(zb(bnot(neg)), v.z >= 0))
            ctx.assume(z3.Implies(zb(bnot(nz)), v.z == 0))
            ctx.assume(z3.Implies(z3.And(zb(bnot(neg)), zb(nz)), v.z > 0))
            return v
        r = ctx.fresh(R, name)
        bad = exists(a.space, lambda i: isnan(g(i)), 'nan') if not skipna else False
        inf = exists(a.space, lambda i: band(bnot(isnan(g(i))), bnot(beq(sf(g(i)).inf, 0))), 'inf')
        skip = (lambda i: isnan(g(i))) if skipna else (lambda i: False)
        neg = exists(a.space, lambda i: band(bnot(skip(i)), f_lt(sf(g(i)), sf(0))), 'neg')
        nz = exists(a.space, lambda i: band(bnot(skip(i)), bnot(f_eq(sf(g(i)), sf(0)))), 'nz')
        ctx.assume(z3.Implies(zb(bnot(neg)), r >= 0))
        ctx.assume(z3.Implies(zb(bnot(nz)), r == 0))
        ctx.assume(z3.Implies(z3.And(zb(bnot(neg)), zb(nz)), r > 0))
        if inf is False:
            return SF(r, bad, 0)
        si = ctx.fresh(I, name + '_inf')
        ctx.assume(z3.And(si >= -1, si <= 1))
        ctx.assume(z3.Implies(zb(bnot(inf)), si == 0))
        nn = ctx.fresh(B, name + '_nan')
        ctx.assume(z3.Implies(z3.And(zb(bnot(inf)), zb(bnot(bad))), z3.Not(nn)))
        ctx.assume(z3.Implies(zb(bad), nn))
        return SF(r, nn, si)
    return reduction((name, skipna), a, make)


def sum_squares(a):
    """sum of the squares of an array of finite numbers: never negative, zero exactly when all of them are zero"""
    def make():
        g = frozen(a)
        r = C().fresh(R, 'sumsq')
        nz = exists(a.space, lambda i: bnot(f_eq(sf(g(i)), sf(0))), 'nz')
        C().assume(z3.If(zb(nz), r > 0, r == 0))
        return SF(r)
    return reduction(('sumsq',), a, make)


def np_nansum(a, axis=None):
    a = arr(a)
    if not isinstance(a, SArr):
        return a
    if isinstance(a.n, int) and a.n <= 12:
        r = 0.0
        for x in a.tolist():
            x = sf(x)
            r = num_add(r, s_ite(x.nan, sf(0.0), SF(x.r, False, x.inf)))
        return r
    return sym_sum(a, 'sum', True)


def np_mean(a, axis=None, **k):
    return mean_of(a, False)


def np_nanmean(a, axis=None, **k):
    return mean_of(a, True)


def mean_of(a, skipna):
    a = arr(a)
    if isinstance(a, SMat):
        raise Unsupported('mean of a matrix')
    if not isinstance(a, SArr):
        return a

    def make():
        ctx = C()
        g = frozen(a)
        r = ctx.fresh(R, 'mean')
        v0 = sf(g(z3.IntVal(0)))
        plain = v0.nan is False and isinstance(v0.inf, int) and v0.inf == 0 and a.dtype in ('float', 'int')
        gi = sf(g(ctx.fresh(I, 'any')))
        plain = plain and gi.nan is False and isinstance(gi.inf, int) and gi.inf == 0      # finite for an arbitrary index
        a.space.touch(z3.IntVal(0))
        bad = beq(a.n, 0) if plain else bnot(exists(a.space, lambda i: bnot(isnan(g(i))), 'any')) if skipna else \
            bor(exists(a.space, lambda i: isnan(g(i)), 'nan'), beq(a.n, 0))
        inf = False if plain else exists(a.space, lambda i: band(bnot(isnan(g(i))), bnot(beq(sf(g(i)).inf, 0))), 'inf')
        # between the extremes: some element is >= and some element is <= the mean
        w1, w2 = ctx.fresh(I, 'mw'), ctx.fresh(I, 'mw')
        for w, o in ((w1, '<='), (w2, '>=')):
            a.space.touch(w)
            x = sf(g(w))
            ctx.assume(z3.Implies(zb(band(bnot(bad), bnot(inf))),
                                  zb(band(a.space.in_range(w), bnot(x.nan), x.r <= r if o == '<=' else x.r >= r))))
        if inf is False:
            return SF(r, bad, 0)
        si = ctx.fresh(I, 'mean_inf')
        nn = ctx.fresh(B, 'mean_nan')
        ctx.assume(z3.And(si >= -1, si <= 1))
        ctx.assume(z3.Implies(zb(bnot(inf)), z3.And(si == 0, nn == zb(bad))))
        return SF(r, nn, si)
    if a.space.label == 'choice':
        return make()
    return reduction(('mean', skipna), a, make)


def np_prod(a, axis=None, **k):
    a = arr(a)
    if isinstance(a, SArr) and isinstance(a.n, int):
        items = a.tolist()
        if not items:
            return 1.0
        r = items[0]
        for x in items[1:]:
            r = binop('*', r, x)
        return r
    raise Unsupported('prod of unknown length')


def np_any(a, axis=None):
    from .builtins_m import rawb
    a = arr(a)
    if isinstance(a, SArr):
        return mkb(exists(a.space, lambda i: rawb(a.get(i)), 'any'))
    if isinstance(a, SMat):
        raise Unsupported('any of matrix')
    return mkb(rawb(a))


def np_all(a, axis=None):
    from .builtins_m import rawb
    a = arr(a)
    if isinstance(a, SArr):
        return mkb(forall_b(a.space, lambda i: rawb(a.get(i)), 'all'))
    if isinstance(a, SMat):
        raise Unsupported('all of matrix')
    return mkb(rawb(a))


def np_count_nonzero(a):
    from .builtins_m import rawb
    a = arr(a)
    sp, _ = subset(a.space, lambda i: rawb(a.get(i)))
    return mki(sp.n)


def np_diff(a, n=1, axis=-1):
    a = need_arr(a)
    if n != 1 or not isinstance(a, SArr):
        raise Unsupported('np.diff')
    m = a.n - 1 if isinstance(a.n, int) else arrays.simp_i(a.n - 1)
    if isinstance(m, int):
        m = max(m, 0)
    else:
        m = z3.If(m < 0, z3.IntVal(0), m) if not provably(m >= 0) else m
    g = frozen(a)
    dt = {'time': 'td', 'bool': 'bool'}.get(a.dtype, a.dtype)
    return SArr(Space(m), lambda i: scalar_binop('-', g(add_i(i, 1)), g(i)), dt)


def np_nonzero(a):
    from .builtins_m import rawb
    a = need_arr(a)
    g = frozen(a)
    if isinstance(a.n, int) and a.n <= 64:
        items = [rawb(g(i)) for i in range(a.n)]
        if all(isinstance(x, bool) for x in items):
            return (SArr.of([i for i, x in enumerate(items) if x], 'int'),)
        if a.n <= 12 and not C().cap_stack:
            return (SArr.of([i for i, x in enumerate(items) if truth(mkb(x), 'nonzero')], 'int'),)
    sp, src = subset(a.space, lambda i: rawb(g(i)), 'nonzero')
    sp.touch(0)         # a non-empty result has a witness
    if sp is a.space:
        r = SArr(Space(sp.n), lambda i: mki(i), 'int')
        r.tag['identity'] = a.space
        return (r,)
    r = SArr(sp, lambda i: mki(src(i)), 'int')
    r.tag['filter'] = (sp, a.space)
    return (r,)


def np_where(c, x=None, y=None):
    if x is None:
        return np_nonzero(c)
    c, x, y = arr(c), arr(x), arr(y)
    from .builtins_m import rawb
    ds = [v.dtype if isinstance(v, SArr) else arrays.dtype_of_items([v]) for v in (x, y)]
    dt = ds[0] if ds[0] == ds[1] else 'float' if set(ds) <= {'float', 'int', 'bool'} else 'obj'
    if not isinstance(c, SArr) and not isinstance(x, SArr) and not isinstance(y, SArr):
        return s_ite(rawb(c), x, y)
    return ew(lambda a, b, d: s_ite(rawb(a), b, d), dt, c, x, y)


def np_isin(a, test, **k):
    a = arr(a)
    t = force(test)
    if not hasattr(t, 'sv_member'):
        t = arr(t)
    if not isinstance(t, SArr):
        if hasattr(t, 'sv_member'):
            pass
        else:
            t = SArr.of([t])
    scalar = not isinstance(a, SArr)
    f = membership(t)
    if scalar:
        return mkb(f(a))
    return ew(lambda x: mkb(f(x)), 'bool', a)


def membership(t):
    """raw-bool predicate: scalar is an element of t (memoised per element term; witnesses linked)"""
    if hasattr(t, 'sv_member'):
        return t.sv_member
    if isinstance(t.n, int) and t.n <= 12:
        items = [t.get(i) for i in range(t.n)]
        return lambda x: bor(*[eq_soft(x, y) for y in items])
    g = frozen(t)
    uid = ('mem', t.uid, t.version)
    sorts = t.dtype

    def f(x):
        memo = arrays.tab('mem').setdefault(uid, {})
        k = skey(x)
        if k in memo:
            return memo[k][0]
        b = exists(t.space, lambda i: eq_soft(x, g(i)), 'mem')
        memo[k] = (b, x)
        return b
    return f


def skey(x):
    if isinstance(x, SF):
        return ('f', x.r.get_id(), x.nan if isinstance(x.nan, bool) else x.nan.get_id(), x.inf if isinstance(x.inf, int) else x.inf.get_id())
    if isinstance(x, SI):
        return ('i', x.z.get_id())
    if isinstance(x, SS):
        return ('s', x.z.get_id())
    if isinstance(x, ST):
        return ('t', x.z if isinstance(x.z, int) else x.z.get_id(), x.nat if isinstance(x.nat, bool) else x.nat.get_id())
    if isinstance(x, (int, float, str, bool)):
        return ('c', x)
    return ('o', id(x))


def eq_soft(x, y):
    """raw equality used for membership: incomparable kinds are unequal"""
    x, y = x, y
    if isinstance(x, (Cell, MaybeNull)) or isinstance(y, (Cell, MaybeNull)):
        return band(bnot(isnan(x)), cell_same(x, y))
    if is_num(x) and is_num(y) or is_str(x) and is_str(y):
        return scalar_cmp('==', x, y)
    if isinstance(x, (ST, _dt.datetime)) and isinstance(y, (ST, _dt.datetime)):
        return t_cmp('==', time_of(x), time_of(y))
    if isinstance(x, SD) and isinstance(y, SD):
        return t_cmp('==', x, y)
    if isinstance(x, IObj) or isinstance(y, IObj):
        r = interp.eq(x, y)
        return zraw(r) if not isinstance(r, bool) else r
    return x is y


def np_unique(a, **k):
    if k:
        raise Unsupported('np.unique options')
    a = need_arr(a)
    if not isinstance(a, SArr):
        raise Unsupported('np.unique of matrix')
    items = const_items(a)
    if items is not None:
        return SArr.of(sorted(set(items)), a.dtype)
    return reduction('unique', a, lambda: unique_of(a))


def unique_of(a):
    """strictly increasing array with exactly the values of a"""
    ctx = C()
    if a.dtype in ('float', 'int') and not isinstance(a.n, int) and isnan(a.get(ctx.fresh(I, 'un'))) is False:
        i, j = ctx.fresh(I, 'so'), ctx.fresh(I, 'so')
        for k in (i, j):
            a.space.touch(k)
        inr = band(a.space.in_range(i), a.space.in_range(j))
        if provably(z3.Implies(z3.And(zb(inr), i < j), zb(scalar_cmp('<=', a.get(i), a.get(j))))):
            # a sorted array: the first occurrences, in order
            from . import lib_pd
            a = arrays.thaw(a)
            sp, src = lib_pd.first_rows(a.space, [a])
            a.space.touch(z3.IntVal(0))
            g = frozen(a)
            r = SArr(sp, lambda i: g(src(i)), a.dtype)
            sp.add_pair_fact(lambda i, j: z3.Implies(zb(i < j), zb(scalar_cmp('<', r.get(i), r.get(j)))))
            return r
    return sorted_unique(a)


def const_items(a):
    """the values of a literal array of plain numbers or strings, else None"""
    if isinstance(a, SArr) and hasattr(a, 'items') and a.version == 0 and a.items:
        if all(type(x) in (int, float) and x == x for x in a.items) or all(type(x) is str for x in a.items):
            return a.items
    return None


def sorted_unique(a):
    """strictly increasing array with exactly the values of a"""
    ctx = C()
    n = ctx.fresh(I, 'nu')
    g = frozen(a)
    sp = Space(n, 'unique')
    fsrc = ctx.fn('usrc', I, I)     # a representative in a
    fpos = ctx.fn('upos', I, I)     # position of the value of a[i]
    an = arrays.iexpr(a.n)
    ctx.assume(z3.And(n >= 0, n <= an, z3.Implies(an > 0, n > 0)))
    back, fwd, keep = {}, {}, []

    def src(i):
        k = key_of(i)
        if k not in back:
            t = fsrc(arrays.iexpr(i))
            back[k] = t
            fwd[key_of(t)] = arrays.iexpr(i)
            keep.append((i, t))
        return back[k]

    def pos(t):
        k = key_of(t)
        if k not in fwd:
            p = fpos(arrays.iexpr(t))
            fwd[k] = p
            keep.append((t, p))
        return fwd[k]
    r = SArr(sp, lambda i: g(src(i)), a.dtype)
    sp.add_fact(lambda i: band(src(i) >= 0, src(i) < an))
    sp.add_pair_fact(lambda i, j: z3.Implies(zb(i < j), zb(scalar_cmp('<', r.get(i), r.get(j)))))
    sp.links.append(lambda i, h: a.space.touch(src(i), h + 1))

    def up(t, h):
        known = key_of(t) in fwd
        p = pos(t)
        if known:
            sp.touch(p, h + 1)
            return
        C().assume(z3.Implies(zb(a.space.in_range(t)), z3.And(p >= 0, p < n)))
        sp.touch(p, h + 1)
        C().assume(z3.Implies(zb(a.space.in_range(t)), zb(cell_same(r.get(p), g(t)))))
    a.space.add_link(up)
    r.usrc, r.upos = src, pos
    return r


def np_arange(*a, **k):
    a = [force(x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in (lo, hi, st)):
        n = max(0, math.ceil((hi - lo) / st))
        isf = any(isinstance(x, float) for x in (lo, hi, st))
        return SArr.of([(lo + i * st) if not isf else float(lo + i * st) for i in range(n)], 'float' if isf else 'int')
    if not (isinstance(st, int) and st == 1):
        raise Unsupported('arange step')
    if not any(is_float(x) for x in (lo, hi)):
        l, h = zi(lo), zi(hi)
        n = arrays.simp_i(arrays.iexpr(h) - l)
        if z3.is_expr(n):
            n = n if provably(n >= 0) else z3.If(n < 0, z3.IntVal(0), n)
        else:
            n = max(n, 0)
        return SArr(Space(n), lambda i: mki(add_i(i, l)), 'int')
    d = sf(num_sub(sf(hi), sf(lo)))
    if truth(mkb(bnot(f_isfinite(d))), 'arange finite'):
        raise_py(ValueError, 'arange: cannot compute length')
    n = f_ceil(d)
    nz = n.r.arg(0) if z3.is_to_real(n.r) else z3.ToInt(n.r)
    nz = arrays.simp_i(nz)
    if z3.is_expr(nz):
        nz = nz if provably(nz >= 0) else z3.If(nz < 0, z3.IntVal(0), nz)
    lo_ = sf(lo)
    return SArr(Space(nz), lambda i: num_add(lo_, mki(i)), 'float')


def np_uniform(low=0.0, high=1.0, size=None):
    ctx = C()
    low, high = sf(force(low)), sf(force(high))
    if size is None:
        v = ctx.fresh(R, 'rnd')
        ctx.assume(z3.Implies(low.r < high.r, z3.And(v >= low.r, v < high.r)))
        ctx.assume(z3.Implies(low.r == high.r, v == low.r))
        ctx.assume(z3.Implies(low.r > high.r, z3.And(v <= low.r, v > high.r)))
        return SF(v, bor(low.nan, high.nan))
    n = shape_of(size)
    if isinstance(n, tuple):
        raise Unsupported('2-d uniform')
    if not (fin(low) and fin(high)):
        raise_py(OverflowError, 'Range exceeds valid bounds')
    f = ctx.fn('rnd', I, R)
    sp = Space(n, 'rnd')
    sp.add_fact(lambda i: z3.And(z3.Implies(low.r < high.r, z3.And(f(arrays.iexpr(i)) >= low.r, f(arrays.iexpr(i)) < high.r)),
                                 z3.Implies(low.r == high.r, f(arrays.iexpr(i)) == low.r),
                                 z3.Implies(low.r > high.r, z3.And(f(arrays.iexpr(i)) <= low.r, f(arrays.iexpr(i)) > high.r))))
    return SArr(sp, lambda i: SF(f(arrays.iexpr(i)), bor(low.nan, high.nan)), 'float')


def np_matmul(a, b):
    a, b = arr(a), arr(b)
    if isinstance(a, SArr) and isinstance(b, SMat):
        if not isinstance(b.n0, int):
            raise Unsupported('matmul with unknown inner dimension')
        if not truth(mkb(beq(a.n, b.n0)), 'matmul shapes'):
            raise_py(ValueError, 'matmul: Input operand 1 has a mismatch in its core dimension 0')

        def fn(j):
            r = None
            for k in range(b.n0):
                t = scalar_binop('*', a.get(k), b.get(k, j))
                r = t if r is None else scalar_binop('+', r, t)
            return r
        sp = b.rows[0].space if b.rows else Space(b.n1)
        return SArr(sp, fn, 'float')
    if isinstance(a, SArr) and isinstance(b, SArr):
        if not truth(mkb(beq(a.n, b.n)), 'dot shapes'):
            raise_py(ValueError, 'shapes not aligned')
        return np_sum(binop('*', a, b))
    raise Unsupported('matmul')


def np_array(v, dtype=None, copy=True, **k):
    a = arr(v)
    if isinstance(a, SArr):
        g = frozen(a)
        r = SArr(a.space, g, a.dtype)
        if hasattr(a, 'items') and a.version == 0:
            r = SArr.of(list(a.items), a.dtype)
        for kk in ('filter', 'identity'):
            if kk in a.tag:
                r.tag[kk] = a.tag[kk]
        return astype(r, dtype) if dtype is not None else r
    if isinstance(a, SMat):
        return a
    return a


def np_cumsum(a, axis=None, **k):
    a = arr(a)
    if isinstance(a, SMat):
        if axis != 1:
            raise Unsupported('cumsum axis')
        ctx = C()
        i, j = ctx.fresh(I, 'i'), ctx.fresh(I, 'j')
        x = sf(a.get(i, j))
        ok = zb(band(i >= 0, i < arrays.iexpr(a.n0), j >= 0, j < arrays.iexpr(a.n1)))
        holds = lambda c: ctx.check(z3.And(ok, z3.Not(zb(c))), ms=3000)[0] == z3.unsat
        clean = holds(band(bnot(x.nan), beq(x.inf, 0)))
        if clean and holds(x.r == 0):
            return SMat(a.n0, a.n1, lambda i, j: SF(z3.RealVal(0)))      # sums of zeros, by induction over the columns
        S, SN = ctx.fn('cums', I, I, R), ctx.fn('cumsnan', I, I, B)

        def fn(i, j):
            x = sf(a.get(i, j))
            ii, jj = arrays.iexpr(i), arrays.iexpr(j)
            c = C()
            c.assume(z3.Implies(jj == 0, S(ii, jj) == x.r))
            c.assume(z3.Implies(jj > 0, S(ii, jj) == S(ii, jj - 1) + x.r))
            if clean:
                return SF(S(ii, jj))
            c.assume(z3.Implies(zb(x.nan), SN(ii, jj)))
            return SF(S(ii, jj), SN(ii, jj))
        m = SMat(a.n0, a.n1, fn)
        m.tag = {'cumsum_of': a, 'S': S}
        return m
    if isinstance(a.n, int):
        raise Unsupported('cumsum of an array of known length')
    return cumsum_of(a)


def cumsum_of(a):
    """partial sums of whole numbers: some whole number per element, a function of the contents (a weak contract)"""
    if a.dtype not in ('int', 'bool'):
        raise Unsupported('cumsum of floats')
    from .arrays import reduction
    C().lossy.add('cumsum')
    c = reduction('cumsum', a, lambda: C().fn('cumsum', I, I))
    memo = {}

    def fn(i):
        k = arrays.key_of(i)
        if k not in memo:
            memo[k] = mki(c(arrays.iexpr(i)))
        return memo[k]
    return SArr(a.space, fn, 'int')


def np_array_str(a, **k):
    a = arr(a)
    return reduction('array_str', a, lambda: SS(C().fresh(z3.StringSort(), 'astr'))) if isinstance(a, SArr) else to_str(a)


def np_setdiff1d(a, b):
    a, b = need_arr(a), need_arr(b)
    f = membership(b)
    if isinstance(a.n, int) and a.n <= 16:
        keep = [x for x in (a.get(i) for i in range(a.n)) if not provably(f(x))]
        if not keep:
            return SArr.of([], a.dtype)
        a = SArr.of(keep, a.dtype)
    u = np_unique(a)
    sp, src = subset(u.space, lambda i: bnot(f(u.get(i))))
    return SArr(sp, lambda i: u.get(src(i)), a.dtype)


def np_percentile(a, q, axis=None, **k):
    a = arr(a)
    q = force(q)
    if truth(mkb(bnot(band(scalar_cmp('>=', q, 0), scalar_cmp('<=', q, 100)))), 'percentile range'):
        raise_py(ValueError, 'Percentiles must be in the range [0, 100]')
    if isinstance(a, SMat):
        if axis != 0:
            raise Unsupported('percentile axis')
        ctx = C()
        t = arrays.tab('pct').setdefault(a.uid, None)
        if t is None:
            P = ctx.fn('pct', I, R, R)
            PN = ctx.fn('pctnan', I, B)
            t = {'P': P, 'N': PN, 'qs': [], 'a': a, 'sp': Space(a.n1, 'pct')}
            arrays.tab('pct')[a.uid] = t
            n0 = arrays.iexpr(a.n0)

            def bounds(j):
                # every percentile lies between the extremes of its column: witnesses
                return None
        P, PN, sp = t['P'], t['N'], t['sp']
        qr = sf(q).r

        def fn(j):
            jj = arrays.iexpr(j)
            c = C()
            lo, hi = c.fresh(I, 'plo'), c.fresh(I, 'phi')
            n0 = arrays.iexpr(a.n0)
            c.assume(z3.Implies(n0 > 0, z3.And(lo >= 0, lo < n0, hi >= 0, hi < n0)))
            xl, xh = sf(a.get(lo, j)), sf(a.get(hi, j))
            c.assume(z3.Implies(n0 > 0, z3.And(z3.Implies(zb(bnot(xl.nan)), xl.r <= P(jj, qr)),
                                               z3.Implies(zb(bnot(xh.nan)), P(jj, qr) <= xh.r))))
            for q2 in t['qs']:
                c.assume(z3.Implies(qr <= q2, P(jj, qr) <= P(jj, q2)))
                c.assume(z3.Implies(q2 <= qr, P(jj, q2) <= P(jj, qr)))
            # NaN in a percentile iff some value of the column is NaN
            if not t.get('nan_free'):
                c.assume(z3.Implies(PN(jj), z3.BoolVal(True)))
            wn = c.fresh(I, 'pn')
            xn = sf(a.get(wn, j))
            c.assume(z3.Implies(PN(jj), z3.And(wn >= 0, wn < n0, zb(xn.nan))))
            return SF(P(jj, qr), PN(jj))
        t['qs'].append(qr)
        return SArr(sp, fn, 'float')
    raise Unsupported('percentile of 1-d array')


def np_repeat(a, n, axis=None):
    a = arr(a)
    n = force(n)
    if isinstance(a, SMat) and axis == 1:
        k = zi(n)
        n1 = arrays.simp_i(arrays.iexpr(a.n1) * k)

        def at(i, j):
            if not (isinstance(j, int) and isinstance(k, int)):
                q, jj = arrays.iexpr(j) / k, arrays.iexpr(j)
                C().assume(z3.Implies(z3.And(arrays.iexpr(k) > 0, jj >= 0, jj < arrays.iexpr(n1)), z3.And(q >= 0, q < arrays.iexpr(a.n1))))
            return a.get(i, idiv_any(j, k))
        return SMat(a.n0, n1, at)
    raise Unsupported('repeat')


def idiv_any(j, k):
    if isinstance(j, int) and isinstance(k, int):
        return j // k
    return arrays.simp_i(arrays.iexpr(j) / k)


def reshape(a, shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    if len(shape) == 2:
        d0, d1 = force(shape[0]), force(shape[1])
        z0, z1 = zi(d0), zi(d1)
        if isinstance(z1, int) and z1 == 1:
            g = frozen(a)
            if isinstance(z0, int) and z0 == -1:
                z0 = a.n
            if not truth(mkb(beq(z0, a.n)), 'reshape'):
                raise_py(ValueError, 'cannot reshape array')
            return SMat(z0, 1, lambda i, j: g(i))
        if isinstance(z0, int) and z0 in (1, -1) and not (isinstance(z0, int) and z0 == -1):
            g = frozen(a)
            return SMat(1, a.n, lambda i, j: g(j))
        n = arrays.iexpr(z0) * z1
        if not truth(mkb(arrays.iexpr(a.n) == n), 'reshape'):
            raise_py(ValueError, 'cannot reshape array')
        g = frozen(a)

        def at(i, j):
            p, ii, jj = arrays.simp_i(arrays.iexpr(i) * z1 + j), arrays.iexpr(i), arrays.iexpr(j)
            if z3.is_expr(p):       # row-major position of an entry
                C().assume(z3.Implies(z3.And(ii >= 0, ii < arrays.iexpr(z0), jj >= 0, jj < arrays.iexpr(z1)), z3.And(p >= 0, p < arrays.iexpr(a.n))))
            return g(p)
        return SMat(z0, z1, at)
    raise Unsupported('reshape')


# ------------------------------------------------------------ indexing

def is_mask(k):
    return isinstance(k, SArr) and k.dtype == 'bool'


def view(a, lo, ln):
    if isinstance(lo, int) and lo == 0 and beq(ln, a.n) is True:
        r = SArr(a.space, a.get, a.dtype, a.kind)
    else:
        r = SArr(Space(ln), lambda i: a.get(add_i(i, lo)), a.dtype, a.kind)
    if hasattr(a, 'items') and a.version == 0 and isinstance(lo, int) and isinstance(ln, int):
        r.items = a.items[lo:lo + ln]
    r.is_view = True
    return r


def getitem(o, k):
    if isinstance(o, SArr):
        if isinstance(k, slice):
            if k.step == -1 and k.start is None and k.stop is None:
                n = a_n = o.n
                r = SArr(Space(o.n), lambda i: o.get(arrays.simp_i(arrays.iexpr(o.n) - 1 - i)), o.dtype, o.kind)
                r.is_view = True
                return r
            lo, ln = norm_slice(k, o.n)
            return view(o, lo, ln)
        if isinstance(k, tuple):
            if len(k) == 1:
                return getitem(o, k[0])
            if len(k) == 2 and k[0] is None and isinstance(k[1], slice):
                g = frozen(o)
                return SMat(1, o.n, lambda i, j: g(j))
            if len(k) == 2 and k[1] is None and isinstance(k[0], slice):
                g = frozen(o)
                return SMat(o.n, 1, lambda i, j: g(i))
            raise_py(IndexError, 'too many indices for array')
        k = force(k)
        if hasattr(k, 'sv_arr'):
            k = k.sv_arr()
        if isinstance(k, (list, SymSeq)):
            k = arr(k)
            if isinstance(k, SArr) and isinstance(k.n, int) and k.n == 0:
                k = SArr.of([], 'int')
        if isinstance(k, SArr):
            return take(o, k)
        if k is None:
            g = frozen(o)
            return SMat(1, o.n, lambda i, j: g(j))
        if isinstance(k, (bool, SB)):
            raise Unsupported('boolean scalar index')
        return o.get(check_index(k, o.n))
    if isinstance(o, SMat):
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            if isinstance(a, slice) and isinstance(b, slice):
                l0, n0 = norm_slice(a, o.n0)
                l1, n1 = norm_slice(b, o.n1)
                return SMat(n0, n1, lambda i, j: o.get(add_i(i, l0), add_i(j, l1)), o.dtype)
            if isinstance(a, slice):
                l0, n0 = norm_slice(a, o.n0)
                j = check_index(b, o.n1)
                return SArr(Space(n0), lambda i: o.get(add_i(i, l0), j), o.dtype)
            if isinstance(b, slice):
                l1, n1 = norm_slice(b, o.n1)
                i = check_index(a, o.n0)
                return SArr(Space(n1), lambda j: o.get(i, add_i(j, l1)), o.dtype)
            return o.get(check_index(a, o.n0), check_index(b, o.n1))
        if isinstance(k, slice):
            lo, ln = norm_slice(k, o.n0)
            if isinstance(lo, int) and isinstance(ln, int) and o.rows is not None:
                return SMat.of_rows(o.rows[lo:lo + ln])
            return SMat(ln, o.n1, lambda i, j: o.get(add_i(i, lo), j), o.dtype)
        return o.row(check_index(k, o.n0))
    if isinstance(o, (SF, SI, SB, float, int, bool)) or o is None:
        raise_py(TypeError, 'object is not subscriptable')
    raise Unsupported('indexing of %r' % type(o))


def take(o, k):
    g = frozen(o)
    kg = frozen(k)
    if k.dtype == 'bool':
        if not truth(mkb(beq(k.n, o.n)), 'mask length'):
            raise_py(IndexError, 'boolean index did not match indexed array')
        if isinstance(k.n, int) and k.n <= 64:
            items = [zraw(kg(i)) for i in range(k.n)]
            if all(isinstance(x, bool) for x in items):
                return SArr.of([g(i) for i, x in enumerate(items) if x], o.dtype, o.kind)
        sp, src = subset(k.space, lambda i: zraw(kg(i)))
        return SArr(sp, lambda i: g(src(i)), o.dtype, o.kind)
    if k.dtype == 'float':
        if isinstance(k.n, int) and k.n == 0:
            return SArr.of([], o.dtype)
        raise_py(IndexError, 'arrays used as indices must be of integer (or boolean) type')
    if k.dtype == 'int':
        if 'filter' in k.tag or 'identity' in k.tag:
            base = k.tag['filter'][1] if 'filter' in k.tag else k.tag['identity']
            if truth(mkb(arrays.iexpr(base.n) <= o.n), 'index array in range'):
                return SArr(k.space, lambda i: g(zi(kg(i))), o.dtype, o.kind)
        n = o.n
        bad = exists(k.space, lambda i: bor(zi(kg(i)) < -arrays.iexpr(n), zi(kg(i)) >= arrays.iexpr(n)), 'oob')
        if truth(mkb(bad), 'index array out of bounds'):
            raise_py(IndexError, 'index is out of bounds for axis 0')

        def fn(i):
            z = zi(kg(i))
            if isinstance(z, int):
                return g(z if z >= 0 else add_i(z, n))
            neg = C().check(z3.And(zb(k.space.in_range(i)), z < 0), ms=1000)[0] != z3.unsat if not C().cap_stack else True
            if neg:
                z = z3.If(z < 0, z + n, z)
            return g(z)
        return SArr(k.space, fn, o.dtype, 'nd' if o.kind == 'nd' else o.kind)
    raise_py(IndexError, 'arrays used as indices must be of integer (or boolean) type')


def cast_into(o, v):
    """value stored into an array of o's dtype"""
    if o.dtype == 'float':
        return sf(v) if not isinstance(v, float) else v
    if o.dtype == 'int':
        return trunc_raw(v)
    return v


def setitem(o, k, v):
    if not isinstance(o, SArr):
        raise Unsupported('item store on %r' % type(o))
    if o.kind != 'nd':
        raise_py(TypeError, 'Index does not support mutable operations')
    v = arr(v)
    k = force(k)
    if isinstance(k, tuple) and len(k) == 1:
        k = k[0]
    if hasattr(k, 'sv_arr'):
        k = k.sv_arr()
    if isinstance(k, (list, SymSeq)):
        k = arr(k)
    if o.is_view:
        raise Unsupported('store through an array view')
    if isinstance(k, slice):
        lo, ln = norm_slice(k, o.n)
        hi = add_i(ln, lo) if isinstance(ln, int) and isinstance(lo, int) else arrays.simp_i(arrays.iexpr(lo) + ln)
        cond = lambda i: band(i >= lo, i < hi)
        if isinstance(v, SArr):
            if not truth(mkb(bor(beq(v.n, ln), beq(v.n, 1))), 'slice store'):
                raise_py(ValueError, 'could not broadcast input array')
            g = frozen(v)
            one = v.n == 1 if isinstance(v.n, int) else False
            val = lambda i: cast_into(o, g(0 if one else (arrays.simp_i(arrays.iexpr(i) - lo) if not (isinstance(i, int) and isinstance(lo, int)) else i - lo)))
        else:
            val = lambda i: cast_into(o, v)
        o.setitem(cond, val)
        return
    if isinstance(k, SArr):
        kg = frozen(k)
        if k.dtype == 'bool':
            if not truth(mkb(beq(k.n, o.n)), 'mask length'):
                raise_py(IndexError, 'boolean index did not match')
            if isinstance(v, SArr):
                sp, src = subset(k.space, lambda i: zraw(kg(i)))
                if not truth(mkb(bor(beq(v.n, sp.n), beq(v.n, 1))), 'mask store'):
                    raise_py(ValueError, 'NumPy boolean array indexing assignment cannot assign')
                g = frozen(v)
                if isinstance(v.n, int) and v.n == 1:
                    o.setitem(lambda i: zraw(kg(i)), lambda i: cast_into(o, g(0)))
                elif sp is k.space:
                    o.setitem(lambda i: True, lambda i: cast_into(o, g(i)))
                else:
                    o.setitem(lambda i: zraw(kg(i)), lambda i: cast_into(o, g(sp.rank(i))))
            else:
                o.setitem(lambda i: zraw(kg(i)), lambda i: cast_into(o, v))
            return
        if k.dtype == 'int' or (isinstance(k.n, int) and k.n == 0):
            if isinstance(v, SArr) and not truth(mkb(bor(beq(v.n, k.n), beq(v.n, 1))), 'index store'):
                raise_py(ValueError, 'shape mismatch: value array could not be broadcast to indexing result')
            one = isinstance(v, SArr) and not (beq(v.n, k.n) is True) and (isinstance(v.n, int) and v.n == 1)
            vg = frozen(v) if isinstance(v, SArr) else (lambda i: v)
            if 'identity' in k.tag and beq(k.tag['identity'].n, o.n) is True:
                o.setitem(lambda i: True, lambda i: cast_into(o, vg(0 if one else i)))
                return
            if 'filter' in k.tag and provably(beq(k.tag['filter'][1].n, o.n)):
                sp, base = k.tag['filter']
                root = sp.froot
                cnd, rk = sp.fcond, sp.rank
                if root is not base:
                    raise Unsupported('index store through nested filter')
                o.setitem(lambda i: cnd(i), lambda i: cast_into(o, vg(0 if one else rk(i))))
                return
            if isinstance(k.n, int):
                for q in range(k.n):
                    ii = check_index(kg(q), o.n)
                    vv = vg(0 if one else q)
                    o.setitem(lambda i, ii=ii: beq(i, ii), lambda i, vv=vv: cast_into(o, vv))
                return
        raise Unsupported('store at an index array')
    ii = check_index(k, o.n)
    if isinstance(v, (SArr, SMat)):
        if isinstance(v, SArr) and v.n == 1:
            v = v.get(0)
        else:
            raise_py(ValueError, 'setting an array element with a sequence')
    vv = cast_into(o, v)
    o.setitem(lambda i: beq(i, ii), lambda i: vv)


# ------------------------------------------------------------ attributes of arrays and scalars

def meth(fn, name):
    return HostFn(fn, name)


DT_FIELDS = {
    'month': lambda t: mki(cal('month', t)),
    'day': lambda t: mki(cal('day', t)),
    'year': lambda t: mki(cal('year', t)),
    'weekday': lambda t: mki(weekday_raw(t)),
    'dayofweek': lambda t: mki(weekday_raw(t)),
    'hour': lambda t: mki((t.z // HOUR if isinstance(t.z, int) else t.z / HOUR) % 24),
}


def days_of(d):
    z = d.z
    return z // DAY if isinstance(z, int) else idiv(z, DAY)


def attr(o, nm):
    if isinstance(o, SArr):
        return arr_attr(o, nm)
    if isinstance(o, SMat):
        return mat_attr(o, nm)
    if isinstance(o, ST):
        return ts_attr(o, nm)
    if isinstance(o, _dt.datetime):
        return ts_attr(time_of(o), nm)
    if isinstance(o, Date):
        return Opaque('date.' + nm)
    if isinstance(o, SD):
        return td_attr(o, nm)
    if isinstance(o, (str, SS)):
        return str_attr(o, nm)
    if isinstance(o, list):
        return list_attr(o, nm)
    if isinstance(o, IDict):
        return dict_attr(o, nm)
    if isinstance(o, SSet):
        if nm == 'add':
            return meth(lambda x: (mark_mutation(o), o.add(x))[1], 'set.add')
        if nm == 'union':
            return meth(lambda *l: SSet(o.items + [x for y in l for x in iterate(y)]), 'set.union')
        if nm == 'update':
            return meth(lambda *l: [o.add(x) for y in l for x in iterate(y)] and None, 'set.update')
        raise Unsupported('set.' + nm)
    if isinstance(o, (SF, SI, SB, float, int, bool)):
        return num_attr(o, nm)
    if isinstance(o, IFunc):
        if nm in ('__name__', '__qualname__'):
            return o.name
        if nm in o.attrs:
            return o.attrs[nm]
        raise_py(AttributeError, nm)
    if isinstance(o, tuple):
        if nm == 'index':
            return meth(lambda x: list(o).index(x), 'tuple.index')
        raise_py(AttributeError, nm)
    if isinstance(o, HostFn):
        if nm == 'from_iterable':
            return meth(lambda it: [x for y in iterate(it) for x in iterate(y)], 'chain.from_iterable')
        if nm == 'fromkeys' and o.name == 'dict':
            return meth(dict_fromkeys, 'dict.fromkeys')
        return Opaque('%s.%s' % (o.name, nm))
    if isinstance(o, Opaque):
        if nm in o.attrs:
            return o.attrs[nm]
        return Opaque('%s.%s' % (o.why, nm))
    if isinstance(o, IExc):
        if nm == 'args':
            return o.args
    if o is None:
        raise_py(AttributeError, "'NoneType' object has no attribute '%s'" % nm)
    if isinstance(o, type):
        if nm == '__name__':
            return o.__name__
    raise Unsupported('attribute %s of %r' % (nm, type(o)))


def arr_attr(o, nm):
    if nm == 'size':
        return mki(o.n)
    if nm == 'shape':
        return (mki(o.n),)
    if nm == 'ndim':
        return 1
    if nm == 'dtype':
        return DType(o.dtype)
    if nm == 'T':
        return o
    if nm == 'astype':
        return meth(lambda t, **k: astype(o, t), 'ndarray.astype')
    if nm == 'copy':
        return meth(lambda **k: SArr(o.space, frozen(o), o.dtype, o.kind), 'ndarray.copy')
    if nm in ('sum', 'mean', 'min', 'max', 'any', 'all', 'argmax', 'argmin', 'cumsum', 'prod', 'nonzero'):
        if o.kind == 'nd':
            return meth(lambda *a, **k: NP[nm].fn(o, *a, **k), 'ndarray.' + nm)
        if nm in ('min', 'max'):
            return meth(lambda: index_extreme(o, '<' if nm == 'min' else '>'), 'Index.' + nm)
        return meth(lambda *a, **k: NP[nm].fn(o, *a, **k), 'Index.' + nm)
    if nm == 'reshape':
        return meth(lambda *s, **k: reshape(o, s), 'ndarray.reshape')
    if nm == 'tolist':
        return meth(lambda: o.tolist() if isinstance(o.n, int) else SymSeq(o.space, frozen(o)), 'tolist')
    if nm == 'flatten' or nm == 'ravel':
        return meth(lambda: SArr(o.space, frozen(o), o.dtype), 'flatten')
    if nm == 'repeat':
        return meth(lambda n: np_repeat(o, n), 'repeat')
    if nm == 'round':
        raise Unsupported('round')
    if o.kind in ('index', 'dtindex'):
        from . import lib_pd
        return lib_pd.index_attr(o, nm)
    if nm == 'dot':
        return meth(lambda b: np_matmul(o, b), 'dot')
    raise_py(AttributeError, "'numpy.ndarray' object has no attribute '%s'" % nm)


def index_extreme(o, op):
    """Index.min/max skip missing values; empty → NaT/NaN"""
    if truth(mkb(beq(o.n, 0)), 'empty index'):
        if o.dtype == 'time':
            return ST(0, True)
        if o.dtype == 'td':
            return SD(0, True)
        return NAN
    return extreme(o, op, 'nan')


def mat_attr(o, nm):
    if nm == 'shape':
        return (mki(o.n0), mki(o.n1))
    if nm == 'ndim':
        return 2
    if nm == 'size':
        return mki(arrays.simp_i(arrays.iexpr(o.n0) * o.n1))
    if nm == 'T':
        return SMat(o.n1, o.n0, lambda i, j: o.get(j, i), o.dtype)
    if nm == 'reshape':
        raise Unsupported('reshape of a matrix')
    raise Unsupported('matrix.%s' % nm)


class DType:
    def __init__(self, k):
        self.name = {'float': 'float64', 'int': 'int64', 'bool': 'bool', 'time': 'datetime64[ns]', 'td': 'timedelta64[ns]'}.get(k, 'object')
        self.k = k

    def sv_cmp(self, op, other):
        n = other if isinstance(other, str) else getattr(other, 'name', None)
        al = {'float': 'float64', 'int': 'int64', 'np.float64': 'float64', 'np.int64': 'int64', 'np.bool_': 'bool'}
        e = al.get(n, n) == self.name
        return e if op == '==' else not e

    def sv_getattr(self, nm):
        if nm == 'name':
            return self.name
        if nm == 'kind':
            return {'float': 'f', 'int': 'i', 'bool': 'b', 'time': 'M', 'td': 'm'}.get(self.k, 'O')
        raise Unsupported('dtype.%s' % nm)


def ts_attr(o, nm):
    if nm == 'weekday' or nm == 'dayofweek' and False:
        return meth(lambda: mki(weekday_raw(o)), 'Timestamp.weekday')
    if nm == 'isoweekday':
        return meth(lambda: mki(weekday_raw(o) + 1), 'Timestamp.isoweekday')
    if nm in DT_FIELDS:
        return DT_FIELDS[nm](o)
    if nm == 'date':
        return meth(lambda: Date(day_of(o), o.nat), 'Timestamp.date')
    if nm == 'normalize' or nm == 'floor':
        return meth(lambda *a: ST(day_of(o) * DAY, o.nat), 'Timestamp.normalize')
    if nm == 'strftime':
        return meth(lambda f: SS(C().fresh(z3.StringSort(), 'strftime')), 'strftime')
    if nm == 'to_pydatetime':
        return meth(lambda: o, 'to_pydatetime')
    raise Unsupported('Timestamp.%s' % nm)


def td_attr(o, nm):
    if nm == 'days':
        return mki(days_of(o))
    if nm == 'total_seconds':
        def ts():
            x = num_div(sf(mki(o.z)), float(10 ** 9))
            return SF(x.r, o.nat)
        return meth(ts, 'total_seconds')
    raise Unsupported('Timedelta.%s' % nm)


def str_attr(o, nm):
    if nm == 'format':
        return meth(lambda *a, **k: interp.s_format(o, a, k), 'str.format')
    if isinstance(o, str):
        if nm in ('startswith', 'endswith', 'upper', 'lower', 'strip', 'split', 'replace', 'find', 'isdigit', 'rstrip', 'lstrip', 'title', 'count'):
            def f(*a):
                if all(isinstance(x, (str, int, tuple)) for x in a):
                    return getattr(o, nm)(*a)
                if nm == 'startswith':
                    return mkb(z3.PrefixOf(zs(a[0]), zs(o)))
                raise Unsupported('str.%s' % nm)
            return meth(f, 'str.' + nm)
        if nm == 'join':
            def join(it):
                out = []
                for i, x in enumerate(iterate(it)):
                    if i:
                        out.append(o)
                    out.append(x)
                return s_concat(out)
            return meth(join, 'str.join')
        raise_py(AttributeError, nm)
    if nm == 'startswith':
        return meth(lambda p: mkb(z3.PrefixOf(zs(p), o.z)), 'str.startswith')
    if nm == 'endswith':
        return meth(lambda p: mkb(z3.SuffixOf(zs(p), o.z)), 'str.endswith')
    if nm == 'replace':
        return meth(lambda a, b: SS(UF('str_replace', z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())(o.z, zs(a), zs(b))), 'str.replace')
    if nm in ('lower', 'upper', 'strip'):
        return meth(lambda: SS(UF('str_' + nm, z3.StringSort(), z3.StringSort())(o.z)), 'str.' + nm)
    raise Unsupported('str.%s' % nm)


def list_attr(o, nm):
    def mut(f):
        def g(*a, **k):
            mark_mutation(o)
            return f(*a, **k)
        return meth(g, 'list.' + nm)
    if nm == 'append':
        return mut(lambda x: o.append(x))
    if nm == 'extend':
        return mut(lambda x: o.extend(iterate(x)))
    if nm == 'insert':
        return mut(lambda i, x: o.insert(i, x))
    if nm == 'pop':
        def pop(i=-1):
            if not o:
                raise_py(IndexError, 'pop from empty list')
            return o.pop(i)
        return mut(pop)
    if nm == 'sort':
        def sort(key=None, reverse=False):
            from .builtins_m import sort_list
            o[:] = sort_list(list(o), key, reverse)
        return mut(sort)
    if nm == 'reverse':
        return mut(lambda: o.reverse())
    if nm == 'copy':
        return meth(lambda: list(o), 'list.copy')
    if nm == 'clear':
        return mut(lambda: o.clear())
    if nm == 'index':
        def index(x):
            for i, y in enumerate(o):
                if truth(interp.eq(y, x)):
                    return i
            raise_py(ValueError, 'not in list')
        return meth(index, 'list.index')
    if nm == 'count':
        return meth(lambda x: sum(1 for y in o if truth(interp.eq(y, x))), 'list.count')
    if nm == 'remove':
        def remove(x):
            for i, y in enumerate(o):
                if truth(interp.eq(y, x)):
                    del o[i]
                    return None
            raise_py(ValueError, 'list.remove(x): x not in list')
        return mut(remove)
    raise_py(AttributeError, "'list' object has no attribute '%s'" % nm)


def dict_attr(o, nm):
    if nm == 'get':
        def get(k, d=None):
            r = o.find(force(k))
            return d if r is interp._MISSING else r
        return meth(get, 'dict.get')
    if nm == 'copy':
        return meth(lambda: o.copy(), 'dict.copy')
    if nm == 'update':
        def update(*a, **k):
            mark_mutation(o)
            for x in a:
                for kk, v in (x.allitems() if isinstance(x, IDict) else iterate(x)):
                    o.put(kk, v)
            for kk, v in k.items():
                o.put(kk, v)
        return meth(update, 'dict.update')
    if nm == 'items':
        return meth(lambda: [(k, v) for k, v in o.allitems()], 'dict.items')
    if nm == 'keys':
        return meth(lambda: [k for k, v in o.allitems()], 'dict.keys')
    if nm == 'values':
        return meth(lambda: [v for k, v in o.allitems()], 'dict.values')
    if nm == 'pop':
        def pop(k, *d):
            r = o.find(force(k))
            if r is interp._MISSING:
                if d:
                    return d[0]
                raise_py(KeyError, k)
            mark_mutation(o)
            if dict.__contains__(o, k):
                dict.__delitem__(o, k)
            else:
                raise Unsupported('pop symbolic key')
            return r
        return meth(pop, 'dict.pop')
    if nm == 'setdefault':
        def sd(k, d=None):
            r = o.find(force(k))
            if r is interp._MISSING:
                mark_mutation(o)
                o.put(force(k), d)
                return d
            return r
        return meth(sd, 'dict.setdefault')
    raise_py(AttributeError, "'dict' object has no attribute '%s'" % nm)


def num_attr(o, nm):
    if nm == 'ndim':
        return 0
    if nm == 'astype':
        from .builtins_m import b_float, b_int, b_bool
        def f(t):
            n = t if isinstance(t, str) else getattr(t, 'name', None)
            a = astype(SArr.of([o]), t)
            return a.get(0)
        return meth(f, 'scalar.astype')
    if nm in ('sum', 'min', 'max', 'mean', 'item', 'copy'):
        return meth(lambda *a, **k: o, 'scalar.' + nm)
    if nm in ('any', 'all'):
        return meth(lambda *a, **k: mkb(__import__('dv.builtins_m', fromlist=['rawb']).rawb(o)), 'scalar.' + nm)
    if nm == 'shape':
        return ()
    if nm == 'size':
        return 1
    if nm == 'is_integer':
        v = sf(o)
        return meth(lambda: mkb(z3.IsInt(v.r)), 'float.is_integer')
    raise_py(AttributeError, nm)


def like(v):
    def f(a, dtype=None):
        a = need_arr(a)
        if isinstance(a, SMat):
            return SMat(a.n0, a.n1, lambda i, j: v)
        return SArr(a.space, lambda i: (float(v) if a.dtype == 'float' else int(v)), a.dtype if a.dtype in ('float', 'int') else 'float')
    return f


def np_full_like(a, v, dtype=None):
    a = need_arr(a)
    if a.dtype == 'int' and is_float(v):
        v = trunc_raw(v)
    return SArr(a.space, lambda i: v, a.dtype)


def np_reduce(op, mode):
    def f(a, axis=None, **k):
        a = arr(a)
        if isinstance(a, SMat):
            raise Unsupported('reduction of a matrix')
        if not isinstance(a, SArr):
            return a
        nonempty(a, 'zero-size array to reduction operation')
        return extreme(a, op, mode)
    return f


def np_issubdtype(a, b):
    a = force(a)
    if isinstance(a, SArr) or hasattr(a, 'a') and isinstance(a.a, SArr):
        a = interp.getattr_(a, 'dtype')      # numpy takes the dtype of anything that has one
    n = a.name if isinstance(a, (DType, TypeTok)) else str(a)
    m = getattr(b, 'name', str(b))
    al = {'float': 'float64', 'int': 'int64'}
    m2 = m.replace('np.', '')
    n = n.replace('np.', '')
    if m2 in ('float64', 'float', 'floating'):
        return n in ('float64', 'float')
    if m2 in ('number',):
        return n in ('float64', 'int64', 'float', 'int')
    if m2 in ('int64', 'integer', 'int'):
        return n in ('int64', 'int')
    if m2 in ('datetime64',):
        return n.startswith('datetime64')
    raise Unsupported('issubdtype')


def np_array_equal(a, b, **k):
    a, b = need_arr(a), need_arr(b)
    if not truth(mkb(beq(a.n, b.n))):
        return False
    return np_all(interp.compare('==', a, b))


def np_tolerance(*a, **k):
    raise Unsupported('approximate comparison')


_F = {
    'array': np_array, 'asarray': np_array, 'full': np_full, 'concatenate': np_concatenate, 'hstack': np_concatenate,
    'zeros': lambda n, dtype=None: np_full(n, 0.0, dtype), 'ones': lambda n, dtype=None: np_full(n, 1.0, dtype),
    'zeros_like': like(0), 'ones_like': like(1), 'full_like': np_full_like,
    'arange': np_arange, 'isin': np_isin, 'in1d': np_isin, 'heaviside': u2(s_heaviside), 'power': u2(s_power, 'num'),
    'exp': u1(f_exp), 'log': u1(f_log), 'sqrt': u1(f_sqrt), 'abs': u1(f_abs, 'same'), 'absolute': u1(f_abs, 'same'),
    'fabs': u1(lambda x: f_abs(sf(x))),
    'sin': u1(f_uf1('sin')), 'cos': u1(f_uf1('cos')), 'tan': u1(f_uf1('tan')), 'log10': u1(f_uf1('log10')),
    'tanh': u1(f_uf1('tanh')), 'sign': u1(s_sign, 'same'),
    'square': u1(lambda x: num_mul(x, x), 'same'), 'negative': u1(num_neg, 'same'),
    'floor': u1(f_floor_f), 'ceil': u1(lambda x: f_ceil(sf(x) if isinstance(x, SI) else x)),
    'isnan': u1(s_isnan, 'bool'), 'isfinite': u1(lambda x: mkb(f_isfinite(x)), 'bool'), 'isinf': u1(s_isinf, 'bool'),
    'logical_not': u1(lambda x: mkb(bnot(zraw(x))), 'bool'), 'invert': u1(lambda x: mkb(bnot(zraw(x))), 'bool'),
    'logical_and': u2(lambda x, y: mkb(band(zraw(x), zraw(y))), 'bool'),
    'logical_or': u2(lambda x, y: mkb(bor(zraw(x), zraw(y))), 'bool'),
    'maximum': u2(s_max2, 'num'), 'minimum': u2(s_min2, 'num'),
    'add': lambda a, b: binop('+', arr(a), arr(b)), 'subtract': lambda a, b: binop('-', arr(a), arr(b)),
    'multiply': lambda a, b: binop('*', arr(a), arr(b)), 'divide': lambda a, b: binop('/', arr(a), arr(b)),
    'true_divide': lambda a, b: binop('/', arr(a), arr(b)),
    'less': lambda a, b: interp.compare('<', arr(a), arr(b)), 'less_equal': lambda a, b: interp.compare('<=', arr(a), arr(b)),
    'greater': lambda a, b: interp.compare('>', arr(a), arr(b)), 'greater_equal': lambda a, b: interp.compare('>=', arr(a), arr(b)),
    'equal': lambda a, b: interp.compare('==', arr(a), arr(b)),
    'sum': np_sum, 'nansum': np_nansum, 'mean': np_mean, 'nanmean': np_nanmean, 'prod': np_prod,
    'max': np_reduce('>', 'np'), 'amax': np_reduce('>', 'np'), 'min': np_reduce('<', 'np'), 'amin': np_reduce('<', 'np'),
    'nanmax': np_reduce('>', 'nan'), 'nanmin': np_reduce('<', 'nan'),
    'argmax': lambda a, **k: arg_extreme(need_arr(a), '>'), 'argmin': lambda a, **k: arg_extreme(need_arr(a), '<'),
    'any': np_any, 'all': np_all, 'diff': np_diff, 'nonzero': np_nonzero, 'flatnonzero': lambda a: np_nonzero(a)[0],
    'where': np_where, 'unique': np_unique,
    'matmul': np_matmul, 'dot': np_matmul, 'cumsum': np_cumsum, 'array_str': np_array_str, 'setdiff1d': np_setdiff1d,
    'percentile': np_percentile, 'repeat': np_repeat, 'issubdtype': np_issubdtype, 'size': lambda a: mki(need_arr(a).n),
    'count_nonzero': np_count_nonzero, 'array_equal': np_array_equal, 'clip': lambda a, lo, hi: u1(lambda x: s_clip(x, lo, hi))(a),
    'isscalar': lambda a: is_num(a) or is_str(a), 'append': lambda a, b: np_concatenate([a if not is_num(a) else [a], b if not is_num(b) else [b]]),
    'atleast_1d': need_arr, 'ndim': lambda a: attr(arr(a), 'ndim'), 'allclose': np_tolerance, 'isclose': np_tolerance,
    'reshape': lambda a, s: reshape(arr(a), s if isinstance(s, tuple) else (s,)),
}
NP = {k: HostFn(v, 'numpy.' + k) for k, v in _F.items()}


def _tok(nm, check=None, ctor=None):
    return TypeTok('np.' + nm, ctor, check=check)


def np_timedelta64(n, unit='D'):
    mult = {'D': DAY, 'h': HOUR, 's': 10 ** 9, 'm': 60 * 10 ** 9, 'ns': 1, 'W': 7 * DAY}[unit]
    return SD(zi(n) * mult)


NPMOD = LibMod('numpy', dict(NP))
NPMOD.attrs.update(
    inf=INF, Inf=INF, nan=NAN, NaN=NAN, NAN=NAN, newaxis=None, pi=SF(PI), e=SF(z3.Real('euler')),
    ndarray=_tok('ndarray', lambda v: isinstance(v, (SArr, SMat)) and v.kind == 'nd'),
    float64=_tok('float64', lambda v: isinstance(v, SF) and v.np, lambda v=0.0: sf(v)),
    int64=_tok('int64', lambda v: isinstance(v, SI), lambda v=0: to_int(v)),
    bool_=_tok('bool_', is_bool), number=_tok('number'), floating=_tok('floating'), integer=_tok('integer'),
    datetime64=_tok('datetime64', lambda v: False, lambda v, u=None: time_of(v)), timedelta64=HostFn(np_timedelta64, 'numpy.timedelta64'),
    random=LibMod('numpy.random', {'uniform': HostFn(np_uniform, 'numpy.random.uniform'),
                                   'seed': HostFn(lambda *a: None, 'numpy.random.seed')}),
    linalg=LibMod('numpy.linalg', {}),
    errstate=HostFn(lambda **k: None, 'numpy.errstate'), seterr=HostFn(lambda **k: None, 'numpy.seterr'),
)


class LinAlgError(ValueError):
    pass


NPMOD.attrs['linalg'].attrs['LinAlgError'] = LinAlgError
NPMOD.attrs['linalg'].attrs['norm'] = Opaque('norm')


# ------------------------------------------------------------ math

def m1(f):
    def g(x):
        x = force(x)
        if isinstance(x, SArr):
            from .builtins_m import scalar_of
            x = scalar_of(x)
        return f(x)
    return g


def math_ceil(x):
    x = force(x)
    if isinstance(x, (int, float)):
        return math.ceil(x)
    return to_int(f_ceil(sf(x)))


def math_floor(x):
    x = force(x)
    if isinstance(x, (int, float)):
        return math.floor(x)
    if truth(mkb(bnot(f_isfinite(sf(x)))), 'floor finite'):
        raise_py(ValueError, 'cannot convert float NaN to integer')
    return mki(f_floor(sf(x)))


def math_log(x, *b):
    x = force(x)
    if b:
        raise Unsupported('math.log base')
    if isinstance(x, (int, float)):
        if x != x or x == math.inf:
            return float(x)
        try:
            if x == 1:
                return 0.0
            if x <= 0:
                math.log(x)
        except ValueError as e:
            raise_py(ValueError, str(e))
        return f_log(SF(real_val(x), np=False), False)
    return f_log(x, False)


MATHMOD = LibMod('math', {
    'log': HostFn(math_log, 'math.log'), 'exp': HostFn(m1(f_exp), 'math.exp'), 'sqrt': HostFn(m1(f_sqrt), 'math.sqrt'),
    'ceil': HostFn(math_ceil, 'math.ceil'), 'floor': HostFn(math_floor, 'math.floor'), 'pi': SF(PI), 'inf': INF, 'nan': NAN,
    'isnan': HostFn(m1(lambda x: mkb(isnan(sf(x)))), 'math.isnan'), 'isinf': HostFn(m1(s_isinf), 'math.isinf'),
    'isfinite': HostFn(m1(lambda x: mkb(f_isfinite(x))), 'math.isfinite'),
    'fabs': HostFn(m1(lambda x: f_abs(sf(x))), 'math.fabs'), 'pow': HostFn(lambda a, b: f_pow(sf(a), b), 'math.pow'),
})
