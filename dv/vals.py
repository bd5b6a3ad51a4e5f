"""Symbolic scalars and their operators.

Machine floats are modelled as mathematical reals plus NaN/inf flags (a stated assumption);
Python ints are mathematical integers; timestamps are integer nanoseconds plus a NaT flag.
Concrete values stay ordinary Python values wherever possible.
"""
from fractions import Fraction
import datetime as _dt
import math
import z3
from .core import C, Unsupported, PyRaise

DAY = 86400 * 10 ** 9
HOUR = 3600 * 10 ** 9


class SB:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return 'SB(%s)' % self.z


class SI:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return 'SI(%s)' % self.z


class SF:
    """float: real part, nan flag, infinity sign; `np` = numpy semantics for division by zero"""
    __slots__ = ('r', 'nan', 'inf', 'np')

    def __init__(self, r, nan=False, inf=0, np=True):
        self.r, self.nan, self.inf, self.np = r, nan, inf, np

    def __repr__(self):
        return 'SF(%s%s%s)' % (self.r, '' if self.nan is False else ' nan:%s' % self.nan,
                               '' if isinstance(self.inf, int) and self.inf == 0 else ' inf:%s' % self.inf)


class SS:
    """string"""
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return 'SS(%s)' % self.z


class ST:
    """Timestamp, ns since epoch"""
    __slots__ = ('z', 'nat')

    def __init__(self, z, nat=False):
        self.z, self.nat = z, nat

    def __repr__(self):
        return 'ST(%s)' % self.z


class SD:
    """Timedelta, ns"""
    __slots__ = ('z', 'nat')

    def __init__(self, z, nat=False):
        self.z, self.nat = z, nat

    def __repr__(self):
        return 'SD(%s)' % self.z


class Opaque:
    """A value about which nothing is known (identity only)."""

    def __init__(self, why, **attrs):
        self.why = why
        self.attrs = attrs

    def __repr__(self):
        return 'Opaque(%s)' % self.why


class Date:
    """datetime.date of a timestamp: floor to days"""
    __slots__ = ('d', 'nat')

    def __init__(self, d, nat=False):
        self.d, self.nat = d, nat


SCALARS = (SB, SI, SF, SS, ST, SD)
NUM = (bool, int, float, SB, SI, SF)


# ---------- booleans over python bool / z3
def zb(x):
    """to z3 Bool"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SB):
        return x.z
    if z3.is_expr(x):
        return x
    raise Unsupported('zb(%r)' % (x,))


def mkb(z):
    if isinstance(z, bool):
        return z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SB(z)


def band(*xs):
    out = []
    for x in xs:
        if isinstance(x, SB):
            x = x.z
        if x is True or (z3.is_expr(x) and z3.is_true(x)):
            continue
        if x is False or (z3.is_expr(x) and z3.is_false(x)):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, SB):
            x = x.z
        if x is False or (z3.is_expr(x) and z3.is_false(x)):
            continue
        if x is True or (z3.is_expr(x) and z3.is_true(x)):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bnot(x):
    if isinstance(x, SB):
        x = x.z
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def beq(a, b):
    """equality of python-or-z3 raw values (bool or int)"""
    if not z3.is_expr(a) and not z3.is_expr(b):
        return a == b
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return True
    return a == b


def ite(c, a, b):
    """raw if-then-else on python-or-z3 values"""
    if isinstance(c, SB):
        c = c.z
    if isinstance(c, bool):
        return a if c else b
    if not z3.is_expr(a) and not z3.is_expr(b) and type(a) == type(b) and a == b:
        return a
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return c if a else bnot(c)
        return z3.If(c, zb(a), zb(b))
    return z3.If(c, a if z3.is_expr(a) else lift_like(a, b), b if z3.is_expr(b) else lift_like(b, a))


def lift_like(v, like):
    if z3.is_expr(like):
        s = like.sort()
        if s == z3.RealSort():
            return real_val(v)
        if s == z3.IntSort():
            return z3.IntVal(v)
        if s == z3.BoolSort():
            return z3.BoolVal(v)
        if s == z3.StringSort():
            return z3.StringVal(v)
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    return real_val(v)


def real_val(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal('%d/%d' % (v.numerator, v.denominator))
    if isinstance(v, float):
        # decimal value of the literal (floats are read as reals)
        f = Fraction(repr(v))
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    raise Unsupported('real_val %r' % (v,))


PI = z3.Real('pi')


def is_float(v):
    return isinstance(v, (float, SF))


def is_int(v):
    return isinstance(v, (int, SI)) and not isinstance(v, bool)


def is_bool(v):
    return isinstance(v, (bool, SB))


def is_num(v):
    return isinstance(v, NUM)


def is_str(v):
    return isinstance(v, (str, SS))


def is_time(v):
    return isinstance(v, ST)


def zi(v):
    """to raw int (python int or z3 Int)"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, SI):
        return v.z
    if isinstance(v, SB):
        return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(v) and v.sort() == z3.IntSort():
        return v
    raise Unsupported('zi(%r)' % (v,))


def mki(z):
    if isinstance(z, int):
        return z
    if z3.is_int_value(z):
        return z.as_long()
    return SI(z)


def simp_i(z):
    if isinstance(z, int):
        return z
    z = z3.simplify(z)
    return z.as_long() if z3.is_int_value(z) else z


def sf(v):
    """to SF"""
    if isinstance(v, SF):
        return v
    if isinstance(v, bool):
        return SF(z3.RealVal(int(v)))
    if isinstance(v, int):
        return SF(z3.RealVal(v))
    if isinstance(v, float):
        if v != v:
            return SF(z3.RealVal(0), True, 0)
        if v in (math.inf, -math.inf):
            return SF(z3.RealVal(0), False, 1 if v > 0 else -1)
        return SF(real_val(v))
    if isinstance(v, SI):
        return SF(z3.ToReal(v.z))
    if isinstance(v, SB):
        return SF(z3.If(v.z, z3.RealVal(1), z3.RealVal(0)))
    raise Unsupported('sf(%r)' % (v,))


def mkf(x):
    """collapse to a Python float when exactly representable small constants"""
    return x


def rr(v):
    """raw z3 Real of a number known to be finite"""
    return sf(v).r


# ---------- float arithmetic
def fin(a):
    return isinstance(a.inf, int) and a.inf == 0


def f_neg(a):
    inf = -a.inf if isinstance(a.inf, int) else -a.inf
    return SF(-a.r, a.nan, inf, a.np)


def f_add(a, b):
    np_ = a.np or b.np
    if fin(a) and fin(b):
        return SF(zadd(a.r, b.r), bor(a.nan, b.nan), 0, np_)
    opp = band(bnot(beq(a.inf, 0)), bnot(beq(b.inf, 0)), bnot(beq(a.inf, b.inf)))
    return SF(zadd(a.r, b.r), bor(a.nan, b.nan, opp), ite(beq(a.inf, 0), b.inf, a.inf), np_)


def zadd(a, b):
    if z3.is_rational_value(a) and a.numerator_as_long() == 0:
        return b
    if z3.is_rational_value(b) and b.numerator_as_long() == 0:
        return a
    return a + b


def zmul(a, b):
    for x, y in ((a, b), (b, a)):
        if z3.is_rational_value(x):
            if x.numerator_as_long() == 0:
                return z3.RealVal(0)
            if x.numerator_as_long() == 1 and x.denominator_as_long() == 1:
                return y
    return a * b


def fsign(a):
    """raw sign of the extended real (python int or z3 Int)"""
    s = z3.If(a.r > 0, z3.IntVal(1), z3.If(a.r < 0, z3.IntVal(-1), z3.IntVal(0)))
    if fin(a):
        return z3.simplify(s) if z3.is_rational_value(a.r) else s
    return ite(beq(a.inf, 0), s, a.inf)


def _tosign(z):
    if isinstance(z, int):
        return z
    z = z3.simplify(z)
    return z.as_long() if z3.is_int_value(z) else z


def f_mul(a, b):
    np_ = a.np or b.np
    if fin(a) and fin(b):
        return SF(zmul(a.r, b.r), bor(a.nan, b.nan), 0, np_)
    sa, sb_ = _tosign(fsign(a)), _tosign(fsign(b))
    anyinf = bor(bnot(beq(a.inf, 0)), bnot(beq(b.inf, 0)))
    zero = bor(beq(sa, 0), beq(sb_, 0))
    if isinstance(sa, int) and isinstance(sb_, int):
        prod = sa * sb_
    else:
        prod = sa * sb_ if not isinstance(sa, int) else (0 if sa == 0 else (sb_ if sa == 1 else -sb_))
        if isinstance(sb_, int) and not isinstance(sa, int):
            prod = 0 if sb_ == 0 else (sa if sb_ == 1 else -sa)
        elif not isinstance(sa, int) and not isinstance(sb_, int):
            prod = z3.If(sa == 0, z3.IntVal(0), z3.If(sa == 1, sb_, -sb_))
    return SF(zmul(a.r, b.r), bor(a.nan, b.nan, band(anyinf, zero)), ite(anyinf, prod, 0), np_)


def f_div(a, b):
    np_ = a.np or b.np
    const = z3.is_rational_value(b.r) and b.r.numerator_as_long() != 0
    bz = False if (const and fin(b)) else band(b.r == 0, beq(b.inf, 0), bnot(b.nan))
    if bz is not False:
        s = z3.simplify(b.r == 0)
        if z3.is_false(s):
            bz = False
        else:       # counts of group members are positive by their contract
            q = b.r.arg(0) if z3.is_app_of(b.r, z3.Z3_OP_TO_REAL) else b.r
            if q.get_id() in C().__dict__.get('positive', {}):
                bz = False
    if bz is False and fin(a) and fin(b):
        if const and b.r.numerator_as_long() == 1 and b.r.denominator_as_long() == 1:
            return SF(a.r, bor(a.nan, b.nan), 0, np_)
        return SF(a.r / b.r, bor(a.nan, b.nan), 0, np_)
    if not np_:
        if C().branch(zb(bz), 'division by zero'):
            raise_py(ZeroDivisionError, 'float division by zero')
        bz = False
        if fin(a) and fin(b):
            return SF(a.r / b.r, bor(a.nan, b.nan), 0, np_)
    elif bz is not False and not C().cap_stack:
        # avoid the zero-denominator cases when they are impossible here
        r, _ = C().check(zb(bz), ms=1500)
        if r == z3.unsat:
            bz = False
            if fin(a) and fin(b):
                return SF(a.r / b.r, bor(a.nan, b.nan), 0, np_)
    sa, sb_ = fsign(a), fsign(b)
    az = band(a.r == 0, beq(a.inf, 0))
    nan = bor(a.nan, b.nan, band(bz, az), band(bnot(beq(a.inf, 0)), bnot(beq(b.inf, 0))))
    # x/0 -> inf with the sign of x (signed zeros are not modelled)
    inf = ite(bz, sa, ite(bnot(beq(a.inf, 0)), ite(zb(beq(sb_, -1)), -zi(a.inf) if not isinstance(a.inf, int) else -a.inf, a.inf), 0))
    r = z3.If(zb(bor(bz, bnot(beq(b.inf, 0)))), z3.RealVal(0), a.r / b.r)
    return SF(r, nan, inf, np_)


def f_lt(a, b):
    if fin(a) and fin(b):
        return band(bnot(a.nan), bnot(b.nan), a.r < b.r)
    cmp_ = bor(ilt(a.inf, b.inf), band(beq(a.inf, 0), beq(b.inf, 0), a.r < b.r))
    return band(bnot(a.nan), bnot(b.nan), cmp_)


def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return a < b


def f_le(a, b):
    if fin(a) and fin(b):
        return band(bnot(a.nan), bnot(b.nan), a.r <= b.r)
    cmp_ = bor(ilt(a.inf, b.inf), band(beq(a.inf, b.inf), bor(bnot(beq(a.inf, 0)), a.r <= b.r)))
    return band(bnot(a.nan), bnot(b.nan), cmp_)


def f_eq(a, b):
    if fin(a) and fin(b):
        e = True if a.r.eq(b.r) else a.r == b.r
        return band(bnot(a.nan), bnot(b.nan), e)
    return band(bnot(a.nan), bnot(b.nan), beq(a.inf, b.inf), bor(bnot(beq(a.inf, 0)), True if a.r.eq(b.r) else a.r == b.r))


def f_same(a, b):
    """equal including NaN == NaN (specification equality)"""
    a, b = sf(a), sf(b)
    return bor(band(a.nan, b.nan), f_eq(a, b))


def isnan(v):
    """raw bool: value is null (NaN / NaT / None)"""
    if v is None:
        return True
    if isinstance(v, float):
        return v != v
    if isinstance(v, SF):
        return v.nan
    if isinstance(v, (ST, SD)):
        return v.nat
    if isinstance(v, (bool, int, str, SB, SI, SS)):
        return False
    if isinstance(v, MaybeNull):
        return v.null
    if hasattr(v, 'sv_isnull'):
        return v.sv_isnull()
    return False


class MaybeNull:
    """An object-dtype cell (string, bool, ...) that may be missing."""
    __slots__ = ('v', 'null')

    def __init__(self, v, null):
        self.v, self.null = v, null

    def __repr__(self):
        return 'MaybeNull(%r,%s)' % (self.v, self.null)


def f_isfinite(v):
    v = sf(v)
    return band(bnot(v.nan), beq(v.inf, 0))


# ---------- exceptions raised by interpreted code
class IExc:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return '%s(%s)' % (self.cls.__name__, ', '.join(map(repr, self.args))[:200])


def raise_py(cls, *args):
    raise PyRaise(IExc(cls, args))


# ---------- functions
_uf = {}


def UF(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _uf:
        _uf[k] = z3.Function(name, *sorts)
    return _uf[k]


R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()


def f_exp(a):
    a = sf(a)
    if z3.is_rational_value(a.r) and a.r.numerator_as_long() == 0 and fin(a) and a.nan is False:
        return SF(z3.RealVal(1))
    e = UF('exp', R, R)(a.r)
    C().assume(e > 0)
    C().assume((e == 1) == (a.r == 0))
    C().assume((e > 1) == (a.r > 0))
    if fin(a):
        return SF(e, a.nan, 0, a.np)
    return SF(ite(beq(a.inf, -1), z3.RealVal(0), e), a.nan, ite(beq(a.inf, 1), 1, 0), a.np)


_log_terms = []


def f_log(a, np_=True):
    a = sf(a)
    if not np_:
        # math.log: domain error unless > 0
        if C().branch(zb(bor(a.nan, f_lt(SF(z3.RealVal(0)), a))), 'math.log domain'):
            pass
        else:
            raise_py(ValueError, 'math domain error')
    L = UF('log', R, R)
    l = L(a.r)
    ctx = C()
    terms = ctx.__dict__.setdefault('log_terms', [])
    if not any(t.eq(a.r) for t in terms):
        ctx.assume(z3.Implies(a.r == 1, l == 0))
        for t in terms:      # strict monotonicity on positive reals, and log(xy)=log x+log y for seen products
            ctx.assume(z3.Implies(z3.And(a.r > 0, t > 0), z3.And((a.r < t) == (l < L(t)), (a.r == t) == (l == L(t)))))
        terms.append(a.r)
        d = a.r
        if z3.is_div(d) or z3.is_mul(d) and d.num_args() == 2:
            x, y = d.arg(0), d.arg(1)
            lx, ly = f_log(SF(x)).r, f_log(SF(y)).r
            ctx.assume(z3.Implies(z3.And(x > 0, y > 0), l == (lx - ly if z3.is_div(d) else lx + ly)))
    if np_:
        return SF(l, bor(a.nan, f_lt(a, SF(z3.RealVal(0)))), ite(zb(band(a.r == 0, beq(a.inf, 0))), -1, ite(beq(a.inf, 1), 1, 0)))
    return SF(l, a.nan, ite(beq(a.inf, 1), 1, 0), False)


def f_pow(a, b):
    if not isinstance(a, (SF, SI, SB)) and not isinstance(b, (SF, SI, SB)):
        try:
            return a ** b
        except ZeroDivisionError:
            raise_py(ZeroDivisionError)
        except OverflowError:
            raise_py(OverflowError)
    if isinstance(b, (int, float)) and not isinstance(b, bool) and float(b).is_integer() and 0 <= b <= 4:
        n = int(b)
        r = sf(1.0) if is_float(a) or is_float(b) else 1
        for _ in range(n):
            r = num_mul(r, a)
        return r
    a_, b_ = sf(a), sf(b)
    if isinstance(b, float) and b == 0.5:
        return f_sqrt(a)
    p = UF('pow', R, R, R)(a_.r, b_.r)
    C().assume(z3.Implies(a_.r > 0, p > 0))
    C().assume(z3.Implies(b_.r == 0, p == 1))
    C().assume(z3.Implies(b_.r == 1, p == a_.r))
    C().assume(z3.Implies(a_.r == 1, p == 1))
    nanf = UF('pow_nan', R, R, B)(a_.r, b_.r)
    inff = UF('pow_inf', R, R, I)(a_.r, b_.r)
    C().assume(z3.Implies(a_.r > 0, z3.And(z3.Not(nanf), inff == 0)))
    C().assume(z3.And(inff >= -1, inff <= 1))
    if fin(a_) and fin(b_):
        return SF(p, bor(a_.nan, b_.nan, nanf), inff)
    raise Unsupported('power with infinities')


def f_sqrt(a):
    a = sf(a)
    s = UF('sqrt', R, R)(a.r)
    C().assume(z3.Implies(a.r >= 0, z3.And(s >= 0, s * s == a.r)))
    return SF(s, bor(a.nan, a.r < 0), a.inf)


def f_uf1(name):
    def g(a):
        a = sf(a)
        return SF(UF(name, R, R)(a.r), bor(a.nan, bnot(beq(a.inf, 0))), 0)
    return g


def f_abs(v):
    if not isinstance(v, (SF, SI, SB)):
        return abs(v)
    if isinstance(v, SI):
        return SI(z3.If(v.z >= 0, v.z, -v.z))
    v = sf(v)
    inf = v.inf if fin(v) else ite(beq(v.inf, 0), 0, 1)
    return SF(z3.If(v.r >= 0, v.r, -v.r), v.nan, inf, v.np)


def f_floor(v):
    """raw int of floor; v finite"""
    if isinstance(v, (int,)):
        return int(v)
    if isinstance(v, float):
        return math.floor(v)
    if isinstance(v, SI):
        return v.z
    v = sf(v)
    if z3.is_to_real(v.r):
        return v.r.arg(0)
    return z3.ToInt(v.r)


def to_int(v):
    """int(x): truncation"""
    if isinstance(v, (bool, int, float)):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            raise_py(type(e), str(e))
    if isinstance(v, (SI, SB)):
        return mki(zi(v))
    if isinstance(v, SF):
        bad = bor(v.nan, bnot(beq(v.inf, 0)))
        if bad is not False and C().branch(zb(bad), 'int() of nan/inf'):
            raise_py(ValueError, 'cannot convert float NaN to integer')
        if z3.is_to_real(v.r):
            return mki(v.r.arg(0))
        return SI(z3.If(v.r >= 0, z3.ToInt(v.r), -z3.ToInt(-v.r)))
    raise Unsupported('int(%r)' % (v,))


def f_ceil(v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return float(math.ceil(v)) if v == v and abs(v) != math.inf else v
    v = sf(v)
    if z3.is_to_real(v.r):
        return v
    c = -z3.ToInt(-v.r)
    if z3.is_div(v.r) and z3.is_to_real(v.r.arg(0)) and z3.is_to_real(v.r.arg(1)):
        # the quotient of two integers rounded up, without the division
        n, k = v.r.arg(0).arg(0), v.r.arg(1).arg(0)
        C().assume(z3.Implies(k > 0, z3.And(c * k >= n, (c - 1) * k < n)))
    return SF(z3.ToReal(c), v.nan, v.inf, v.np)


def f_floor_f(v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return float(math.floor(v))
    v = sf(v)
    return SF(z3.ToReal(z3.ToInt(v.r)), v.nan, v.inf, v.np)


def num_add(a, b):
    if not isinstance(a, (SF, SI, SB)) and not isinstance(b, (SF, SI, SB)):
        return a + b
    if is_float(a) or is_float(b):
        return f_add(sf(a), sf(b))
    return mki(zi(a) + zi(b))


def num_sub(a, b):
    if not isinstance(a, (SF, SI, SB)) and not isinstance(b, (SF, SI, SB)):
        return a - b
    if is_float(a) or is_float(b):
        return f_add(sf(a), f_neg(sf(b)))
    return mki(zi(a) - zi(b))


def num_mul(a, b):
    if not isinstance(a, (SF, SI, SB)) and not isinstance(b, (SF, SI, SB)):
        return a * b
    if is_float(a) or is_float(b):
        return f_mul(sf(a), sf(b))
    x, y = zi(a), zi(b)
    if isinstance(x, int) and x == 0 or isinstance(y, int) and y == 0:
        return 0
    return mki(x * y)


def num_div(a, b):
    if not isinstance(a, (SF, SI, SB)) and not isinstance(b, (SF, SI, SB)):
        try:
            return a / b
        except ZeroDivisionError as e:
            raise_py(ZeroDivisionError, str(e))
    x, y = sf(a), sf(b)
    if not is_float(a) and not is_float(b):
        x, y = SF(x.r, np=False), SF(y.r, np=False)
    elif isinstance(a, (int, float, SI)) or isinstance(b, (int, float, SI)):
        # Python numbers adopt the semantics of the other operand
        np_ = (isinstance(a, SF) and a.np) or (isinstance(b, SF) and b.np)
        x, y = SF(x.r, x.nan, x.inf, np_), SF(y.r, y.nan, y.inf, np_)
    return f_div(x, y)


def num_floordiv(a, b):
    if not isinstance(a, (SF, SI, SB)) and not isinstance(b, (SF, SI, SB)):
        try:
            return a // b
        except ZeroDivisionError as e:
            raise_py(ZeroDivisionError, str(e))
    if is_float(a) or is_float(b):
        return f_floor_f(num_div(a, b))
    x, y = zi(a), zi(b)
    if isinstance(y, int) and y > 0:
        return mki(x / y if z3.is_expr(x) else x // y)
    if C().branch(zb(beq(y, 0)), 'floor division by zero'):
        raise_py(ZeroDivisionError)
    xe = x if z3.is_expr(x) else z3.IntVal(x)
    return SI(z3.If(y > 0, xe / y, (-xe) / (-y)))


def num_mod(a, b):
    if not isinstance(a, (SF, SI, SB)) and not isinstance(b, (SF, SI, SB)):
        return a % b
    if is_float(a) or is_float(b):
        raise Unsupported('float modulo')
    x, y = zi(a), zi(b)
    if isinstance(y, int) and y > 0:
        return mki(x % y)
    raise Unsupported('symbolic modulo')


def num_neg(a):
    if isinstance(a, SF):
        return f_neg(a)
    if isinstance(a, (SI, SB)):
        return mki(-zi(a))
    return -a


def num_cmp(op, a, b):
    """raw bool"""
    if not isinstance(a, (SF, SI, SB)) and not isinstance(b, (SF, SI, SB)):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if is_float(a) or is_float(b):
        x, y = sf(a), sf(b)
        if op == '<':
            return f_lt(x, y)
        if op == '<=':
            return f_le(x, y)
        if op == '>':
            return f_lt(y, x)
        if op == '>=':
            return f_le(y, x)
        if op == '==':
            return f_eq(x, y)
        return bnot(f_eq(x, y))
    if is_bool(a) and is_bool(b) and op in ('==', '!='):
        e = beq(zb(a), zb(b))
        return e if op == '==' else bnot(e)
    x, y = zi(a), zi(b)
    if op == '==':
        return beq(x, y)
    if op == '!=':
        return bnot(beq(x, y))
    r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
    return r


# ---------- time
def time_of(v):
    """Convert a date-like into ST"""
    if isinstance(v, ST):
        return v
    if v is None:
        return ST(0, True)
    if isinstance(v, (_dt.datetime, _dt.date)):
        d = v if isinstance(v, _dt.datetime) else _dt.datetime(v.year, v.month, v.day)
        delta = d - _dt.datetime(1970, 1, 1)
        return ST((delta.days * 86400 + delta.seconds) * 10 ** 9 + delta.microseconds * 1000)
    if isinstance(v, str):
        try:
            d = _dt.datetime.fromisoformat(v)
        except ValueError:
            raise Unsupported('date string %r' % v)
        return time_of(d)
    if isinstance(v, Date):
        return ST(v.d * DAY if isinstance(v.d, int) else v.d * DAY, v.nat)
    raise Unsupported('time_of(%r)' % (v,))


def day_of(t):
    """raw int: days since epoch"""
    if isinstance(t.z, int):
        return t.z // DAY
    return idiv(t.z, DAY)


def idiv(z, n):
    if isinstance(z, int):
        return z // n
    # (k*n) div n, (k*n + c) div n
    if z3.is_mul(z) and z.num_args() == 2 and z3.is_int_value(z.arg(1)) and z.arg(1).as_long() == n:
        return z.arg(0)
    if z3.is_mul(z) and z.num_args() == 2 and z3.is_int_value(z.arg(0)) and z.arg(0).as_long() == n:
        return z.arg(1)
    return z / n


def weekday_raw(t):
    d = day_of(t)
    return (d + 3) % 7


_cal_done = 'cal_terms'


def cal(field, t):
    """month / day / year of a timestamp, raw int: functions of the day number with their range facts."""
    d = day_of(t)
    if isinstance(d, int):
        x = _dt.date(1970, 1, 1) + _dt.timedelta(days=d)
        return {'month': x.month, 'day': x.day, 'year': x.year}[field]
    f = UF('cal_' + field, I, I)(d)
    if field == 'month':
        C().assume(z3.And(f >= 1, f <= 12))
    if field == 'day':
        C().assume(z3.And(f >= 1, f <= 31))
    return f


def t_cmp(op, a, b):
    na, nb = a.nat, b.nat
    ok = band(bnot(na), bnot(nb))
    x, y = a.z, b.z
    if op == '==':
        return band(ok, beq(x, y))
    if op == '!=':
        return bor(bnot(ok), bnot(beq(x, y)))
    return band(ok, {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])


# ---------- strings
def zs(v):
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, SS):
        return v.z
    raise Unsupported('zs(%r)' % (v,))


def mks(z):
    if z3.is_string_value(z):
        return z.as_string()
    return SS(z)


def s_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    x, y = zs(a), zs(b)
    if x.eq(y):
        return True
    return x == y


def s_concat(parts):
    parts = [p for p in parts if not (isinstance(p, str) and p == '')]
    out = []
    for p in parts:
        if out and isinstance(p, str) and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return SS(z3.Concat(*[zs(p) for p in out]))


# ---------- reading values back from a model
def read(m, v):
    def ev(x):
        if z3.is_expr(x):
            return m.eval(x, model_completion=True)
        return x

    def num(x):
        x = ev(x)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return float(x.as_fraction())
        if z3.is_algebraic_value(x):
            return float(x.approx(10).as_fraction())
        return str(x)

    if isinstance(v, SB):
        return z3.is_true(ev(v.z))
    if isinstance(v, SI):
        return num(v.z)
    if isinstance(v, SF):
        if v.nan is True or (v.nan is not False and z3.is_true(ev(v.nan))):
            return 'nan'
        if not (isinstance(v.inf, int) and v.inf == 0):
            s = num(v.inf)
            if s:
                return 'inf' if s > 0 else '-inf'
        return num(v.r)
    if isinstance(v, SS):
        return str(ev(v.z))
    if isinstance(v, (ST, SD)):
        if v.nat is True or (v.nat is not False and z3.is_true(ev(v.nat))):
            return 'NaT'
        n = num(v.z)
        if isinstance(v, ST) and isinstance(n, int):
            try:
                return (_dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=n // 1000)).isoformat()
            except OverflowError:
                return n
        return n
    if isinstance(v, (list, tuple)):
        return [read(m, x) for x in v]
    from . import arrays
    if isinstance(v, arrays.SArr):
        n = v.n if isinstance(v.n, int) else num(v.n)
        if not isinstance(n, int):
            return str(n)
        return {'len': n, 'items': [read(m, v.peek(i)) for i in range(min(n, 12))]}
    return repr(v)[:200]
