"""Models of the Python builtins used by the code under verification."""
import z3
from .core import C, Unsupported, PyRaise
from .vals import *
from . import arrays
from .arrays import SArr, SMat, Space, Cell, s_ite, mark_mutation
from .interp import (HostFn, TypeTok, IClass, IObj, IFunc, Bound, SSet, IDict, SymSeq, SymRange, truth, eq, compare, call,
                     iterate, length, to_str, to_repr, force, getattr_, concretize, scalar_cmp, binop, _MISSING, setattr_)
import datetime as _dt


def b_len(o):
    return length(o)


def b_range(*a):
    a = [force(x) for x in a]
    a = [mki(zi(x)) if isinstance(x, (SB, SI)) else x for x in a]
    if any(isinstance(x, (SF, float)) for x in a):
        raise_py(TypeError, "'float' object cannot be interpreted as an integer")
    if any(isinstance(x, SI) for x in a):
        c = [concretize(x) for x in a]
        if None not in c:
            return range(*c)
        if len(a) == 3 and a[2] != 1:
            raise Unsupported('symbolic range step')
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        lo, hi = zi(lo), zi(hi)
        n = arrays.simp_i(arrays.iexpr(hi) - arrays.iexpr(lo))
        if z3.is_expr(n):
            n = z3.If(n < 0, z3.IntVal(0), n)
        return SymSeq(Space(n), lambda i: mki(arrays.simp_i(arrays.iexpr(lo) + i)))
    return range(*a)


def b_int(v=0, base=None):
    v = force(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError as e:
            raise_py(ValueError, str(e))
    if isinstance(v, SArr):
        v = scalar_of(v)
    if v is None:
        raise_py(TypeError, 'int() argument must be a number')
    return to_int(v)


def scalar_of(a):
    if beq(a.n, 1) is True or (z3.is_expr(a.n) and C().branch(a.n == 1, 'size-1 array')):
        return a.get(0)
    raise_py(TypeError, 'only length-1 arrays can be converted to Python scalars')


def b_float(v=0.0):
    v = force(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError as e:
            raise_py(ValueError, str(e))
    if isinstance(v, bool) or isinstance(v, int) or isinstance(v, float):
        return float(v)
    if isinstance(v, SArr):
        v = scalar_of(v)
    if v is None:
        raise_py(TypeError, 'float() argument must be a string or a number')
    x = sf(v)
    return SF(x.r, x.nan, x.inf, False)


def b_abs(v):
    v = force(v)
    if hasattr(v, 'sv_getattr') and not isinstance(v, SymSeq):
        return call(getattr_(v, 'abs'), [], {})
    if isinstance(v, SArr):
        return arrays.ew(f_abs, v.dtype, v)
    return f_abs(v)


def b_bool(v=False):
    return truth(v, 'bool()')


def b_str(v=''):
    return to_str(v)


def aslist(it):
    l = iterate(it)
    if l is None:
        raise Unsupported('iteration over a sequence of unknown length')
    return l


def b_list(it=()):
    l = iterate(it)
    if l is None:
        if isinstance(it, SymSeq):
            return it
        if isinstance(it, SArr):
            return SymSeq(it.space, it.get)
        raise Unsupported('list() of unknown length')
    return l


def b_tuple(it=()):
    return tuple(aslist(it))


def b_set(it=()):
    return SSet(aslist(it))


def b_dict(*a, **k):
    d = IDict()
    if a:
        x = a[0]
        if isinstance(x, IDict):
            d = x.copy()
        else:
            for kv in aslist(x):
                kk, v = kv
                d.put(force(kk), v)
    for kk, v in k.items():
        d.put(kk, v)
    return d


def order_pick(items, better):
    """Python's max/min over concrete list: keep the first best; symbolic comparison gives ite for numbers"""
    best = items[0]
    for x in items[1:]:
        c = better(x, best)
        if isinstance(c, bool):
            best = x if c else best
        elif is_num(x) and is_num(best) or type(x) is type(best):
            best = s_ite(zb(c), x, best)
        else:
            best = x if truth(c, 'max/min') else best
    return best


def b_max(*a, key=None, default=_MISSING):
    return _mm('>', a, key, default)


def b_min(*a, key=None, default=_MISSING):
    return _mm('<', a, key, default)


def _mm(op, a, key, default):
    if len(a) == 1:
        it = force(a[0])
        if hasattr(it, 'sv_arr'):
            it = it.sv_arr()
        if isinstance(it, SArr) and not isinstance(it.n, int):
            from . import lib_np
            if truth(mkb(beq(it.n, 0)), 'empty'):
                if default is not _MISSING:
                    return default
                raise_py(ValueError, 'max() arg is an empty sequence')
            return lib_np.extreme(it, op, 'py')
        l = iterate(it)
        if l is None and isinstance(it, SymSeq):
            from . import lib_np
            return lib_np.extreme(SArr(it.space, it.get, 'obj'), op, 'py')
    else:
        l = list(a)
    if not l:
        if default is not _MISSING:
            return default
        raise_py(ValueError, 'max() arg is an empty sequence')
    if key is None:
        return order_pick(l, lambda x, y: compare(op, x, y))
    ks = [call(key, [x], {}) for x in l]
    best = 0
    for i in range(1, len(l)):
        if truth(compare(op, ks[i], ks[best]), 'max key'):
            best = i
    return l[best]


def b_sum(it, start=0):
    it = force(it)
    if hasattr(it, 'sv_arr'):
        it = it.sv_arr()
    if isinstance(it, SArr) and not isinstance(it.n, int):
        from . import lib_np
        return binop('+', lib_np.np_sum(it), start)
    r = start
    for x in aslist(it):
        r = binop('+', r, x)
    return r


def b_any(it):
    it = force(it)
    if isinstance(it, (SArr, SymSeq)) and not isinstance(it.n, int):
        return mkb(arrays.exists(it.space, lambda i: rawb(it.get(i))))
    for x in aslist(it):
        if truth(x, 'any'):
            return True
    return False


def b_all(it):
    it = force(it)
    if isinstance(it, (SArr, SymSeq)) and not isinstance(it.n, int):
        return mkb(arrays.forall_b(it.space, lambda i: rawb(it.get(i))))
    for x in aslist(it):
        if not truth(x, 'all'):
            return False
    return True


def rawb(v):
    """truthiness of a scalar as raw bool without branching"""
    v = force(v)
    if isinstance(v, bool):
        return v
    if isinstance(v, SB):
        return v.z
    if isinstance(v, (int, float)):
        return bool(v)
    if isinstance(v, SI):
        return v.z != 0
    if isinstance(v, SF):
        return bor(v.nan, bnot(beq(v.inf, 0)), v.r != 0)
    return truth(v)


def isinst(v, c):
    v = force(v)
    if isinstance(c, tuple):
        return any(isinst(v, x) for x in c)
    if isinstance(c, SymSeq):
        raise Unsupported('isinstance')
    if isinstance(c, IClass):
        return isinstance(v, IObj) and v.cls.subclass_of(c)
    if isinstance(c, TypeTok):
        if c.check is None:
            raise Unsupported('isinstance(_, %s)' % c.name)
        return bool(c.check(v))
    if isinstance(c, HostFn) and c.name in _CHECK:
        return _CHECK[c.name](v)
    if isinstance(c, type) and issubclass(c, BaseException):
        return isinstance(v, IExc) and issubclass(v.cls, c)
    raise Unsupported('isinstance(_, %r)' % (c,))


_CHECK = {
    'int': lambda v: isinstance(v, (int, SI)) or is_bool(v),
    'float': lambda v: is_float(v),
    'str': is_str,
    'bool': is_bool,
    'list': lambda v: isinstance(v, (list, SymSeq)),
    'tuple': lambda v: isinstance(v, tuple),
    'dict': lambda v: isinstance(v, dict),
    'set': lambda v: isinstance(v, SSet),
}


def b_type(v):
    v = force(v)
    if isinstance(v, IObj):
        return v.cls
    raise Unsupported('type()')


def b_callable(v):
    v = force(v)
    if isinstance(v, (IFunc, Bound, HostFn, IClass, TypeTok)) or hasattr(v, 'sv_call'):
        return True
    if isinstance(v, IObj):
        return v.cls.lookup('__call__') is not None
    if isinstance(v, Opaque):
        raise Unsupported('callable(opaque)')
    return False


def b_id(v):
    keep = C().__dict__.setdefault('id_keep', [])
    keep.append(v)
    return id(v)


def b_hash(v):
    v = force(v)
    if isinstance(v, IObj) and v.cls.lookup('__hash__'):
        return call(v.cls.lookup('__hash__'), [v], {})
    if isinstance(v, (str, SS)):
        return SI(UF('hash_str', z3.StringSort(), I)(zs(v)))
    raise Unsupported('hash')


def sort_list(l, key=None, reverse=False):
    """stable insertion sort with symbolic comparisons (branches)"""
    ks = l if key is None else [call(key, [x], {}) for x in l]
    out = []
    for k, x in zip(ks, l):
        i = len(out)
        while i > 0:
            kk = out[i - 1][0]
            less = truth(compare('<', kk, k) if reverse else compare('<', k, kk), 'sort')
            if not less:
                break
            i -= 1
        out.insert(i, (k, x))
    return [x for k, x in out]


def b_sorted(it, key=None, reverse=False):
    return sort_list(aslist(it), key, reverse)


def b_zip(*its):
    return [tuple(t) for t in zip(*[aslist(i) for i in its])]


def b_enumerate(it, start=0):
    return [(i + start, x) for i, x in enumerate(aslist(it))]


def b_map(f, *its):
    return [call(f, list(t), {}) for t in zip(*[aslist(i) for i in its])]


def b_filter(f, it):
    return [x for x in aslist(it) if truth(call(f, [x], {}) if f is not None else x)]


def b_getattr(o, nm, *d):
    try:
        return getattr_(o, nm)
    except PyRaise as e:
        if d and e.exc.cls is AttributeError:
            return d[0]
        raise


def b_hasattr(o, nm):
    try:
        getattr_(o, nm)
        return True
    except PyRaise as e:
        if e.exc.cls is AttributeError:
            return False
        raise


def b_round(v, nd=None):
    v = force(v)
    if isinstance(v, (int, float)):
        return round(v, nd) if nd is not None else round(v)
    raise Unsupported('round of a symbolic value')


def b_reversed(it):
    return list(reversed(aslist(it)))


def b_repr(v):
    return to_repr(v)


def b_next(it, *d):
    l = aslist(it)
    if l:
        return l[0]
    if d:
        return d[0]
    raise_py(StopIteration)


BUILTINS = {k[2:]: HostFn(v, k[2:]) for k, v in list(globals().items()) if k.startswith('b_')}
BUILTINS.update(isinstance=HostFn(isinst, 'isinstance'), print=HostFn(lambda *a, **k: None, 'print'),
                setattr=HostFn(setattr_, 'setattr'), iter=HostFn(lambda x: aslist(x), 'iter'),
                NotImplemented=NotImplemented, object=TypeTok('object', check=lambda v: True),
                __name__='module', Ellipsis=Ellipsis)
