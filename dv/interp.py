"""Interpreter of the real source text: evaluates functions of /repo symbolically.

The modules are parsed from /repo on every run; nothing is rewritten.  Calls to repository
functions without a contract are executed (inlined); calls to a function under contract use the
contract (see contracts.py); calls into libraries use the trusted models in lib_*.py.
"""
import ast
import builtins as _bi
import datetime as _dt
import math
import os
import z3
from .core import C, Ctx, using, Unsupported, PathEnd, PyRaise, explore
from .vals import *
from . import vals, arrays
from .arrays import SArr, SMat, Space, Cell, s_ite, ew, frozen, mark_mutation, cell_same

MAX_DEPTH = 60
MAX_CONC_ITER = 400


class Env:
    __slots__ = ('vars', 'parent', 'mod', 'locals', 'globs')

    def __init__(self, mod, parent=None, locals_=()):
        self.vars, self.parent, self.mod, self.locals, self.globs = {}, parent, mod, locals_, ()


class Module:
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.vars = {}
        self.failed = {}

    def __repr__(self):
        return '<module %s>' % self.name


class IFunc:
    def __init__(self, node, env, name, qual, defaults, kwdefaults):
        self.node, self.env, self.name, self.qual = node, env, name, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.attrs = {}

    def __repr__(self):
        return '<fn %s>' % self.qual


class IClass:
    def __init__(self, name, bases, ns, qual):
        self.name, self.bases, self.ns, self.qual = name, bases, ns, qual

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, IClass):
                out += [c for c in b.mro() if c not in out]
        return out

    def lookup(self, nm):
        for c in self.mro():
            if nm in c.ns:
                return c.ns[nm]
        return None

    def subclass_of(self, other):
        if self is other:
            return True
        for b in self.bases:
            if b is other:
                return True
            if isinstance(b, IClass) and b.subclass_of(other):
                return True
        return False

    def __repr__(self):
        return '<class %s>' % self.name


class IObj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return '<%s %s>' % (self.cls.name, self.attrs.get('name', ''))


class Bound:
    __slots__ = ('f', 'self')

    def __init__(self, f, self_):
        self.f, self.self = f, self_

    def __repr__(self):
        return '<bound %r>' % (self.f,)


class HostFn:
    """A library function model."""

    def __init__(self, fn, name):
        self.fn, self.name = fn, name

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __repr__(self):
        return '<lib %s>' % self.name


class TypeTok:
    """A library type usable in isinstance and as a constructor."""

    def __init__(self, name, ctor=None, attrs=None, check=None):
        self.name, self.ctor, self.attrs, self.check = name, ctor, attrs or {}, check

    def __repr__(self):
        return '<type %s>' % self.name


class LibMod:
    """A library module: attributes resolve to models; anything else is opaque."""

    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs

    def __repr__(self):
        return '<lib module %s>' % self.name


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class SSet:
    """Set whose elements may be symbolic; kept as a duplicate-free list in insertion order."""

    def __init__(self, items):
        self.items = []
        for x in items:
            self.add(x)

    def add(self, x):
        for y in self.items:
            if truth(eq(y, x), 'set membership'):
                return
        self.items.append(x)

    def listed(self):
        """list(set): the iteration order is arbitrary"""
        xs = list(self.items)
        if len(xs) <= 1:
            return xs
        if C().boot or getattr(C(), 'any_set_order', False) or all(isinstance(x, (str, int)) for x in xs) and len(xs) > 3:
            return xs
        out = []
        while len(xs) > 1 and len(out) < 2:
            k = C().choose(len(xs), 'set order')
            out.append(xs.pop(k))
        return out + xs


class IDict(dict):
    """dict that may also have symbolic string keys (kept in .sym)"""

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.sym = []

    def find(self, k):
        if not self.sym and hashable(k):
            return dict.get(self, k, _MISSING)
        if hashable(k) and dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        for kk, v in self.sym:
            if may_equal_key(kk, k) and truth(eq(kk, k), 'dict key'):
                return v
        if not hashable(k):
            for kk in dict.keys(self):
                if may_equal_key(kk, k) and truth(eq(kk, k), 'dict key'):
                    return dict.__getitem__(self, kk)
        return _MISSING

    def put(self, k, v):
        if hashable(k) and not self.sym:
            dict.__setitem__(self, k, v)
            return
        if hashable(k) and dict.__contains__(self, k):
            dict.__setitem__(self, k, v)
            return
        for n, (kk, _) in enumerate(self.sym):
            if may_equal_key(kk, k) and truth(eq(kk, k), 'dict key'):
                self.sym[n] = (kk, v)
                return
        if hashable(k):
            dict.__setitem__(self, k, v)
            return
        for kk in dict.keys(self):
            if may_equal_key(kk, k) and truth(eq(kk, k), 'dict key'):
                dict.__setitem__(self, kk, v)
                return
        self.sym.append((k, v))

    def allitems(self):
        return list(dict.items(self)) + list(self.sym)

    def copy(self):
        d = IDict(self)
        d.sym = list(self.sym)
        return d

    def size(self):
        return len(self) + len(self.sym)


_MISSING = object()


def may_equal_key(a, b):
    """whether dict keys of these kinds can be equal at all (decided by == then)"""
    def kind(x):
        if is_str(x):
            return 's'
        if isinstance(x, (bool, int, float, SI, SF, SB)):
            return 'n'
        if isinstance(x, (ST, Date)) or isinstance(x, (_dt.datetime, _dt.date)):
            return 't'
        if isinstance(x, SD):
            return 'd'
        if isinstance(x, tuple):
            return 'tuple'
        if isinstance(x, IObj) and not hashable(x):
            return 'obj'
        return 'o' if hashable(x) else '?'
    ka, kb = kind(a), kind(b)
    if '?' in (ka, kb) or ka == kb == 'tuple':
        raise Unsupported('dict key %r / %r' % (type(a), type(b)))
    return ka == kb


def hashable(k):
    if isinstance(k, (SS, SI, SF, SB, ST, SD)):
        return False
    if isinstance(k, tuple):
        return all(hashable(x) for x in k)
    if isinstance(k, (list, dict, SArr)):
        return False
    if isinstance(k, IObj) and k.cls.lookup('__eq__') is not None:
        return False                            # equality is decided by the code's own __eq__
    return True


# ------------------------------------------------------------------ scoping helpers
_scope_cache = {}


def assigned_names(node):
    """Names bound in a function body (not nested scopes)."""
    k = id(node)
    if k in _scope_cache:
        return _scope_cache[k]
    out, globs, nonl = set(), set(), set()
    a = node.args
    for x in a.args + a.posonlyargs + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda,)):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for c in ast.iter_child_nodes(n):
                walrus(c)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.Global):
            globs.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    def walrus(n):
        if isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
        for c in ast.iter_child_nodes(n):
            walrus(c)
    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body:
            visit(s)
    r = (frozenset(out - globs - nonl), frozenset(globs), frozenset(nonl), node)
    _scope_cache[k] = r
    return r


# ------------------------------------------------------------------ scalars: truth, equality, strings

def force(v):
    if isinstance(v, Cell):
        return v.force()
    if isinstance(v, MaybeNull):
        if C().branch(zb(v.null), 'missing cell'):
            return None if not is_str(v.v) else float('nan')
        return v.v
    return v


def truth(v, why=''):
    v = force(v)
    if v is None:
        return False
    if isinstance(v, bool):
        return v
    if isinstance(v, SB):
        return C().branch(v.z, why)
    if z3.is_expr(v):
        return C().branch(v, why)
    if isinstance(v, (int, float, str, bytes)):
        return bool(v)
    if isinstance(v, SI):
        return C().branch(v.z != 0, why)
    if isinstance(v, SF):
        return C().branch(zb(bor(v.nan, bnot(beq(v.inf, 0)), v.r != 0)), why)
    if isinstance(v, SS):
        return C().branch(v.z != z3.StringVal(''), why)
    if isinstance(v, IDict):
        return v.size() > 0
    if isinstance(v, (list, tuple, dict)):
        return len(v) > 0
    if isinstance(v, SSet):
        return len(v.items) > 0
    if hasattr(v, 'sv_truth'):
        return v.sv_truth()
    if isinstance(v, SArr):
        if v.kind == 'nd':
            if beq(v.n, 1) is True or (z3.is_expr(v.n) and C().branch(v.n == 1, 'size')):
                return truth(v.get(0), why)
            raise_py(ValueError, 'The truth value of an array with more than one element is ambiguous')
        raise_py(ValueError, 'The truth value of an index is ambiguous')
    if isinstance(v, IObj):
        m = v.cls.lookup('__bool__')
        if m:
            return truth(call(m, [v], {}))
        m = v.cls.lookup('__len__')
        if m:
            return truth(call(m, [v], {}))
        return True
    if isinstance(v, (ST, SD)):
        if isinstance(v, SD):
            return truth(mkb(bnot(beq(v.z, 0))))
        return True
    return True


def eq(a, b):
    """Python ==, returns python bool or SB (or an array)"""
    a, b = force(a), force(b)
    if a is b and not isinstance(a, (SF, float)) and not isinstance(a, SArr) and not hasattr(a, 'sv_cmp'):
        return True
    return compare('==', a, b)


def to_str(v):
    v = force(v)
    if isinstance(v, (str, SS)):
        return v
    if isinstance(v, IObj):
        for nm in ('__str__', '__repr__'):
            m = v.cls.lookup(nm)
            if m:
                return call(m, [v], {})
        return '<%s object>' % v.cls.name
    if isinstance(v, SI):
        return SS(UF('str_int', I, z3.StringSort())(v.z))
    if isinstance(v, SF):
        return SS(UF('str_float', R, B, I, z3.StringSort())(v.r, zb(v.nan), zi(v.inf) if z3.is_expr(v.inf) else z3.IntVal(v.inf)))
    if isinstance(v, SB):
        return SS(z3.If(v.z, z3.StringVal('True'), z3.StringVal('False')))
    if isinstance(v, ST):
        z = v.z if z3.is_expr(v.z) else z3.IntVal(v.z)
        return SS(UF('str_time', I, B, z3.StringSort())(z, zb(v.nat)))
    if isinstance(v, Date):
        z = v.d if z3.is_expr(v.d) else z3.IntVal(v.d)
        return SS(UF('str_date', I, B, z3.StringSort())(z, zb(v.nat)))
    if isinstance(v, SD):
        z = v.z if z3.is_expr(v.z) else z3.IntVal(v.z)
        return SS(UF('str_td', I, z3.StringSort())(z))
    if isinstance(v, (int, float, bool, type(None))):
        return str(v)
    if isinstance(v, (list, tuple)):
        parts = ['[' if isinstance(v, list) else '(']
        for k, x in enumerate(v):
            if k:
                parts.append(', ')
            parts.append(to_repr(x))
        parts.append(']' if isinstance(v, list) else ')')
        return s_concat(parts)
    if isinstance(v, (_dt.datetime, _dt.date)):
        return str(v)
    # arbitrary object: an unknown string (fresh; the same object gives the same string)
    tab = C().__dict__.setdefault('str_objs', {})
    if id(v) not in tab:
        tab[id(v)] = (SS(C().fresh(z3.StringSort(), 'strobj')), v)
    return tab[id(v)][0]


def to_repr(v):
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, SS):
        return s_concat(["'", v, "'"])
    if isinstance(v, IObj) and v.cls.lookup('__repr__'):
        return call(v.cls.lookup('__repr__'), [v], {})
    return to_str(v)


def s_format(fmt, args, kwargs):
    import string
    if not isinstance(fmt, str):
        return SS(C().fresh(z3.StringSort(), 'fmt'))
    parts = []
    auto = 0
    for lit, fld, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if fld is None:
            continue
        if fld == '':
            v = args[auto] if auto < len(args) else raise_py(IndexError, 'Replacement index out of range')
            auto += 1
        elif fld.isdigit():
            v = args[int(fld)]
        else:
            import re
            m = re.match(r'^(\w+)(.*)$', fld)
            if m.group(1) not in kwargs:
                raise_py(KeyError, fld)
            v = kwargs[m.group(1)]
            if m.group(2):
                raise Unsupported('format field %s' % fld)
        if spec:
            if isinstance(v, (int, float, str)):
                parts.append(format(v, spec))
            else:
                parts.append(SS(C().fresh(z3.StringSort(), 'fmtspec')))
        else:
            parts.append(to_repr(v) if conv == 'r' else to_str(v))
    return s_concat(parts)


# ------------------------------------------------------------------ binary operators

_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
        ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>'}
_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
_DUNDER = {'+': ('__add__', '__radd__'), '*': ('__mul__', '__rmul__'), '-': ('__sub__', '__rsub__'),
           '/': ('__truediv__', '__rtruediv__')}
_CDUNDER = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__'}
_REFL = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


def scalar_binop(op, a, b):
    """Operators on scalars (also used elementwise)."""
    a, b = force(a), force(b)
    if is_num(a) and is_num(b):
        if op == '+':
            if is_bool(a) and is_bool(b) and (isinstance(a, SB) or isinstance(b, SB)):
                return mki(zi(a) + zi(b))
            return num_add(a, b)
        if op == '-':
            return num_sub(a, b)
        if op == '*':
            return num_mul(a, b)
        if op == '/':
            return num_div(a, b)
        if op == '//':
            return num_floordiv(a, b)
        if op == '%':
            return num_mod(a, b)
        if op == '**':
            return f_pow(a, b)
        if op in '&|^':
            if is_bool(a) and is_bool(b):
                x, y = (a.z if isinstance(a, SB) else a), (b.z if isinstance(b, SB) else b)
                if op == '&':
                    return mkb(band(x, y))
                if op == '|':
                    return mkb(bor(x, y))
                return mkb(bnot(beq(x, y)))
            if is_int(a) and is_bool(b) or is_bool(a) and is_int(b):
                # int & bool: used on 0/1 flags
                if op == '&':
                    x = mkb(bnot(beq(mod2(a), 0)))
                    y = mkb(bnot(beq(mod2(b), 0)))
                    return mki(zi(mkb(band(x, y))))
            if isinstance(a, int) and isinstance(b, int):
                return {'&': a & b, '|': a | b, '^': a ^ b}[op]
            raise Unsupported('bit operation on numbers')
    if isinstance(a, (ST, SD)) or isinstance(b, (ST, SD)):
        r = time_binop(op, a, b)
        if r is not None:
            return r
    if is_str(a) and is_str(b) and op == '+':
        return s_concat([a, b])
    if isinstance(a, str) and op == '*' and isinstance(b, int):
        return a * b
    if isinstance(a, str) and op == '%':
        return SS(C().fresh(z3.StringSort(), 'pct'))
    if a is None or b is None:
        raise_py(TypeError, 'unsupported operand type(s) for %s' % op)
    if hasattr(a, 'sv_binop'):
        r = a.sv_binop(op, b, False)
        if r is not NotImplemented:
            return r
    if hasattr(b, 'sv_binop'):
        r = b.sv_binop(op, a, True)
        if r is not NotImplemented:
            return r
    if is_str(a) != is_str(b) and (is_str(a) or is_num(a)) and (is_str(b) or is_num(b)):
        raise_py(TypeError, 'unsupported operand types for %s' % op)
    raise Unsupported('%s on %r and %r' % (op, type(a), type(b)))


def mod2(v):
    z = zi(v)
    return z % 2 if z3.is_expr(z) else z % 2


def time_binop(op, a, b):
    if isinstance(a, (_dt.datetime,)):
        a = time_of(a)
    if isinstance(b, (_dt.datetime,)):
        b = time_of(b)
    if isinstance(a, ST) and isinstance(b, ST) and op == '-':
        return SD(a.z - b.z, bor(a.nat, b.nat))
    if isinstance(a, ST) and isinstance(b, SD) and op in '+-':
        return ST(a.z + b.z if op == '+' else a.z - b.z, bor(a.nat, b.nat))
    if isinstance(a, SD) and isinstance(b, ST) and op == '+':
        return ST(a.z + b.z, bor(a.nat, b.nat))
    if isinstance(a, SD) and isinstance(b, SD):
        if op == '+':
            return SD(a.z + b.z, bor(a.nat, b.nat))
        if op == '-':
            return SD(a.z - b.z, bor(a.nat, b.nat))
        if op == '/':
            return f_div(sf(mki(a.z)), sf(mki(b.z)))
    if isinstance(a, SD) and is_int(b) and op == '*':
        return SD(a.z * zi(b), a.nat)
    if isinstance(b, SD) and is_int(a) and op == '*':
        return SD(b.z * zi(a), b.nat)
    if hasattr(b, 'sv_offset') and isinstance(a, ST):
        return b.sv_offset(a, op)
    if hasattr(a, 'sv_offset') and isinstance(b, ST):
        return a.sv_offset(b, op)
    if a is None or b is None:
        raise_py(TypeError, 'unsupported operand type(s)')
    return None


def merged_choice(n, env):
    """A if c else B for two arrays held in variables: one array, without a case distinction"""
    try:
        a, b = force(lookup(n.body.id, env)), force(lookup(n.orelse.id, env))
    except (PyRaise, Unsupported):
        return None
    if not (isinstance(a, SArr) and isinstance(b, SArr)) or a.dtype != b.dtype or a.dtype not in ('float', 'int') or a.kind != 'nd' or b.kind != 'nd':
        return None
    v = force(ev(n.test, env))
    c = v.z if isinstance(v, SB) else (v.z != 0) if isinstance(v, SI) else truth(v, 'ifexp')
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(zb(c))
    if z3.is_true(c) or z3.is_false(c):
        return a if z3.is_true(c) else b
    sp = arrays.Space(z3.If(c, arrays.iexpr(a.n), arrays.iexpr(b.n)), 'choice')
    ga, gb = frozen(a), frozen(b)

    def link(i, h):
        a.space.touch(i, h)
        b.space.touch(i, h)
    sp.add_link(link)
    return SArr(sp, lambda i: arrays.s_ite(c, ga(i), gb(i)), a.dtype)


def binop(op, a, b):
    a, b = force(a), force(b)
    for x, y, refl in ((a, b, False), (b, a, True)):
        if hasattr(x, 'sv_arrop'):
            r = x.sv_arrop(op, y, refl)
            if r is not NotImplemented:
                return r
    if isinstance(a, (SArr, SMat)) or isinstance(b, (SArr, SMat)):
        return arr_binop(op, a, b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if op == '+':
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            raise_py(TypeError, 'can only concatenate list')
        if op == '*':
            l, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
            if isinstance(n, bool) or isinstance(n, int):
                return l * n
            if isinstance(n, SI):
                k = concretize(n)
                if k is not None:
                    return l * k
                if len(l) == 1:
                    return SymSeq.const(l[0], n.z)
            raise Unsupported('list * symbolic')
        x, y = (a, b) if isinstance(a, (list, tuple)) else (b, a)
        if isinstance(y, SF) and y.np:      # a numpy number: the list becomes an array
            x = SArr.of([force(v) for v in x], 'float')
            return arr_binop(op, x, y) if isinstance(a, (list, tuple)) else arr_binop(op, y, x)
        raise_py(TypeError, 'bad operand for list')
    if isinstance(a, IObj) or isinstance(b, IObj):
        d = _DUNDER.get(op)
        if d:
            if isinstance(a, IObj):
                m = a.cls.lookup(d[0])
                if m:
                    r = call(m, [a, b], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(b, IObj):
                m = b.cls.lookup(d[1])
                if m:
                    r = call(m, [b, a], {})
                    if r is not NotImplemented:
                        return r
        raise_py(TypeError, 'unsupported operand type(s) for %s' % op)
    if isinstance(a, SSet) and isinstance(b, SSet):
        if op == '|':
            return SSet(a.items + b.items)
        raise Unsupported('set operator')
    return scalar_binop(op, a, b)


def concretize(n):
    """python int if the symbolic int has a single value on this path"""
    if isinstance(n, int):
        return n
    z = n.z if isinstance(n, SI) else n
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    if C().cap_stack:
        return None
    r, m = C().check()
    if m is None:
        return None
    v = m.eval(z, model_completion=True)
    if not z3.is_int_value(v):
        return None
    r2, _ = C().check(z != v)
    if r2 == z3.unsat:
        return v.as_long()
    return None


def scalar_dtype(v):
    return arrays.dtype_of_items([v])


def as_arr(v):
    """list/tuple → array when used with an array operand"""
    if isinstance(v, (list, tuple)):
        return SArr.of([force(x) for x in v])
    if isinstance(v, SymSeq):
        return v.to_arr()
    return v


def arr_binop(op, a, b):
    if isinstance(a, SMat) or isinstance(b, SMat):
        return mat_binop(op, a, b)
    a, b = as_arr(a), as_arr(b)
    kinds = [x.kind for x in (a, b) if isinstance(x, SArr)]
    da = a.dtype if isinstance(a, SArr) else scalar_dtype(a) if not isinstance(a, _dt.datetime) else 'time'
    db = b.dtype if isinstance(b, SArr) else scalar_dtype(b) if not isinstance(b, _dt.datetime) else 'time'
    if isinstance(a, _dt.datetime):
        a = time_of(a)
    if isinstance(b, _dt.datetime):
        b = time_of(b)
    if da in ('time', 'td') or db in ('time', 'td'):
        if op == '-' and da == 'time' and db == 'time':
            dt = 'td'
        elif op in '+-' and 'time' in (da, db):
            dt = 'time'
        elif op == '/' and da == db == 'td':
            dt = 'float'
        else:
            dt = 'td'
    elif da in ('float', 'int', 'bool') and db in ('float', 'int', 'bool'):
        if op in '&|^' and 'float' in (da, db):
            raise_py(TypeError, 'ufunc bitwise not supported for float')
        if op == '-' and da == 'bool' and db == 'bool':
            raise_py(TypeError, 'numpy boolean subtract')
        dt = arrays.arith_dtype(op, da, db)
        if op == '**':
            dt = 'float' if 'float' in (da, db) else 'int'
    elif da == 'str' or db == 'str':
        dt = 'str'
    else:
        dt = 'obj'

    def f(x, y):
        r = scalar_binop(op, x, y)
        if dt == 'bool' and not is_bool(r):
            return mkb(bnot(num_cmp('==', r, 0)))
        return r
    if op == '/' and dt == 'float':
        def f(x, y):
            if is_num(x) and is_num(y):
                x, y = sf(x), sf(y)
                return f_div(SF(x.r, x.nan, x.inf, True), SF(y.r, y.nan, y.inf, True))
            return scalar_binop(op, x, y)
    if dt == 'bool' and op == '+':
        def f(x, y):
            return mkb(bor(x if isinstance(x, bool) else x.z, y if isinstance(y, bool) else y.z))
    if dt == 'bool' and op == '*':
        def f(x, y):
            return mkb(band(x if isinstance(x, bool) else x.z, y if isinstance(y, bool) else y.z))
    r = ew(f, dt, a, b)
    r.kind = 'index' if 'index' in kinds or 'dtindex' in kinds else 'nd'
    if r.kind == 'index' and dt == 'time':
        r.kind = 'dtindex'
    return r


def mat_binop(op, a, b):
    m = a if isinstance(a, SMat) else b
    def acc(x):
        if isinstance(x, SMat):
            for p, q in ((x.n0, m.n0), (x.n1, m.n1)):
                pass
            b0 = beq(x.n0, 1) is True
            b1 = beq(x.n1, 1) is True
            return (lambda i, j: x.get(0 if b0 else i, 0 if b1 else j)), x.n0, x.n1
        if isinstance(x, (list, tuple)):
            x = as_arr(x)
        if isinstance(x, SArr):
            return (lambda i, j, g=frozen(x): g(j)), 1, x.n
        return (lambda i, j: x), 1, 1
    fa, a0, a1 = acc(a)
    fb, b0, b1 = acc(b)

    def dim(p, q):
        if beq(p, q) is True:
            return p
        if beq(p, 1) is True:
            return q
        if beq(q, 1) is True:
            return p
        if C().branch(zb(beq(p, q)), 'matrix shapes'):
            return p
        raise_py(ValueError, 'operands could not be broadcast together')
    n0, n1 = dim(a0, b0), dim(a1, b1)
    return SMat(n0, n1, lambda i, j: scalar_binop(op, fa(i, j), fb(i, j)), 'float')


def scalar_cmp(op, a, b):
    """raw bool for scalars"""
    a, b = force(a), force(b)
    if is_num(a) and is_num(b):
        return num_cmp(op, a, b)
    if is_str(a) and is_str(b):
        if op == '==':
            return s_eq(a, b)
        if op == '!=':
            return bnot(s_eq(a, b))
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        x, y = zs(a), zs(b)
        if not z3.is_string_value(x) and not z3.is_string_value(y):
            x, y = text_order(x, y)
        if op in ('<', '<='):
            return (x < y) if op == '<' else (x <= y)
        return (y < x) if op == '>' else (y <= x)
    if isinstance(a, (ST, _dt.datetime)) and isinstance(b, (ST, _dt.datetime, str)) or \
            isinstance(b, ST) and isinstance(a, (str, _dt.datetime)):
        return t_cmp(op, time_of(a), time_of(b))
    if isinstance(a, SD) and isinstance(b, SD):
        return t_cmp(op, a, b)
    if isinstance(a, Date) and isinstance(b, Date):
        return t_cmp(op, ST(a.d, a.nat), ST(b.d, b.nat))
    if hasattr(a, 'sv_cmp'):
        return a.sv_cmp(op, b)
    if hasattr(b, 'sv_cmp'):
        return b.sv_cmp(_REFL[op], a)
    if op in ('==', '!='):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return op == '=='
            raise Unsupported('== on opaque values')
        e = a is b
        if not e and isinstance(a, (list, tuple)) and type(a) is type(b):
            if len(a) != len(b):
                e = False
            else:
                e = band(*[zb(x) if isinstance(x, SB) else x for x in [eq(p, q) for p, q in zip(a, b)]])
        if not e and isinstance(a, dict) and isinstance(b, dict):
            raise Unsupported('dict equality')
        if op == '==':
            return e
        return bnot(e)
    if a is None or b is None or is_str(a) or is_str(b):
        raise_py(TypeError, "'%s' not supported between these types" % op)
    raise Unsupported('compare %s %r %r' % (op, type(a), type(b)))


def compare(op, a, b):
    a, b = force(a), force(b)
    for x, y, o in ((a, b, op), (b, a, _REFL[op])):
        if hasattr(x, 'sv_arrcmp'):
            r = x.sv_arrcmp(o, y)
            if r is not NotImplemented:
                return r
    if isinstance(a, SMat) or isinstance(b, SMat):
        raise Unsupported('matrix comparison')
    if isinstance(a, SArr) or isinstance(b, SArr):
        if isinstance(a, str) and b.dtype == 'time':
            a = time_of(a)
        if isinstance(b, str) and a.dtype == 'time':
            b = time_of(b)
        a, b = as_arr(a), as_arr(b)
        if a is None or b is None:
            sp = (a if a is not None else b)
            return SArr(sp.space, lambda i: op == '!=', 'bool')
        return ew(lambda x, y: mkb(scalar_cmp(op, x, y)), 'bool', a, b)
    if isinstance(a, IObj) or isinstance(b, IObj):
        for x, y, o in ((a, b, op), (b, a, _REFL[op])):
            if isinstance(x, IObj):
                m = x.cls.lookup(_CDUNDER[o])
                if m:
                    r = call(m, [x, y], {})
                    if r is not NotImplemented:
                        return r
        if op == '==':
            return a is b
        if op == '!=':
            if isinstance(a, IObj) and a.cls.lookup('__eq__'):
                r = call(a.cls.lookup('__eq__'), [a, b], {})
                if r is not NotImplemented:
                    return mkb(bnot(r if isinstance(r, bool) else zb(r)))
            return a is not b
        raise_py(TypeError, 'not comparable')
    return mkb(scalar_cmp(op, a, b))


def contains(item, cont):
    cont = force(cont)
    item = force(item)
    if isinstance(cont, IDict):
        return cont.find(item) is not _MISSING
    if isinstance(cont, dict):
        return item in cont
    if isinstance(cont, (list, tuple)):
        for x in cont:
            if truth(eq(x, item), 'in list'):
                return True
        return False
    if isinstance(cont, SSet):
        return contains(item, cont.items)
    if isinstance(cont, str) and isinstance(item, str):
        return item in cont
    if is_str(cont) and is_str(item):
        return truth(SB(z3.Contains(zs(cont), zs(item))))
    if hasattr(cont, 'sv_contains'):
        return cont.sv_contains(item)
    if isinstance(cont, SArr):
        if cont.concrete():
            return contains(item, cont.tolist())
        return truth(mkb(arrays.exists(cont.space, lambda i: zraw(eq(cont.get(i), item)))))
    raise Unsupported('in %r' % type(cont))


def zraw(v):
    return v.z if isinstance(v, SB) else v


# ------------------------------------------------------------------ symbolic sequences (lists of unknown length)

class SymSeq:
    """A Python list of unknown length: element i is fn(i)."""

    def __init__(self, space, fn):
        self.space, self.fn = space, fn
        self._memo = {}
        self.uid = next(arrays._sid)

    @property
    def n(self):
        return self.space.n

    def get(self, i):
        if isinstance(i, SI):
            i = zi(i)
        fr = arrays.frame().setdefault(('m', self.uid, 0), {})
        k = arrays.key_of(i)
        if k not in fr:
            self.space.touch(i)
            fr[k] = (self.fn(i), i)
        return fr[k][0]

    @staticmethod
    def const(v, n):
        return SymSeq(Space(n), lambda i: v)

    def to_arr(self):
        return SArr(self.space, self.get, 'float' if True else None)

    def sv_truth(self):
        return C().branch(zb(self.n > 0 if z3.is_expr(self.n) else self.n > 0), 'list truth')

    def sv_len(self):
        return mki(self.n)

    def sv_binop(self, op, other, refl):
        return NotImplemented

    def sv_arrop(self, op, other, refl):
        if op == '+' and isinstance(other, (SymSeq, list)):
            o = other if isinstance(other, SymSeq) else SymSeq(Space(len(other)), lambda i: arrays.pick(other, i))
            a, b = (o, self) if refl else (self, o)
            return seq_concat([a, b])
        return NotImplemented

    def sv_getattr(self, nm):
        if nm == 'sort':
            def sort(key=None, reverse=False):
                raise Unsupported('sort of a symbolic list')
            return HostFn(sort, 'list.sort')
        raise Unsupported('list.%s on a symbolic list' % nm)


def seq_concat(parts):
    sp = arrays.concat_space([p.space for p in parts])

    def fn(i):
        v = None
        for c, k, li in reversed(sp.which(i)):
            x = parts[k].get(li)
            v = x if v is None else s_ite(c, x, v)
        return v
    return SymSeq(sp, fn)


# ------------------------------------------------------------------ calls

class Contracts:
    """qualname -> handler(args(dict of bound arguments)) used instead of the body."""
    table = {}
    disabled = set()


_stack = []


def bind(fn, args, kwargs):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    vars_ = {}
    args = list(args)
    kw = IDict()
    for k, v in (kwargs.allitems() if isinstance(kwargs, IDict) else kwargs.items()):
        kw.put(k, v)
    if len(args) > len(names) and not a.vararg:
        raise_py(TypeError, '%s() takes %d positional arguments but %d were given' % (fn.name, len(names), len(args)))
    for n, v in zip(names, args):
        vars_[n] = v
    if a.vararg:
        vars_[a.vararg.arg] = tuple(args[len(names):])
    nd = len(fn.defaults)
    for i, n in enumerate(names):
        if n in kw:
            if n in vars_:
                raise_py(TypeError, '%s() got multiple values for argument %r' % (fn.name, n))
            vars_[n] = dict.pop(kw, n)
        elif n not in vars_:
            j = i - (len(names) - nd)
            if j >= 0:
                vars_[n] = fn.defaults[j]
            else:
                raise_py(TypeError, '%s() missing required argument %r' % (fn.name, n))
    for x, d in zip(a.kwonlyargs, fn.kwdefaults):
        if x.arg in kw:
            vars_[x.arg] = dict.pop(kw, x.arg)
        elif d is not _MISSING:
            vars_[x.arg] = d
        else:
            raise_py(TypeError, '%s() missing keyword-only argument %r' % (fn.name, x.arg))
    if a.kwarg:
        vars_[a.kwarg.arg] = kw
    elif kw.size():
        raise_py(TypeError, '%s() got an unexpected keyword argument %r' % (fn.name, kw.allitems()[0][0]))
    return vars_


def call(f, args, kwargs=None):
    kwargs = {} if kwargs is None else kwargs
    f = force(f)
    if isinstance(f, Bound):
        return call(f.f, [f.self] + list(args), kwargs)
    if isinstance(f, IFunc):
        return call_ifunc(f, args, kwargs)
    if isinstance(f, HostFn):
        C().trusted.add(f.name)
        if isinstance(kwargs, IDict) and kwargs.sym:
            raise Unsupported('symbolic keyword into a library call')
        try:
            return f.fn(*args, **dict(kwargs))
        except TypeError as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            raise Unsupported('library call %s: %s @%s' % (f.name, e, tb[-1]))
    if isinstance(f, IClass):
        return instantiate(f, args, kwargs)
    if isinstance(f, TypeTok):
        if f.ctor is None:
            raise Unsupported('constructor %s' % f.name)
        C().trusted.add(f.name)
        return f.ctor(*args, **dict(kwargs))
    if isinstance(f, IObj):
        m = f.cls.lookup('__call__')
        if m:
            return call(m, [f] + list(args), kwargs)
        raise_py(TypeError, 'object is not callable')
    if isinstance(f, type) and issubclass(f, BaseException):
        return IExc(f, tuple(args))
    if hasattr(f, 'sv_call'):
        return f.sv_call(args, kwargs)
    if isinstance(f, Opaque):
        raise Unsupported('call of %r' % f)
    if callable(f) and getattr(f, '_builtin_model', False):
        return f(*args, **kwargs)
    if f is None or is_num(f) or is_str(f) or isinstance(f, (list, tuple, dict, SArr)):
        raise_py(TypeError, 'object is not callable')
    raise Unsupported('call of %r' % (f,))


def call_ifunc(f, args, kwargs):
    h = Contracts.table.get(f.qual)
    if h is not None and f.qual not in Contracts.disabled and not C().boot:
        b = bind(f, args, kwargs)
        C().contracts_used.add(f.qual)
        r = h(f, b)
        if r is not NotImplemented:
            return r
    vars_ = bind(f, args, kwargs)
    return run_body(f, vars_)


def run_body(f, vars_):
    ctx = C()
    ctx.functions.add(f.qual)
    loc, globs, nonl, _ = assigned_names(f.node)
    env = Env(f.env.mod, f.env, loc)
    env.globs = globs
    env.vars.update(vars_)
    if ctx.depth > MAX_DEPTH:
        raise Unsupported('recursion too deep')
    ctx.depth += 1
    try:
        if isinstance(f.node, ast.Lambda):
            return ev(f.node.body, env)
        if is_generator(f.node):
            out = []
            env.vars['__yield__'] = out
            try:
                exec_block(f.node.body, env)
            except _Ret:
                pass
            return out
        try:
            exec_block(f.node.body, env)
        except _Ret as r:
            return r.v
        return None
    finally:
        ctx.depth -= 1


_gen_cache = {}


def is_generator(node):
    k = id(node)
    if k not in _gen_cache:
        found = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            todo += list(ast.iter_child_nodes(n))
        _gen_cache[k] = (found, node)
    return _gen_cache[k][0]


def instantiate(cls, args, kwargs):
    o = IObj(cls)
    o.scope_depth = len(C().scope)
    init = cls.lookup('__init__')
    if init is not None:
        o.frozen = False
        call(init, [o] + list(args), kwargs)
        o.frozen = True
    else:
        for b in cls.mro():
            for base in b.bases:
                if hasattr(base, 'sv_init'):
                    base.sv_init(o, args, kwargs)
                    return o
        if args or kwargs:
            raise_py(TypeError, '%s() takes no arguments' % cls.name)
    return o


# ------------------------------------------------------------------ attributes and items

def getattr_(o, nm):
    o = force(o)
    if isinstance(o, IObj):
        if nm in o.attrs:
            return o.attrs[nm]
        m = o.cls.lookup(nm)
        if m is not None:
            if isinstance(m, IFunc):
                if m.attrs.get('staticmethod'):
                    return m
                if m.attrs.get('property'):
                    return call(m, [o], {})
                if m.attrs.get('classmethod'):
                    return Bound(m, o.cls)
                return Bound(m, o)
            return m
        if nm == '__class__':
            return o.cls
        for c in o.cls.mro():
            for b in c.bases:
                if hasattr(b, 'sv_base_attr'):
                    r = b.sv_base_attr(o, nm)
                    if r is not NotImplemented:
                        return r
        raise_py(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.name, nm))
    if isinstance(o, IClass):
        m = o.lookup(nm)
        if m is not None:
            if isinstance(m, IFunc) and m.attrs.get('classmethod'):
                return Bound(m, o)
            return m
        if nm == '__name__':
            return o.name
        raise_py(AttributeError, nm)
    if isinstance(o, Module):
        if nm in o.vars:
            return o.vars[nm]
        if nm in o.failed:
            raise Unsupported('module attribute %s.%s: %s' % (o.name, nm, o.failed[nm]))
        raise_py(AttributeError, nm)
    if isinstance(o, LibMod):
        if nm in o.attrs:
            return o.attrs[nm]
        return Opaque('%s.%s' % (o.name, nm))
    if isinstance(o, TypeTok):
        if nm in o.attrs:
            return o.attrs[nm]
        return Opaque('%s.%s' % (o.name, nm))
    if hasattr(o, 'sv_getattr'):
        return o.sv_getattr(nm)
    from . import lib_np
    return lib_np.attr(o, nm)


def setattr_(o, nm, v):
    o = force(o)
    if isinstance(o, IObj):
        if getattr(o, 'frozen', True) or C().scope:
            mark_mutation(o)
        o.attrs[nm] = v
        return
    if hasattr(o, 'sv_setattr'):
        return o.sv_setattr(nm, v)
    if isinstance(o, Opaque):
        return
    raise Unsupported('attribute store on %r' % type(o))


def norm_slice(s, n):
    """raw (lo, len) of a contiguous slice of a sequence of raw length n"""
    def clamp(v, default):
        if v is None:
            return default
        v = force(v)
        z = zi(v) if not isinstance(v, int) else v
        if isinstance(z, int) and isinstance(n, int):
            if z < 0:
                z += n
            return max(0, min(n, z))
        if isinstance(z, int):
            if z == 0:
                return 0
            if z > 0:
                # min(z, n) -- decide when possible
                if not C().cap_stack and C().check(zb(n < z), ms=1500)[0] == z3.unsat:
                    return z
                return z3.If(n < z, n, z3.IntVal(z))
            if not C().cap_stack and C().check(zb(n < -z), ms=1500)[0] == z3.unsat:
                return n + z
            return z3.If(n + z < 0, z3.IntVal(0), n + z)
        nn = n if z3.is_expr(n) else z3.IntVal(n)
        if z.eq(nn):
            return n
        if not C().cap_stack and C().check(z3.Or(z < 0, z > nn), ms=1500)[0] == z3.unsat:
            return z
        neg = z3.If(z + nn < 0, z3.IntVal(0), z + nn)
        return z3.If(z < 0, neg, z3.If(z > nn, nn, z))
    if s.step is not None and s.step not in (1,):
        raise Unsupported('slice step')
    lo = clamp(s.start, 0)
    hi = clamp(s.stop, n)
    if isinstance(lo, int) and isinstance(hi, int):
        return lo, max(0, hi - lo)
    ln = arrays.simp_i(arrays.iexpr(hi) - arrays.iexpr(lo))
    if isinstance(ln, int):
        return lo, max(0, ln)
    if not C().cap_stack and C().check(ln < 0, ms=1500)[0] == z3.unsat:
        return lo, ln
    return lo, z3.If(ln < 0, z3.IntVal(0), ln)


def getitem(o, k):
    o = force(o)
    if isinstance(o, (list, tuple, str)):
        if isinstance(k, slice):
            if any(isinstance(x, (SI, SF)) for x in (k.start, k.stop, k.step)):
                ks = [concretize(x) if isinstance(x, SI) else x for x in (k.start, k.stop, k.step)]
                if any(isinstance(x, SI) for x in (k.start, k.stop)) and None in [b for a, b in zip((k.start, k.stop), ks) if a is not None]:
                    raise Unsupported('symbolic slice of a list')
                k = slice(*ks)
            return o[k]
        k = force(k)
        if isinstance(k, (SI, SB)):
            c = concretize(mki(zi(k)))
            if c is None:
                z = zi(k)
                if not o:
                    raise_py(IndexError, 'list index out of range')
                if C().branch(zb(band(z >= 0, z < len(o))), 'list index in range'):
                    return arrays.pick(list(o), z)
                if C().branch(zb(band(z < 0, z >= -len(o))), 'negative list index'):
                    return arrays.pick(list(o), z + len(o))
                raise_py(IndexError, 'list index out of range')
            k = c
        if isinstance(k, (int, bool)):
            if not -len(o) <= k < len(o):
                raise_py(IndexError, 'index out of range')
            return o[k]
        raise_py(TypeError, 'list indices must be integers or slices')
    if isinstance(o, IDict):
        r = o.find(force(k))
        if r is _MISSING:
            raise_py(KeyError, k)
        return r
    if isinstance(o, dict):
        k = force(k)
        if k in o:
            return o[k]
        raise_py(KeyError, k)
    if isinstance(o, SymSeq):
        if isinstance(k, slice):
            lo, ln = norm_slice(k, o.n)
            return SymSeq(Space(ln), lambda i: o.get(add_i(i, lo)))
        return o.get(check_index(k, o.n))
    if hasattr(o, 'sv_getitem'):
        return o.sv_getitem(k)
    if isinstance(o, SS):
        if isinstance(k, slice) and k.start in (0, None) and isinstance(k.stop, int) and k.stop >= 0 and k.step is None:
            return SS(z3.SubString(o.z, 0, k.stop))
        raise Unsupported('string indexing')
    from . import lib_np
    return lib_np.getitem(o, k)


def add_i(i, lo):
    if isinstance(i, int) and isinstance(lo, int):
        return i + lo
    if isinstance(lo, int) and lo == 0:
        return i
    if isinstance(i, int) and i == 0:
        return lo
    return arrays.simp_i(arrays.iexpr(i) + lo)


def check_index(k, n, exc=IndexError):
    """bounds-check an element index; returns the raw non-negative index"""
    k = force(k)
    if isinstance(k, (SF, float)):
        raise_py(IndexError, 'only integers, slices... are valid indices')
    z = zi(k)
    if isinstance(z, int) and isinstance(n, int):
        if not -n <= z < n:
            raise_py(exc, 'index %d is out of bounds for axis 0 with size %d' % (z, n))
        return z % n if z < 0 else z
    nn = arrays.iexpr(n)
    if isinstance(z, int):
        cond = nn > z if z >= 0 else nn >= -z
        if C().cap_stack:
            return z if z >= 0 else arrays.simp_i(nn + z)
        if not C().branch(cond, 'index in bounds'):
            raise_py(exc, 'index out of bounds')
        return z if z >= 0 else arrays.simp_i(nn + z)
    if C().cap_stack:
        return z3.If(z < 0, z + nn, z)
    if C().branch(zb(band(z >= 0, z < nn)), 'index in bounds'):
        return z
    if C().branch(zb(band(z < 0, z >= -nn)), 'negative index'):
        return arrays.simp_i(z + nn)
    raise_py(exc, 'index out of bounds')


def setitem(o, k, v):
    o = force(o)
    if isinstance(o, IDict):
        mark_mutation(o)
        o.put(force(k), v)
        return
    if isinstance(o, list):
        k = force(k)
        if isinstance(k, SI):
            k = concretize(k)
        if not isinstance(k, int):
            raise Unsupported('list store at symbolic index')
        if not -len(o) <= k < len(o):
            raise_py(IndexError, 'list assignment index out of range')
        mark_mutation(o)
        o[k] = v
        return
    if isinstance(o, tuple):
        raise_py(TypeError, "'tuple' object does not support item assignment")
    if hasattr(o, 'sv_setitem'):
        return o.sv_setitem(k, v)
    from . import lib_np
    return lib_np.setitem(o, k, v)


def iterate(o, why='for'):
    if isinstance(o, SMat) and isinstance(o.n0, int):
        return [o.row(i) for i in range(o.n0)]
    """concrete iteration, or None when the length is unknown"""
    o = force(o)
    if isinstance(o, (list, tuple)):
        return list(o)
    if isinstance(o, range):
        if len(o) > MAX_CONC_ITER:
            raise Unsupported('long concrete loop')
        return list(o)
    if isinstance(o, IDict):
        return [k for k, v in o.allitems()]
    if isinstance(o, dict):
        return list(o)
    if isinstance(o, str):
        return list(o)
    if isinstance(o, SSet):
        return o.listed()
    if isinstance(o, SArr):
        n = o.n if isinstance(o.n, int) else None
        if n is None:
            n = concretize(mki(o.n))
        if n is not None and n <= MAX_CONC_ITER:
            return [o.get(i) for i in range(n)]
        return None
    if isinstance(o, SymSeq):
        n = o.n if isinstance(o.n, int) else concretize(mki(o.n))
        if n is not None and n <= MAX_CONC_ITER:
            return [o.get(i) for i in range(n)]
        return None
    if isinstance(o, SymRange):
        return None
    if hasattr(o, 'sv_iter'):
        return o.sv_iter()
    if o is None or is_num(o):
        raise_py(TypeError, "object is not iterable")
    raise Unsupported('iteration over %r' % type(o))


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def length(o):
    o = force(o)
    if isinstance(o, IDict):
        return o.size()
    if isinstance(o, (list, tuple, dict, str, range)):
        return len(o)
    if isinstance(o, (SArr, SymSeq)):
        return mki(o.n)
    if isinstance(o, SMat):
        return mki(o.n0)
    if isinstance(o, SSet):
        return len(o.items)
    if isinstance(o, SS):
        return mki(z3.Length(o.z))
    if hasattr(o, 'sv_len'):
        return o.sv_len()
    if isinstance(o, IObj) and o.cls.lookup('__len__'):
        return call(o.cls.lookup('__len__'), [o], {})
    if o is None or is_num(o) or isinstance(o, (IFunc, IObj)):
        raise_py(TypeError, 'object has no len()')
    raise Unsupported('len(%r)' % type(o))


# ------------------------------------------------------------------ statements

def exec_block(body, env):
    for s in body:
        exec_stmt(s, env)


def text_order(x, y):
    """the order of unknown texts: some strict total order (all that is used of it); solvers are slow on the concrete one"""
    f = vals.UF('text_order', z3.StringSort(), R)
    p, q = f(x), f(y)
    C().assume((p == q) == (x == y))
    return p, q


HAVOC = object()      # a variable whose value depends on which iterations have run


def lookup(nm, env):
    e = env
    while e is not None:
        if nm in e.locals:
            if nm in e.vars:
                if e.vars[nm] is HAVOC:
                    raise Unsupported('%s: left by a loop over an unknown number of elements' % nm)
                return e.vars[nm]
            if e is env:
                raise_py(UnboundLocalError, "local variable '%s' referenced before assignment" % nm)
            raise_py(NameError, nm)
        if nm in e.globs:
            break
        e = e.parent
    m = env.mod
    if nm in m.vars:
        return m.vars[nm]
    if nm in m.failed:
        raise Unsupported('%s.%s could not be built: %s' % (m.name, nm, m.failed[nm]))
    from . import builtins_m
    if nm in builtins_m.BUILTINS:
        return builtins_m.BUILTINS[nm]
    if hasattr(_bi, nm):
        x = getattr(_bi, nm)
        if isinstance(x, type) and issubclass(x, BaseException):
            return x
        raise Unsupported('builtin %s' % nm)
    raise_py(NameError, "name '%s' is not defined" % nm)


def store_name(nm, v, env):
    e = env
    while e is not None:
        if nm in e.locals:
            e.vars[nm] = v
            return
        if nm in e.globs:
            break
        e = e.parent
    m = env.mod
    if not C().boot:
        old = m.vars.get(nm, _MISSING)
        C().__dict__.setdefault('undo', []).append(
            lambda: m.vars.__setitem__(nm, old) if old is not _MISSING else m.vars.pop(nm, None))
        C().__dict__.setdefault('global_writes', []).append((m.name, nm))
    m.vars[nm] = v


def assign(t, v, env):
    if isinstance(t, ast.Name):
        store_name(t.id, v, env)
    elif isinstance(t, (ast.Tuple, ast.List)):
        n = len(t.elts)
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        vals_ = unpack(v, n, bool(star))
        if star:
            i = star[0]
            k = len(vals_) - (n - 1)
            vals_ = vals_[:i] + [vals_[i:i + k]] + vals_[i + k:]
        for x, y in zip(t.elts, vals_):
            assign(x.value if isinstance(x, ast.Starred) else x, y, env)
    elif isinstance(t, ast.Attribute):
        setattr_(ev(t.value, env), t.attr, v)
    elif isinstance(t, ast.Subscript):
        setitem(ev(t.value, env), ev_index(t.slice, env), v)
    elif isinstance(t, ast.Starred):
        assign(t.value, v, env)
    else:
        raise Unsupported('assignment target')


def unpack(v, n, star=False):
    v = force(v)
    if isinstance(v, (SArr, SymSeq)) and not isinstance(v.n, int):
        if star:
            raise Unsupported('starred unpack of symbolic array')
        if not C().branch(v.n == n, 'unpack'):
            raise_py(ValueError, 'wrong number of values to unpack (expected %d)' % n)
        return [v.get(i) for i in range(n)]
    if isinstance(v, SMat):
        if not isinstance(v.n0, int):
            raise Unsupported('unpack of matrix')
        l = [v.row(i) for i in range(v.n0)]
    else:
        l = iterate(v)
    if l is None:
        raise Unsupported('unpack of unknown length')
    if not star and len(l) != n:
        raise_py(ValueError, 'wrong number of values to unpack (expected %d, got %d)' % (n, len(l)))
    return l


def match_exc(exc, h, env):
    if h.type is None:
        return True
    t = ev(h.type, env)
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if isinstance(x, type) and isinstance(exc.cls, type) and issubclass(exc.cls, x):
            return True
        if isinstance(x, IClass) and isinstance(exc.cls, IClass) and exc.cls.subclass_of(x):
            return True
        if isinstance(x, Opaque):
            raise Unsupported('except %r' % x)
    return False


def exec_stmt(s, env):
    C().tick()
    t = type(s)
    if t is ast.Expr:
        ev(s.value, env)
    elif t is ast.Assign:
        v = ev(s.value, env)
        for x in s.targets:
            assign(x, v, env)
    elif t is ast.AugAssign:
        op = _OPS[type(s.op)]
        tgt = s.target
        if isinstance(tgt, ast.Name):
            cur = lookup(tgt.id, env)
            store_name(tgt.id, augop(op, cur, ev(s.value, env)), env)
        elif isinstance(tgt, ast.Attribute):
            o = ev(tgt.value, env)
            setattr_(o, tgt.attr, augop(op, getattr_(o, tgt.attr), ev(s.value, env)))
        elif isinstance(tgt, ast.Subscript):
            o = ev(tgt.value, env)
            k = ev_index(tgt.slice, env)
            setitem(o, k, augop(op, getitem(o, k), ev(s.value, env)))
        else:
            raise Unsupported('augmented assignment')
    elif t is ast.AnnAssign:
        if s.value is not None:
            assign(s.target, ev(s.value, env), env)
    elif t is ast.Return:
        raise _Ret(ev(s.value, env) if s.value is not None else None)
    elif t is ast.If:
        if truth(ev(s.test, env), 'if@%d' % s.lineno):
            exec_block(s.body, env)
        else:
            exec_block(s.orelse, env)
    elif t is ast.For:
        exec_for(s, env)
    elif t is ast.While:
        n = 0
        broke = False
        while truth(ev(s.test, env), 'while@%d' % s.lineno):
            n += 1
            if n > MAX_CONC_ITER:
                raise Unsupported('loop bound (while@%d)' % s.lineno)
            try:
                exec_block(s.body, env)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            exec_block(s.orelse, env)
    elif t is ast.Pass:
        pass
    elif t is ast.Assert:
        if not truth(ev(s.test, env), 'assert@%d' % s.lineno):
            msg = ()
            raise_py(AssertionError, *msg)
    elif t is ast.Raise:
        if s.exc is None:
            cur = C().__dict__.get('handling')
            if not cur:
                raise_py(RuntimeError, 'No active exception to reraise')
            raise PyRaise(cur[-1])
        e = ev(s.exc, env)
        if isinstance(e, type):
            e = IExc(e, ())
        if isinstance(e, IObj):
            e = IExc(e.cls, ())
        if not isinstance(e, IExc):
            raise Unsupported('raise %r' % (e,))
        raise PyRaise(e)
    elif t is ast.Try:
        try:
            try:
                exec_block(s.body, env)
            except PyRaise as pe:
                for h in s.handlers:
                    if match_exc(pe.exc, h, env):
                        if h.name:
                            store_name(h.name, pe.exc, env)
                        hs = C().__dict__.setdefault('handling', [])
                        hs.append(pe.exc)
                        try:
                            exec_block(h.body, env)
                        finally:
                            hs.pop()
                        break
                else:
                    raise
            else:
                exec_block(s.orelse, env)
        finally:
            if s.finalbody:
                exec_block(s.finalbody, env)
    elif t is ast.FunctionDef:
        store_name(s.name, decorate(s, make_fn(s, env, s.name), env), env)
    elif t is ast.ClassDef:
        store_name(s.name, make_class(s, env), env)
    elif t in (ast.Import, ast.ImportFrom):
        do_import(s, env)
    elif t is ast.Break:
        raise _Break()
    elif t is ast.Continue:
        raise _Continue()
    elif t in (ast.Global, ast.Nonlocal):
        pass
    elif t is ast.Delete:
        for x in s.targets:
            if isinstance(x, ast.Name):
                env.vars.pop(x.id, None)
            elif isinstance(x, ast.Subscript):
                o, k = ev(x.value, env), ev_index(x.slice, env)
                if hasattr(o, 'sv_delitem'):
                    o.sv_delitem(k)
                elif isinstance(o, (list, dict)) and hashable(k):
                    mark_mutation(o)
                    del o[k]
                else:
                    raise Unsupported('del item')
            else:
                raise Unsupported('del')
    elif t is ast.With:
        for it in s.items:
            v = ev(it.context_expr, env)
            if it.optional_vars is not None:
                assign(it.optional_vars, v, env)
        exec_block(s.body, env)
    else:
        raise Unsupported('statement %s' % t.__name__)


def augop(op, cur, v):
    cur = force(cur)
    if op == '+' and isinstance(cur, list):
        l = iterate(v)
        if l is None:
            if isinstance(v, SymSeq):
                return seq_concat([SymSeq(Space(len(cur)), lambda i, c=list(cur): arrays.pick(c, i)), v])
            raise Unsupported('list += symbolic')
        mark_mutation(cur)
        cur.extend(l)
        return cur
    if isinstance(cur, SArr) and cur.kind == 'nd':
        r = binop(op, cur, v)
        if isinstance(r, SArr):
            if cur.dtype in ('int', 'bool') and r.dtype == 'float':
                raise_py(TypeError, 'Cannot cast ufunc output from float64 to int64')
            g = frozen(r)
            cur.setitem(lambda i: True, lambda i: g(i))
            return cur
    if hasattr(cur, 'sv_augop'):
        return cur.sv_augop(op, v)
    return binop(op, cur, v)


def exec_for(s, env):
    it = ev(s.iter, env)
    l = iterate(it, 'for@%d' % s.lineno)
    if l is None:
        from . import loops
        return loops.exec_for_symbolic(s, it, env)
    broke = False
    for x in l:
        assign(s.target, x, env)
        try:
            exec_block(s.body, env)
        except _Break:
            broke = True
            break
        except _Continue:
            continue
    if not broke:
        exec_block(s.orelse, env)


def make_fn(node, env, name):
    defaults = [ev(d, env) for d in node.args.defaults]
    kwd = [ev(d, env) if d is not None else _MISSING for d in node.args.kw_defaults]
    q = name if env.parent is None and env.locals == () else '<locals>.' + name
    return IFunc(node, env, name, '%s.%s' % (env.mod.name.split('.')[-1], q), defaults, kwd)


def decorate(node, f, env):
    for d in reversed(node.decorator_list):
        if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
            f.attrs[d.id] = True
        else:
            f = call(ev(d, env), [f], {})
    return f


def make_class(s, env):
    bases = [ev(b, env) for b in s.bases]
    cenv = Env(env.mod, env if env.locals != () else None, frozenset(['__all__names__']))
    ns = {}
    # class body: names are stored in ns, functions close over the enclosing (not the class) scope
    for st in s.body:
        if isinstance(st, ast.FunctionDef):
            f = IFunc(st, env, st.name, '%s.%s.%s' % (env.mod.name.split('.')[-1], s.name, st.name),
                      [ev(d, env) for d in st.args.defaults],
                      [ev(d, env) if d is not None else _MISSING for d in st.args.kw_defaults])
            ns[st.name] = decorate(st, f, env)
        elif isinstance(st, ast.Assign):
            v = ev(st.value, env)
            for t in st.targets:
                if isinstance(t, ast.Name):
                    ns[t.id] = v
        elif isinstance(st, (ast.Expr, ast.Pass)):
            continue
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                ns[st.target.id] = ev(st.value, env)
        else:
            raise Unsupported('class body statement')
    return IClass(s.name, bases, ns, s.name)


def do_import(s, env):
    from . import world
    if isinstance(s, ast.Import):
        for al in s.names:
            m = world.import_module(al.name)
            if al.asname:
                store_name(al.asname, m, env)
            else:
                store_name(al.name.split('.')[0], world.import_module(al.name.split('.')[0]), env)
    else:
        if s.module == '__future__':
            return
        mod = world.import_module(s.module, s.level, env.mod)
        for al in s.names:
            if al.name == '*':
                raise Unsupported('import *')
            v = world.import_from(s.module, mod, al.name, s.level, env.mod)
            store_name(al.asname or al.name, v, env)


# ------------------------------------------------------------------ expressions

def ev_index(n, env):
    if isinstance(n, ast.Slice):
        return slice(*[ev(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])
    if isinstance(n, ast.Tuple) and any(isinstance(x, ast.Slice) for x in n.elts):
        return tuple(ev_index(x, env) for x in n.elts)
    return ev(n, env)


def ev_args(n, env):
    args = []
    for a in n.args:
        if isinstance(a, ast.Starred):
            l = iterate(ev(a.value, env))
            if l is None:
                raise Unsupported('*args of unknown length')
            args += l
        else:
            args.append(ev(a, env))
    kwargs = IDict()
    for k in n.keywords:
        if k.arg is None:
            d = force(ev(k.value, env))
            if d is None:
                raise_py(TypeError, 'argument after ** must be a mapping')
            for kk, v in (d.allitems() if isinstance(d, IDict) else d.items()):
                if hashable(kk) and kk in kwargs:
                    raise_py(TypeError, 'got multiple values for keyword argument %r' % (kk,))
                kwargs.put(kk, v)
        else:
            if k.arg in kwargs:
                raise_py(TypeError, 'got multiple values for keyword argument')
            kwargs.put(k.arg, ev(k.value, env))
    return args, kwargs


def ev(n, env):
    t = type(n)
    if t is ast.Constant:
        return n.value
    if t is ast.Name:
        return lookup(n.id, env)
    if t is ast.Attribute:
        return getattr_(ev(n.value, env), n.attr)
    if t is ast.Call:
        f = ev(n.func, env)
        args, kwargs = ev_args(n, env)
        return call(f, args, kwargs)
    if t is ast.BinOp:
        a = ev(n.left, env)
        b = ev(n.right, env)
        return binop(_OPS[type(n.op)], a, b)
    if t is ast.Compare:
        left = ev(n.left, env)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = ev(r, env)
            v = cmp_one(op, left, right)
            if res is None:
                res = v
            if len(n.ops) == 1:
                return v
            if not truth(v, 'chained comparison'):
                return False
            res = v
            left = right
        return res
    if t is ast.BoolOp:
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = ev(x, env)
            if i == len(n.values) - 1:
                return v
            b = truth(v, 'boolop@%d' % n.lineno)
            if isand and not b:
                return v if not isinstance(v, SB) else False
            if not isand and b:
                return v if not isinstance(v, SB) else True
        return v
    if t is ast.UnaryOp:
        v = ev(n.operand, env)
        return unop(n.op, v)
    if t is ast.IfExp:
        if isinstance(n.body, ast.Name) and isinstance(n.orelse, ast.Name):
            r = merged_choice(n, env)
            if r is not None:
                return r
        return ev(n.body if truth(ev(n.test, env), 'ifexp@%d' % n.lineno) else n.orelse, env)
    if t is ast.List:
        return ev_list(n.elts, env)
    if t is ast.Tuple:
        return tuple(ev_list(n.elts, env))
    if t is ast.Set:
        return SSet(ev_list(n.elts, env))
    if t is ast.Dict:
        d = IDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = ev(v, env)
                for kk, vv in (o.allitems() if isinstance(o, IDict) else o.items()):
                    d.put(kk, vv)
            else:
                d.put(force(ev(k, env)), ev(v, env))
        return d
    if t is ast.Subscript:
        return getitem(ev(n.value, env), ev_index(n.slice, env))
    if t is ast.Lambda:
        return make_fn(n, env, '<lambda>')
    if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
        r = comp(n, env)
        return SSet(r) if t is ast.SetComp else r
    if t is ast.DictComp:
        out = IDict()
        for e2 in comp_envs(n.generators, env):
            out.put(force(ev(n.key, e2)), ev(n.value, e2))
        return out
    if t is ast.JoinedStr:
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = ev(v.value, env)
                if v.format_spec is not None:
                    sp = ev(v.format_spec, env)
                    if isinstance(x, (int, float, str)) and isinstance(sp, str):
                        parts.append(format(x, sp))
                    else:
                        parts.append(SS(C().fresh(z3.StringSort(), 'fmtspec')))
                else:
                    parts.append(to_repr(x) if v.conversion == 114 else to_str(x))
        return s_concat(parts)
    if t is ast.Starred:
        raise Unsupported('starred')
    if t is ast.NamedExpr:
        v = ev(n.value, env)
        store_name(n.target.id, v, env)
        return v
    if t is ast.Yield:
        e = env
        while e is not None and '__yield__' not in e.vars:
            e = e.parent
        e.vars['__yield__'].append(ev(n.value, env) if n.value else None)
        return None
    raise Unsupported('expression %s' % t.__name__)


def cmp_one(op, a, b):
    if isinstance(op, ast.Is):
        return is_same(a, b)
    if isinstance(op, ast.IsNot):
        r = is_same(a, b)
        return (not r)
    if isinstance(op, ast.In):
        return contains(a, b)
    if isinstance(op, ast.NotIn):
        return not contains(a, b)
    return compare(_CMP[type(op)], a, b)


def is_same(a, b):
    a, b = force(a), force(b)
    if a is b:
        return True
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return truth(mkb(beq(zraw(a), zraw(b))), 'is')
    if isinstance(a, (int, str)) and isinstance(b, (int, str)) and not isinstance(a, bool) and not isinstance(b, bool):
        return a == b
    return False


def unop(op, v):
    v = force(v)
    if isinstance(op, ast.Not):
        return not truth(v, 'not')
    if hasattr(v, 'sv_unop'):
        return v.sv_unop(type(op).__name__)
    if isinstance(op, ast.USub):
        if isinstance(v, SArr):
            r = ew(lambda x: num_neg(x) if is_num(x) else SD(-x.z, x.nat), v.dtype, v)
            r.kind = v.kind
            return r
        if is_num(v):
            return num_neg(v)
        if isinstance(v, SD):
            return SD(-v.z, v.nat)
    if isinstance(op, ast.Invert):
        if isinstance(v, SArr):
            if v.dtype == 'bool':
                return ew(lambda x: mkb(bnot(zraw(x))), 'bool', v)
            if v.dtype in ('float', 'str'):
                raise_py(TypeError, "ufunc 'invert' not supported")
            raise Unsupported('invert of %s array' % v.dtype)
        if isinstance(v, SB):
            return mkb(bnot(v.z))
        if isinstance(v, bool):
            return not v     # numpy bool semantics: library booleans only
        if isinstance(v, int):
            return ~v
    if isinstance(op, ast.UAdd):
        return v
    raise Unsupported('unary %s on %r' % (type(op).__name__, type(v)))


def ev_list(elts, env):
    out = []
    for e in elts:
        if isinstance(e, ast.Starred):
            l = iterate(ev(e.value, env))
            if l is None:
                raise Unsupported('starred list of unknown length')
            out += l
        else:
            out.append(ev(e, env))
    return out


def comp_targets(gens):
    out = set()
    for g in gens:
        for n in ast.walk(g.target):
            if isinstance(n, ast.Name):
                out.add(n.id)
    return frozenset(out)


def comp_envs(gens, env):
    names = comp_targets(gens)

    def rec(i, e):
        if i == len(gens):
            yield e
            return
        g = gens[i]
        l = iterate(ev(g.iter, e if i else env))
        if l is None:
            raise Unsupported('comprehension over unknown length (nested)')
        for x in l:
            e2 = Env(env.mod, e, names)
            e2.vars.update(e.vars if i else {})
            assign(g.target, x, e2)
            if all(truth(ev(c, e2), 'comp if') for c in g.ifs):
                yield from rec(i + 1, e2)
    yield from rec(0, env)


def comp(n, env):
    if len(n.generators) == 1:
        g = n.generators[0]
        it = ev(g.iter, env)
        l = iterate(it)
        if l is None:
            from . import loops
            return loops.comp_symbolic(n, it, env)
        out = []
        names = comp_targets(n.generators)
        for x in l:
            e2 = Env(env.mod, env, names)
            assign(g.target, x, e2)
            if all(truth(ev(c, e2), 'comp if') for c in g.ifs):
                out.append(ev(n.elt, e2))
        return out
    return [ev(n.elt, e2) for e2 in comp_envs(n.generators, env)]
