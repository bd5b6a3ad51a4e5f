"""Faster construction of z3 terms.

The Python binding spends most of its time on sort look-ups and error polling when terms are built. The functions below
build the same terms through the same C entry points (Z3_mk_and, Z3_mk_lt, ...), with the checks of the binding kept
as: arguments must be expressions of the right sort, and a null result raises. Anything unusual falls back to the
original function."""
import ctypes
import z3
from z3 import z3core as zc

zz = z3.z3
zz.Z3_DEBUG = False


class _Lib:
    def __getattr__(self, nm):
        return getattr(zc, nm).__defaults__[0].f


L = _Lib()
CTX = zz.main_ctx()
CR = CTX.ref()
Ast = zz.Ast
BoolRef, ArithRef, IntNumRef, RatNumRef = zz.BoolRef, zz.ArithRef, zz.IntNumRef, zz.RatNumRef
SeqRef = zz.SeqRef
_inc, _dec = L.Z3_inc_ref, L.Z3_dec_ref
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
TV, FV = TRUE.ast.value, FALSE.ast.value
_get_sort, _get_kind, _get_skind = L.Z3_get_sort, L.Z3_get_ast_kind, L.Z3_get_sort_kind
INT, REAL = z3.IntSort(), z3.RealSort()
INTS, REALS, BOOLS = INT.ast.value, REAL.ast.value, z3.BoolSort().ast.value
NUMERAL = z3.Z3_NUMERAL_AST
_ints = {}


def val(p):
    if p is None:
        return None
    return getattr(p, 'value', p)


def sort_of(e):
    return val(_get_sort(CR, e.ast))


def is_true(a):
    return isinstance(a, BoolRef) and a.ast.value == TV


def is_false(a):
    return isinstance(a, BoolRef) and a.ast.value == FV


def new(cls, p):
    if p is None or not val(p):
        raise z3.Z3Exception('term construction failed')
    o = object.__new__(cls)
    o.ast = p if isinstance(p, Ast) else Ast(p)
    o.ctx = CTX
    _inc(CR, o.ast)
    return o


def arr(xs):
    n = len(xs)
    a = (Ast * n)()
    for i in range(n):
        a[i] = xs[i].ast
    return a, n


_And, _Or, _Not, _Implies, _If = zz.And, zz.Or, zz.Not, zz.Implies, zz.If


def blist(args):
    out = []
    for x in args:
        if isinstance(x, BoolRef):
            out.append(x)
        elif x is True:
            out.append(TRUE)
        elif x is False:
            out.append(FALSE)
        else:
            return None
    return out


def And(*args):
    if len(args) > 1:
        xs = blist(args)
        if xs is not None:
            a, n = arr(xs)
            return new(BoolRef, L.Z3_mk_and(CR, n, a))
    return _And(*args)


def Or(*args):
    if len(args) > 1:
        xs = blist(args)
        if xs is not None:
            a, n = arr(xs)
            return new(BoolRef, L.Z3_mk_or(CR, n, a))
    return _Or(*args)


def Not(a, ctx=None):
    if isinstance(a, BoolRef):
        return new(BoolRef, L.Z3_mk_not(CR, a.ast))
    return _Not(a, ctx)


def Implies(a, b, ctx=None):
    xs = blist((a, b))
    if xs is not None:
        return new(BoolRef, L.Z3_mk_implies(CR, xs[0].ast, xs[1].ast))
    return _Implies(a, b, ctx)


def If(c, a, b, ctx=None):
    if isinstance(c, BoolRef) and isinstance(a, BoolRef) and isinstance(b, BoolRef):
        return new(BoolRef, L.Z3_mk_ite(CR, c.ast, a.ast, b.ast))
    if isinstance(c, BoolRef) and isinstance(a, ArithRef) and isinstance(b, ArithRef) and sort_of(a) == sort_of(b):
        return new(ArithRef, L.Z3_mk_ite(CR, c.ast, a.ast, b.ast))
    return _If(c, a, b, ctx)


_IntVal = zz.IntVal


def IntVal(v, ctx=None):
    if type(v) is int:
        r = _ints.get(v)
        if r is None:
            r = _IntVal(v)
            if len(_ints) < 20000:
                _ints[v] = r
        return r
    return _IntVal(v, ctx)


def other(self, o):
    """the operand as an expression of the same sort, or None"""
    if isinstance(o, ArithRef):
        return o if sort_of(self) == sort_of(o) else None
    if type(o) is int:
        s = sort_of(self)
        if s == INTS:
            return IntVal(o)
        if s == REALS:
            return realval(o)
    return None


_reals = {}


def realval(o):
    r = _reals.get(o)
    if r is None:
        r = zz.RealVal(o)
        if len(_reals) < 20000:
            _reals[o] = r
    return r


def arith(cls, p):
    if _get_kind(CR, p if isinstance(p, Ast) else Ast(p)) == NUMERAL:
        return zz._to_expr_ref(p if isinstance(p, Ast) else Ast(p), CTX)
    return new(ArithRef, p)


def install_op(name, mk, boolean, nary=False, swap=False):
    old = getattr(ArithRef, name)

    def op(self, o):
        b = other(self, o)
        if b is None:
            return old(self, o)
        x, y = (b, self) if swap else (self, b)
        if nary:
            a = (Ast * 2)()
            a[0], a[1] = x.ast, y.ast
            return new(ArithRef, mk(CR, 2, a))
        return new(BoolRef, mk(CR, x.ast, y.ast))
    op.__name__ = name
    setattr(ArithRef, name, op)


_eq, _ne = zz.ExprRef.__eq__, zz.ExprRef.__ne__


def eq_(self, o):
    if isinstance(self, ArithRef):
        b = other(self, o)
        if b is not None:
            return new(BoolRef, L.Z3_mk_eq(CR, self.ast, b.ast))
    elif isinstance(self, BoolRef):
        if isinstance(o, bool):
            o = TRUE if o else FALSE
        if isinstance(o, BoolRef):
            return new(BoolRef, L.Z3_mk_eq(CR, self.ast, o.ast))
    return _eq(self, o)


def ne_(self, o):
    b = None
    if isinstance(self, ArithRef):
        b = other(self, o)
    elif isinstance(self, BoolRef) and isinstance(o, BoolRef):
        b = o
    if b is not None:
        a = (Ast * 2)()
        a[0], a[1] = self.ast, b.ast
        return new(BoolRef, L.Z3_mk_distinct(CR, 2, a))
    return _ne(self, o)


def ast_eq(self, o):
    return isinstance(o, zz.AstRef) and self.ast.value == o.ast.value


_call = zz.FuncDeclRef.__call__
_decls = {}


def fcall(self, *args):
    k = self.ast.value
    info = _decls.get(k)
    if info is None:
        dom = [self.domain(i).ast.value for i in range(self.arity())]
        rng = self.range().ast.value
        info = (dom, rng, self)       # keeps the declaration alive, so that the pointer stays its name
        _decls[k] = info
    dom, rng, _ = info
    if len(args) == len(dom):
        xs = []
        for x, s in zip(args, dom):
            if type(x) is int and s == INTS:
                x = IntVal(x)
            if not isinstance(x, zz.ExprRef) or sort_of(x) != s:
                return _call(self, *args)
            xs.append(x)
        if rng in (INTS, REALS):
            cls = ArithRef
        elif rng == BOOLS:
            cls = BoolRef
        else:
            return _call(self, *args)
        a, n = arr(xs)
        return new(cls, L.Z3_mk_app(CR, self.ast, n, a))
    return _call(self, *args)


def install():
    for m in (z3, zz):
        m.And, m.Or, m.Not, m.Implies, m.If = And, Or, Not, Implies, If
        m.is_true, m.is_false, m.IntVal = is_true, is_false, IntVal
    for nm, f, sw in (('__lt__', L.Z3_mk_lt, False), ('__le__', L.Z3_mk_le, False), ('__gt__', L.Z3_mk_gt, False), ('__ge__', L.Z3_mk_ge, False)):
        install_op(nm, f, True, swap=sw)
    for nm, f, sw in (('__add__', L.Z3_mk_add, False), ('__radd__', L.Z3_mk_add, True), ('__sub__', L.Z3_mk_sub, False), ('__rsub__', L.Z3_mk_sub, True),
                      ('__mul__', L.Z3_mk_mul, False), ('__rmul__', L.Z3_mk_mul, True)):
        install_op(nm, f, False, True, sw)
    zz.ExprRef.__eq__, zz.ExprRef.__ne__ = eq_, ne_
    zz.AstRef.eq = ast_eq
    zz.FuncDeclRef.__call__ = fcall
    fast_refs()


def fast_refs():
    """object life cycle without error polling"""
    def init(self, ast, ctx=None):
        self.ast = ast
        self.ctx = CTX if ctx is None else ctx
        _inc(self.ctx.ctx, ast)

    def dele(self):
        a = self.ast
        if a is not None and self.ctx.ctx is not None:
            self.ast = None
            _dec(self.ctx.ctx, a)
    zz.AstRef.__init__ = init
    zz.AstRef.__del__ = dele


install()
