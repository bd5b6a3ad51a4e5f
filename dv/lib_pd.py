"""Models (trusted contracts) of the pandas operations the package uses.

A Series is an array plus an index, a DataFrame a set of equally long columns plus an index; both sit
on an index space, so every operation is a relation between rows of the operands and of the result.
"""
import datetime as _dt
import z3
from .core import C, Unsupported, PyRaise
from .vals import *
from . import arrays, interp, lib_np
from .arrays import (SArr, SMat, Space, Cell, s_ite, ew, frozen, mark_mutation, was_mutated, exists, forall_b, subset, reduction,
                     provably, key_of, cell_same, perm_space, concat_space, iexpr, tab)
from .interp import (HostFn, TypeTok, LibMod, IObj, IFunc, IDict, SymSeq, SSet, force, truth, call, iterate, binop,
                     compare, scalar_binop, scalar_cmp, norm_slice, check_index, add_i, zraw, eq)
from .lib_np import NAN, astype, arr, need_arr, extreme, mean_of, eq_soft, membership, meth


# ---------------------------------------------------------------- helpers

def range_index(space, name=None):
    r = SArr(space, lambda i: mki(iexpr(i)) if z3.is_expr(i) else i, 'int', 'index', name)
    r.is_range = True
    return r


def as_index(v, name=None):
    a = thaw2(need_arr(v))
    a.kind = 'dtindex' if a.dtype == 'time' else 'index'
    a.name = name
    return a


def thaw2(a, kind=None):
    r = SArr(a.space, frozen(a), a.dtype, kind or a.kind, a.name)
    if hasattr(a, 'items') and a.version == 0:
        r.items = a.items
    return r


def sel(a, sp, src, kind=None):
    g = frozen(a)
    r = SArr(sp, lambda i: g(src(i)), a.dtype, kind or a.kind, a.name)
    return r


def sel_index(index, sp, src):
    """index of a row selection (memoised, so that selections by the same mask share their index)"""
    k = (index.uid, sp.uid)
    t = tab('idx')
    if k not in t:
        t[k] = (sel(index, sp, src), index, sp)
    return t[k][0]


def null_of(dtype):
    if dtype == 'time':
        return ST(0, True)
    if dtype == 'td':
        return SD(0, True)
    return NAN


def nullable(dtype):
    return dtype if dtype in ('float', 'time', 'td', 'obj') else 'float' if dtype == 'int' else 'obj'


def rawnull(x):
    return isnan(x)


def lt_cells(a, b):
    """raw: a sorts before b (nulls last)"""
    na, nb = isnan(a), isnan(b)
    va = a.v if isinstance(a, MaybeNull) else a
    vb = b.v if isinstance(b, MaybeNull) else b
    if va is None or vb is None:
        return band(bnot(na), nb)
    if isinstance(va, IObj) or isinstance(vb, IObj):
        return zraw(compare('<', va, vb))
    return band(bnot(na), bor(nb, zraw(scalar_cmp('<', va, vb))))


def same_key(a, b):
    if isinstance(a, IObj) or isinstance(b, IObj):
        return zraw(eq(a, b))
    return cell_same(a, b)


def conj(f):
    return lambda *a: band(*f(*a))


# ---- first occurrences (drop_duplicates, groupby, nunique)

def first_rep(space, keys):
    """rep(i): position of the first row whose key equals that of row i.  keys: list of SArr on space"""
    t = tab('rep')
    for ks, rep in t.get(space.uid, []):
        if len(ks) == len(keys) and all(a is b or (a.fn is b.fn) or arrays.same_content(a, b) for a, b in zip(ks, keys)):
            return rep
    gs = [frozen(k) for k in keys]

    def key_eq(i, j):
        return band(*[same_key(g(i), g(j)) for g in gs])
    small = isinstance(space.n, int) and space.n <= 6
    if not small and provably_unique(space, keys):
        rep = lambda i: i          # no key occurs twice
    elif small:
        def rep(i):
            if isinstance(i, int):
                v = i
                for j in range(i - 1, -1, -1):
                    v = ite(key_eq(j, i), j, v)
                return v
            v = None
            for k in range(space.n - 1, -1, -1):
                v = rep(k) if v is None else ite(i == k, rep(k), v)
            return v
    else:
        f = C().fn('rep', I, I)
        reps = {}

        def rep(i):
            k = key_of(i)
            if k in reps:
                return reps[k][0]
            r = f(iexpr(i))
            reps[k] = (r, i)
            reps[key_of(r)] = (r, r)
            return r

        def fact(i):
            r = rep(i)
            if r is i or (z3.is_expr(i) and r.eq(i)):
                return band(f(iexpr(i)) == i)
            space.touch(r, C().hop + 1)
            return band(r >= 0, r <= i, r < space.n, key_eq(r, i), f(r) == r)
        space.add_fact(fact)
        space.add_pair_fact(lambda i, j: zb(key_eq(i, j)) == (rep(i) == rep(j)))
    t.setdefault(space.uid, []).append(([thaw2(k) for k in keys], rep))
    return rep


def group_space(parent, key):
    """the groups of the rows of parent by a key without nulls, in increasing order of the key: rowof(q) is some row of
    group q, rank(v) the group of row v. Facts about a row's group are stated when that group is asked for."""
    t = tab('groups').setdefault(parent.uid, [])
    for k, sp in t:
        if arrays.same_content(k, key):
            return sp
    ctx = C()
    n = ctx.fresh(I, 'ng')
    fs, fr = ctx.fn('grow', I, I), ctx.fn('gof', I, I)
    g = frozen(key)
    ctx.assume(zb(band(n >= 0, n <= parent.n, zb(beq(n, 0)) == zb(beq(parent.n, 0)))))
    sp = arrays.Space(n, 'groups')
    back, fwd = {}, {}

    def rowof(q):
        k = key_of(q)
        if k not in back:
            v = fs(iexpr(q))
            back[k] = (v, q)
            fwd[key_of(v)] = (iexpr(q), v)
        return back[k][0]

    def rank(v):
        k = key_of(v)
        if k not in fwd:
            r = fr(iexpr(v))
            fwd[k] = (r, v)
            row = fs(r)
            back[key_of(r)] = (row, r)
            fwd[key_of(row)] = (r, row)
            C().assume(z3.Implies(zb(parent.in_range(v)), z3.And(r >= 0, r < n, row >= 0, row < parent.n, fr(row) == r, zb(same_key(g(row), g(v))))))
        return fwd[k][0]

    def fact(q):
        v = rowof(q)
        return band(v >= 0, v < parent.n, fr(v) == iexpr(q))
    sp.add_fact(fact)
    sp.add_pair_fact(lambda i, j: zb(i < j) == zb(lt_cells(g(rowof(i)), g(rowof(j)))))
    sp.src, sp.rank, sp.distinct_of = rowof, rank, (parent, thaw2(key))
    t.append((thaw2(key), sp))
    return sp


def group_count(space, keys):
    """cnt(i): number of rows whose key equals that of row i (the same symbol wherever it is asked about the same rows and keys)"""
    t = tab('gcount')
    for ks, c in t.get(space.uid, []):
        if len(ks) == len(keys) and all(a is b or (a.fn is b.fn) or arrays.same_content(a, b) for a, b in zip(ks, keys)):
            return c
    if len(keys) != 1 or nullable_key(keys[0]):
        raise Unsupported('group sizes of nullable or several keys')
    gs = group_space(space, keys[0])
    f = C().fn('gcount', I, I)
    seen = {}

    def cnt(i):
        k = key_of(i)
        if k not in seen:
            v = f(iexpr(gs.rank(i)))
            seen[k] = (v, i)
            C().assume(v >= 1)          # outside of the range the symbol is unconstrained otherwise
            C().assume(z3.Implies(zb(space.in_range(i)), v <= iexpr(space.n)))
            C().__dict__.setdefault('positive', {})[v.get_id()] = v
        return seen[k][0]
    t.setdefault(space.uid, []).append(([thaw2(k) for k in keys], cnt))
    return cnt


def count_witness(space, key, i):
    """by the meaning of a count: a group of more than one row has another row"""
    cnt = group_count(space, [key])(i)
    w = C().fresh(I, 'other')
    space.touch(w)
    C().assume(z3.Implies(z3.And(zb(space.in_range(i)), cnt > 1), zb(band(space.in_range(w), bnot(beq(w, i)), same_key(key.get(w), key.get(i))))))
    return cnt


def is_first(space, keys):
    rep = first_rep(space, keys)
    return lambda i: beq(rep(i), i)


def first_rows(space, keys):
    """the rows whose key occurs for the first time"""
    rep = first_rep(space, keys)
    t = arrays.tab('first_rows')
    if id(rep) not in t:
        sp, src = subset(space, lambda i: beq(rep(i), i), 'dedup')
        t[id(rep)] = (rep, sp, src)
    return t[id(rep)][1:]


def last_rep_cond(space, keys):
    gs = [frozen(k) for k in keys]

    def cond(i):
        return bnot(exists(space, lambda j: band(j > i, *[same_key(g(i), g(j)) for g in gs]), 'later'))
    memo = {}

    def c(i):
        k = key_of(i)
        if k not in memo:
            memo[k] = (cond(i), i)
        return memo[k][0]
    return c


# ---------------------------------------------------------------- Series

_PYNAME = {'float': 'float64', 'int': 'int64', 'bool': 'bool'}


class PSeries:
    ndim = 1

    def __init__(self, a, index=None, name=None):
        self.a = a
        self.index = index if index is not None else range_index(a.space)
        self.name = name

    def __repr__(self):
        return 'Series(%r)' % (self.a,)

    @property
    def n(self):
        return self.a.n

    @property
    def space(self):
        return self.a.space

    def get(self, i):
        return self.a.get(i)

    def sv_arr(self):
        return self.a

    def sv_rewrap(self, a):
        if isinstance(a, SArr):
            return PSeries(a, self.index, self.name)
        return a

    def sv_snapshot(self):
        a, i, n = self.a, self.index, self.name

        def undo():
            self.a, self.index, self.name = a, i, n
        return undo

    def aligned(self, other):
        if other.index is self.index or (self.space is other.space and self.index.fn is other.index.fn):
            return other.a
        if getattr(self.index, 'is_range', False) and getattr(other.index, 'is_range', False):
            if truth(mkb(beq(self.n, other.n)), 'aligned lengths'):
                return other.a
            raise Unsupported('alignment of series of different length')
        if arrays.same_content(self.index, other.index):
            return other.a
        raise Unsupported('index alignment')

    def sv_arrop(self, op, other, refl):
        nm = self.name
        if isinstance(other, PFrame):
            return NotImplemented
        if isinstance(other, PSeries):
            nm = self.name if self.name == other.name else None
            other = self.aligned(other)
        if isinstance(other, (SArr,)) and not truth(mkb(beq(other.n, self.n)), 'lengths'):
            raise_py(ValueError, 'operands could not be broadcast together')
        if isinstance(other, str) and self.a.dtype == 'time':
            other = time_of(other)
        if isinstance(other, Opaque):
            raise Unsupported('series op %r' % other)
        x, y = (other, self.a) if refl else (self.a, other)
        if op in '&|^' and any(isinstance(v, SArr) and v.dtype in ('int', 'bool', 'obj') for v in (x, y)):
            # logical operators on a bool and an int column
            ds = [v.dtype if isinstance(v, SArr) else arrays.dtype_of_items([v]) for v in (x, y)]
            if 'bool' in ds and ('int' in ds or 'obj' in ds):
                from .builtins_m import rawb
                fo = {'&': band, '|': bor}[op]

                def tb(v):
                    if isinstance(v, MaybeNull):
                        return band(bnot(v.null), rawb(v.v))
                    return rawb(v)
                r = ew(lambda p, q: mkb(fo(tb(p), tb(q))), 'bool', x, y)
                return PSeries(r, self.index, nm)
        if op == '/':
            x = as_npfloat(x)
        return PSeries(interp.arr_binop(op, x, y), self.index, nm)

    def sv_arrcmp(self, op, other):
        if isinstance(other, PSeries):
            other = self.aligned(other)
        if isinstance(other, str) and self.a.dtype == 'time':
            other = time_of(other)
        if isinstance(other, _dt.datetime):
            other = time_of(other)
        if isinstance(other, (list, tuple)):
            other = arr(other)
        if isinstance(other, SArr):
            if not truth(mkb(beq(other.n, self.n)), 'lengths'):
                raise_py(ValueError, 'Lengths must match to compare')
        if other is None:
            return PSeries(ew(lambda x: op == '!=', 'bool', self.a), self.index, self.name)
        f = lambda x, y: mkb(soft_cmp(op, x, y))
        return PSeries(ew(f, 'bool', self.a, other), self.index, self.name)

    def sv_unop(self, op):
        if op == 'Invert':
            if self.a.dtype == 'obj':
                raise Unsupported('~ on an object column')
            return PSeries(interp.unop(_AST_INV, self.a), self.index, self.name)
        if op == 'USub':
            return PSeries(interp.unop(_AST_NEG, self.a), self.index, self.name)
        raise Unsupported('series unary ' + op)

    def sv_truth(self):
        raise_py(ValueError, 'The truth value of a Series is ambiguous')

    def sv_len(self):
        return mki(self.n)

    def sv_iter(self):
        return iterate(self.a)

    def sv_contains(self, x):
        return interp.contains(x, self.index)

    def sv_getitem(self, k):
        k = force(k)
        if isinstance(k, PSeries) and k.a.dtype == 'bool':
            return self.filter(k)
        if isinstance(k, SArr) and k.dtype == 'bool':
            return self.filter(PSeries(k, self.index))
        if isinstance(k, slice):
            lo, ln = norm_slice(k, self.n)
            return self.rows(lo, ln)
        return self.get(label_pos(self.index, k))

    def sv_setitem(self, k, v):
        raise Unsupported('Series item store')

    def filter(self, mask):
        m = self.aligned(mask) if isinstance(mask, PSeries) else mask
        if m.dtype == 'obj':
            raise Unsupported('object mask')
        mg = frozen(m)
        sp, src = subset(self.space if m.space is self.space else m.space, lambda i: zraw(mg(i)))
        return PSeries(sel(self.a, sp, src), sel_index(self.index, sp, src), self.name)

    def rows(self, lo, ln):
        sp, src = slice_space(self.space, lo, ln)
        return PSeries(sel(self.a, sp, src), sel_index(self.index, sp, src), self.name)

    def sv_setattr(self, nm, v):
        mark_mutation(self)
        if nm == 'index':
            v = as_index(v, getattr(v, 'name', None)) if not is_index(v) else v
            if not truth(mkb(beq(v.n, self.n)), 'index length'):
                raise_py(ValueError, 'Length mismatch')
            self.index = v
            return
        if nm == 'name':
            self.name = v
            return
        raise Unsupported('Series.%s = ' % nm)

    def sv_getattr(self, nm):
        a = self.a
        if nm in ('values',):
            return a
        if nm == 'index':
            return self.index
        if nm == 'name':
            return self.name
        if nm == 'dtype':
            return lib_np.DType(a.dtype)
        if nm == 'size':
            return mki(self.n)
        if nm == 'shape':
            return (mki(self.n),)
        if nm == 'ndim':
            return 1
        if nm == 'empty':
            return mkb(beq(self.n, 0))
        if nm == 'iloc':
            return ILoc(self)
        if nm == 'loc':
            return Loc(self)
        if nm == 'dt':
            return DtAcc(self)
        if nm in SMETH:
            f = SMETH[nm]
            return meth(lambda *p, **k: f(self, *p, **k), 'Series.' + nm)
        if isinstance(self.index, SArr) and False:
            pass
        raise Unsupported('Series.%s' % nm)


import ast as _ast
_AST_INV, _AST_NEG = _ast.Invert(), _ast.USub()


def as_npfloat(x):
    return x


def soft_cmp(op, x, y):
    """comparison of column cells: equality of unlike kinds is False"""
    if isinstance(x, (MaybeNull, Cell)) or isinstance(y, (MaybeNull, Cell)):
        nul = bor(isnan(x), isnan(y))
        if op == '==':
            return band(bnot(nul), eq_soft(x, y))
        if op == '!=':
            return bor(nul, bnot(eq_soft(x, y)))
        vx = x.v if isinstance(x, MaybeNull) else x
        vy = y.v if isinstance(y, MaybeNull) else y
        return band(bnot(nul), zraw(scalar_cmp(op, vx, vy)))
    if op in ('==', '!='):
        if (is_str(x) and not is_str(y)) or (is_str(y) and not is_str(x)):
            return op == '!='
    return zraw(scalar_cmp(op, x, y))


def is_index(v):
    return isinstance(v, SArr) and v.kind in ('index', 'dtindex')


def slice_space(space, lo, ln):
    """child space of rows lo .. lo+ln-1"""
    if isinstance(lo, int) and lo == 0 and (ln is space.n or beq(ln, space.n) is True):
        return space, (lambda i: i)
    t = tab('slices').setdefault(space.uid, [])
    for l2, n2, sp in t:
        if beq(lo, l2) is True and beq(ln, n2) is True:
            return sp, sp.src
    sp = Space(ln, 'slice')

    def src(i):
        return add_i(i, lo)
    sp.src = src
    sp.links.append(lambda i, h: space.touch(src(i), h))
    t.append((lo, ln, sp))
    return sp, src


def label_pos(index, k):
    """position of a row label (unique index assumed to be checked by the caller's semantics)"""
    k = force(k)
    if getattr(index, 'is_range', False):
        z = zi(k) if is_num(k) and not is_float(k) else None
        if z is None:
            raise Unsupported('label %r' % (k,))
        if truth(mkb(band(iexpr(z) >= 0, iexpr(z) < index.n)), 'label present'):
            return z
        raise_py(KeyError, 'label')
    g = frozen(index)
    # the labels of a selection of a range index are positions in the root
    memo = tab('labelpos')
    for (uid, kk), (p, i2, k2) in memo.items():
        if uid == index.uid and (kk is k or provably(zb(cell_same(kk, k)))):
            return p
    if not truth(mkb(exists(index.space, lambda i: eq_soft(g(i), k), 'label')), 'label present'):
        raise_py(KeyError, 'label')
    p = C().fresh(I, 'lp')
    index.space.touch(p)
    C().assume(zb(band(index.space.in_range(p), eq_soft(g(p), k))))
    w = C().fresh(I, 'lq')
    index.space.touch(w)
    if not provably(z3.Implies(zb(band(index.space.in_range(w), w != p)), zb(bnot(eq_soft(g(w), k))))):
        raise Unsupported('label access with a possibly duplicated label')
    memo[(index.uid, k)] = (p, index, k)
    return p


class ILoc:
    def __init__(self, o):
        self.o = o

    def sv_getitem(self, k):
        o = self.o
        k = force(k)
        if isinstance(k, tuple):
            if len(k) == 2 and isinstance(o, PFrame):
                r = ILoc(o).sv_getitem(k[0])
                c = k[1]
                if isinstance(c, int) and isinstance(r, PRow):
                    return list(r.d.values())[c]
                if isinstance(c, int) and isinstance(r, PFrame):
                    return r.col(list(r.cols)[c])
            raise Unsupported('iloc tuple')
        if isinstance(k, slice):
            if k.step is not None and k.step == -1:
                raise Unsupported('iloc reverse')
            lo, ln = norm_slice(k, o.n)
            return o.rows(lo, ln)
        if isinstance(k, (list,)):
            k = arr(k)
        if hasattr(k, 'sv_arr'):
            k = k.sv_arr()
        if isinstance(k, SArr):
            if k.dtype == 'bool':
                return o.filter(k)
            n = o.n
            kg = frozen(k)
            bad = exists(k.space, lambda i: bor(zi(kg(i)) < -iexpr(n), zi(kg(i)) >= iexpr(n)), 'oob')
            if truth(mkb(bad), 'positional indexers out-of-bounds'):
                raise_py(IndexError, 'positional indexers are out-of-bounds')
            nonneg = provably(z3.BoolVal(True)) and provably_nonneg(k)

            def src(i):
                z = zi(kg(i))
                return z if nonneg else (z if isinstance(z, int) and z >= 0 else z3.If(iexpr(z) < 0, z + iexpr(n), iexpr(z)))
            sp = k.space
            if isinstance(o, PSeries):
                return PSeries(sel(o.a, sp, src), sel(o.index, sp, src), o.name)
            return o.select(sp, src)
        if isinstance(k, (SF, float)):
            raise_py(TypeError, 'Cannot index by location index with a non-integer key')
        p = check_index(k, o.n)
        if isinstance(o, PSeries):
            return o.get(p)
        return o.row(p)


def provably_nonneg(k):
    w = C().fresh(I, 'nn')
    k.space.touch(w)
    return provably(z3.Implies(zb(k.space.in_range(w)), zb(zi(k.get(w)) >= 0)))


class Loc:
    def __init__(self, o):
        self.o = o

    def sv_getitem(self, k):
        o = self.o
        k = force(k)
        if isinstance(k, tuple) and isinstance(o, PFrame):
            r, c = k
            r = force(r)
            if isinstance(r, slice) and r.start is None and r.stop is None:
                return o.sv_getitem(c)
            x = Loc(o).sv_getitem(r) if not is_scalar_label(r) else None
            if x is not None:
                return x.sv_getitem(c)
            p = label_pos(o.index, r)
            if isinstance(c, str):
                return o.cols_get(c).get(p)
            raise Unsupported('loc row, columns')
        if hasattr(k, 'sv_call') or isinstance(k, IFunc):
            k = call(k, [o], {})
        if isinstance(k, PSeries) or (isinstance(k, SArr) and k.dtype == 'bool'):
            if isinstance(k, PSeries) and k.a.dtype == 'obj':
                raise Unsupported('object mask')
            if isinstance(k, PSeries) and k.a.dtype != 'bool':
                raise Unsupported('loc with labels')
            return o.filter(k)
        if isinstance(k, slice):
            if k.start is None and k.stop is None:
                return o
            raise Unsupported('loc slice')
        p = label_pos(o.index, k)
        return o.get(p) if isinstance(o, PSeries) else o.row(p)

    def sv_setitem(self, k, v):
        o = self.o
        if isinstance(k, tuple) and isinstance(o, PFrame) and len(k) == 2 and isinstance(k[1], str):
            r, c = force(k[0]), k[1]
            if isinstance(r, PSeries):
                m = frozen(o.aligned(r))
                new = force(v)
                if isinstance(new, (SArr, PSeries)):
                    raise Unsupported('loc store of an array')
                old = o.cols_get(c)
                mark_mutation(o)
                dt = old.dtype if arrays.dtype_of_items([new]) == old.dtype or (old.dtype == 'float' and is_num(new)) else 'obj'
                if dt == 'obj' and isinstance(new, float) and new != new:
                    dt = nullable(old.dtype)
                g = frozen(old)
                o.cols[c] = SArr(o.space, lambda i: s_ite(zraw(m(i)), new if dt != 'float' else sf(new), g(i) if dt != 'float' else sf(g(i))), dt)
                return
        raise Unsupported('loc store')


def is_scalar_label(r):
    return is_num(r) or is_str(r) or isinstance(r, (ST, _dt.datetime))


class DtAcc:
    def __init__(self, s):
        self.s = s

    def sv_getattr(self, nm):
        s = self.s
        if s.a.dtype not in ('time', 'td'):
            raise_py(AttributeError, 'Can only use .dt accessor with datetimelike values')
        if s.a.dtype == 'td':
            if nm == 'days':
                nat = any_null(s.a)
                if nat:
                    return PSeries(ew(lambda d: SF(z3.ToReal(iexpr(lib_np.days_of(d))), d.nat), 'float', s.a), s.index, s.name)
                return PSeries(ew(lambda d: mki(lib_np.days_of(d)), 'int', s.a), s.index, s.name)
            raise Unsupported('dt.' + nm)
        r = index_attr(thaw2(s.a, 'dtindex'), nm)
        if isinstance(r, SArr):
            return PSeries(r, s.index, s.name)
        return meth(lambda *p: PSeries(arr(call(r, p, {})), s.index, s.name), 'dt.' + nm)


def any_null(a):
    """bool (branches): some value is null"""
    if a.dtype in ('int', 'bool', 'str'):
        return False
    w = C().fresh(I, 'an')
    a.space.touch(w)
    c = isnan(a.get(w))
    if c is False or (not C().cap_stack and provably(z3.Implies(zb(a.space.in_range(w)), zb(bnot(c))))):
        return False
    return truth(mkb(exists(a.space, lambda i: isnan(a.get(i)), 'anynull')), 'null present')


def s_astype(s, t, **k):
    return PSeries(astype(s.a, t), s.index, s.name)


def s_isnull(s):
    return PSeries(ew(lambda x: mkb(isnan(x)), 'bool', s.a), s.index, s.name)


def s_notnull(s):
    return PSeries(ew(lambda x: mkb(bnot(isnan(x))), 'bool', s.a), s.index, s.name)


def s_ext(op):
    def f(s, skipna=True, **k):
        if truth(mkb(beq(s.n, 0)), 'empty series'):
            return null_of(s.a.dtype)
        return extreme(s.a, op, 'nan' if s.a.dtype not in ('int', 'bool', 'str') else 'np')
    return f


def s_diff(s, periods=1):
    if periods != 1:
        raise Unsupported('diff periods')
    a = s.a
    g = frozen(a)
    if a.dtype == 'bool':
        raise Unsupported('diff of bool')
    dt = {'time': 'td', 'int': 'float'}.get(a.dtype, a.dtype)

    def fn(i):
        if isinstance(i, int):
            if i == 0:
                return null_of(dt)
            return conv(scalar_binop('-', g(i), g(i - 1)))
        prev = arrays.simp_i(i - 1)
        v = conv(scalar_binop('-', g(i), arrays.further(a.space, prev, g)))
        return s_ite(i == 0, null_of(dt), v)

    def conv(v):
        return sf(v) if dt == 'float' else v
    return PSeries(SArr(a.space, fn, dt), s.index, s.name)


def s_abs(s):
    a = s.a
    f = (lambda x: f_abs(x)) if a.dtype in ('float', 'int') else None
    if a.dtype == 'td':
        def f(x):
            return SD(z3.If(iexpr(x.z) < 0, -iexpr(x.z), iexpr(x.z)), x.nat)
    if f is None:
        raise Unsupported('abs')
    return PSeries(ew(f, a.dtype, a), s.index, s.name)


def s_shift(s, periods=1, **k):
    if periods != 1 or k:
        raise Unsupported('shift')
    a = s.a
    g = frozen(a)
    dt = nullable(a.dtype)
    ahead = set()

    def up(i, h):       # the row that shows the value of row i
        if h <= 3 and not C().scratch and not isinstance(i, int) and key_of(i) not in ahead:
            j = arrays.simp_i(i + 1)
            ahead.add(key_of(j))
            a.space.touch(j, h + 2)
    a.space.add_link(up)

    def fn(i):
        if isinstance(i, int):
            return null_of(dt) if i == 0 else (sf(g(i - 1)) if dt == 'float' else g(i - 1))
        prev = arrays.simp_i(i - 1)
        v = near(a.space, prev, g)
        return s_ite(i == 0, null_of(dt), sf(v) if dt == 'float' else v)
    return PSeries(SArr(a.space, fn, dt), s.index, s.name)


def fillna_cell(x, v):
    n = isnan(x)
    if n is False:
        return x
    if isinstance(x, MaybeNull):
        return s_ite(x.null, v, x.v)
    if isinstance(x, Cell):
        return s_ite(n, v, x)
    if is_float(x):
        v = sf(v)
        x = sf(x)
        return SF(ite(n, v.r, x.r), band(n, v.nan), ite(n, v.inf, x.inf))
    return s_ite(n, v, x)


def s_fillna(s, value=None, method=None, **k):
    a = s.a
    if k:
        raise Unsupported('fillna options')
    if method is None:
        value = force(value)
        if isinstance(value, (PSeries,)):
            other = s.aligned(value)
            return PSeries(ew(fillna_cell, a.dtype, a, other), s.index, s.name)
        if isinstance(value, str) and a.dtype == 'float':
            raise Unsupported('fillna string')
        dt = a.dtype
        r = ew(lambda x: fillna_cell(x, value), dt, a)
        if dt == 'obj' and is_bool(value):
            r.fill_bool = True
        return PSeries(r, s.index, s.name)
    if method not in ('ffill', 'bfill', 'pad', 'backfill'):
        raise Unsupported('fillna method')
    fwd = method in ('ffill', 'pad')
    g = frozen(a)
    prior = getattr(a, 'ffilled', None)
    if not fwd and prior is not None and not was_mutated(a):
        # after a forward fill only leading nulls are left: they take the first value of all
        g0, src0 = prior
        F = C().fresh(I, 'firstval')
        a.space.touch(F, C().hop + 1)
        C().assume(z3.And(F >= 0, F <= iexpr(a.n), z3.Implies(zb(a.space.in_range(F)), zb(bnot(isnan(g0(F)))))))
        a.space.add_fact(lambda j: z3.Implies(zb(j < F), zb(isnan(g0(j)))))
        none0 = F == iexpr(a.n)

        def fn0(i):
            r = src0(i)
            return s_ite(r == -1, s_ite(none0, null_of(a.dtype), near(a.space, F, g0)), near(a.space, r, g0))
        return PSeries(SArr(a.space, fn0, a.dtype), s.index, s.name)
    f = C().fn('ffill', I, I)
    memo = {}

    # src(i): position of the nearest non-null value at or before (after) i; out of range when there is none
    def src(i):
        k = key_of(i)
        if k in memo:
            return memo[k][0]
        r = f(iexpr(i))
        memo[k] = (r, i)
        memo.setdefault(key_of(r), (r, r))
        n = a.n
        a.space.touch(r, C().hop + 1)
        C().assume(z3.Implies(zb(a.space.in_range(i)), zb(band(
            r <= i if fwd else r >= i,
            bor(r == -1 if fwd else r == n, band(r >= 0, r < n, bnot(isnan(g(r))))),
            z3.Implies(zb(bnot(isnan(g(i)))), r == i)))))
        ii = i

        def nofact(j):
            between = band(j > r, j <= ii) if fwd else band(j < r, j >= ii)
            return z3.Implies(zb(band(between, a.space.in_range(ii))), zb(isnan(g(j))))
        a.space.add_fact(nofact)
        return r

    def fn(i):
        r = src(i)
        none = (r == -1) if fwd else (r == a.n)
        return s_ite(none, null_of(a.dtype), g(r))
    out = PSeries(SArr(a.space, fn, a.dtype), s.index, s.name)
    out.fill_src = src
    if fwd:
        out.a.ffilled = (g, src)
    return out


def s_drop_duplicates(s, keep='first', **k):
    if k:
        raise Unsupported('drop_duplicates options')
    if s.a.concrete() and s.a.n <= 8 and s.a.dtype == 'obj' and all(isinstance(x, IObj) for x in s.a.tolist()):
        xs, kept = s.a.tolist(), []
        order = range(len(xs)) if keep == 'first' else range(len(xs) - 1, -1, -1)
        for i in order:
            if not any(truth(mkb(zb(same_key(xs[j], xs[i]))), 'duplicate') for j in kept):
                kept.append(i)
        kept.sort()
        sp = arrays.Space(len(kept), 'dedup')
        src = lambda i: arrays.pick(kept, i)
        return PSeries(SArr.of([xs[i] for i in kept], 'obj'), sel_index(s.index, sp, src), s.name)
    by = getattr(s, 'sorted_by', None)
    if by is not None and by[2] is s.a and not was_mutated(s.a) and not was_mutated(by[0]):
        # distinct values of a series sorted by itself, straight over the unsorted rows: which one of several equal
        # rows is kept is left open, which covers both stable and unstable sorting
        sp = distinct_space(by[0].space, by[0])
        return PSeries(sel(by[0], sp, sp.src), sel_index(by[1], sp, sp.src), s.name)
    cond = is_first(s.space, [s.a]) if keep == 'first' else last_rep_cond(s.space, [s.a])
    sp, src = subset(s.space, cond, 'dedup')
    return PSeries(sel(s.a, sp, src), sel_index(s.index, sp, src), s.name)


def distinct_space(parent, key):
    """the distinct values of key, in increasing order (null last)"""
    t = tab('distinct').setdefault(parent.uid, [])
    for k, sp in t:
        if arrays.same_content(k, key):
            return sp
    ctx = C()
    n = ctx.fresh(I, 'nd')
    fs, fr = ctx.fn('dsrc', I, I), ctx.fn('drank', I, I)
    g = frozen(key)
    ctx.assume(zb(band(n >= 0, n <= parent.n, beq(beq_(n, 0), beq_(parent.n, 0)))))
    sp = arrays.Space(n, 'distinct')
    back, fwd = {}, {}

    def src(i):
        k = key_of(i)
        if k not in back:
            v = fs(iexpr(i))
            back[k] = (v, i)
            fwd[key_of(v)] = (iexpr(i), v)
        return back[k][0]

    def rank(v):
        k = key_of(v)
        if k not in fwd:
            fwd[k] = (fr(iexpr(v)), v)
        return fwd[k][0]

    def fact(i):
        v = src(i)
        return band(v >= 0, v < parent.n, fr(v) == iexpr(i))
    sp.add_fact(fact)
    sp.add_pair_fact(lambda i, j: zb(i < j) == zb(lt_cells(g(src(i)), g(src(j)))))
    sp.links.append(lambda i, h: parent.touch(src(i), h))

    def up(v, h):
        r = rank(v)
        if key_of(r) in back and back[key_of(r)][0] is v:
            return
        sp.touch(r, h)
        C().assume(z3.Implies(zb(parent.in_range(v)), zb(band(r >= 0, r < n, same_key(g(src(r)), g(v))))))
    parent.add_link(up)
    sp.src, sp.rank = src, rank
    sp.distinct_of = (parent, thaw2(key))
    t.append((thaw2(key), sp))
    return sp


def nullable_key(a):
    """bool: a null key cannot be excluded"""
    if a.dtype in ('int', 'bool', 'str'):
        return False
    w = C().fresh(I, 'nk')
    with arrays.scratch():
        a.space.touch(w)
        c = isnan(a.get(w))
    return not (c is False or provably(z3.Implies(zb(a.space.in_range(w)), zb(bnot(c)))))


def beq_(a, b):
    r = beq(a, b)
    return zb(r)


def s_duplicated(s, keep='first'):
    if keep != 'first':
        raise Unsupported('duplicated keep')
    c = is_first(s.space, [s.a])
    return PSeries(SArr(s.space, lambda i: mkb(bnot(c(i))), 'bool'), s.index, s.name)


def nunique_of(s, ok, g):
    """number of different values among the rows ok: 0 iff there is no such row, at most 1 iff they all agree, at most the number of rows"""
    ctx, sp = C(), s.space
    n, w, u, v = [ctx.fresh(I, b) for b in ('nu', 'some', 'one', 'two')]
    for i in (w, u, v):
        sp.touch(i)
    inn = lambda i: band(sp.in_range(i), ok(i))
    ctx.assume(z3.And(n >= 0, n <= iexpr(sp.n)))
    ctx.assume(z3.Implies(n >= 1, zb(inn(w))))
    ctx.assume(z3.Implies(n >= 2, zb(band(inn(u), inn(v), bnot(same_key(g(u), g(v)))))))
    sp.add_fact(lambda i: z3.Implies(zb(ok(i)), z3.And(n >= 1, z3.Implies(n <= 1, zb(same_key(g(i), g(w)))))))
    return mki(n)


def s_nunique(s, dropna=True):
    g = frozen(s.a)
    if not (isinstance(s.space.n, int) and s.space.n <= 6):
        return nunique_of(s, (lambda i: bnot(isnan(g(i)))) if dropna else (lambda i: True), g)
    c = is_first(s.space, [s.a])
    sp, src = subset(s.space, lambda i: band(c(i), bnot(isnan(g(i)))) if dropna else c(i), 'nunique')
    for q in (0, 1):
        sp.touch(q)
    return mki(sp.n)


def s_unique(s):
    c = is_first(s.space, [s.a])
    sp, src = subset(s.space, c, 'unique')
    return sel(s.a, sp, src)


def s_isin(s, values):
    f = membership(need_arr(values) if not hasattr(force(values), 'sv_member') else force(values))
    return PSeries(ew(lambda x: mkb(f(x)), 'bool', s.a), s.index, s.name)


def s_sort_values(s, ascending=True, **k):
    if k or ascending is not True:
        raise Unsupported('sort_values options')
    r = s.order(sort_perm(s.space, [s.a], False))
    r.sorted_by = (s.a, s.index, r.a)
    return r


def order(self, sp):
    return PSeries(sel(self.a, sp, sp.src), sel_index(self.index, sp, sp.src), self.name)


PSeries.order = order


def sort_perm(space, keys, stable):
    t = tab('sorts').setdefault(space.uid, [])
    for ks, st, sp in t:
        if st == stable and len(ks) == len(keys) and all(arrays.same_content(a, b) for a, b in zip(ks, keys)):
            return sp
    gs = [frozen(k) for k in keys]

    def less(i, j):
        r = False
        for g in reversed(gs):
            a, b = g(i), g(j)
            if r is False:
                r = lt_cells(a, b)
            else:
                r = bor(lt_cells(a, b), band(bnot(lt_cells(b, a)), r))
        return r
    if isinstance(space.n, int) and space.n <= 4 and not C().cap_stack:
        rows = []
        for i in range(space.n):        # insertion sort, one path per order; ties of an unstable sort go either way
            k = len(rows)
            while k > 0:
                b = rows[k - 1]
                if not truth(mkb(less(i, b)), 'sorts before'):
                    if stable or truth(mkb(less(b, i)), 'sorts after') or not C().branch(C().fresh(B, 'tie'), 'order of equal keys'):
                        break
                k -= 1
            rows.insert(k, i)
        sp = space if rows == list(range(space.n)) else arrays.select_space(space, rows, 'sort')
        if sp is space:
            sp = arrays.Space(space.n, 'sort')
            sp.parent, sp.src, sp.rank = space, (lambda i: i), (lambda i: i)
            sp.forward = lambda v: (True, v)
    else:
        sp = perm_space(space, less, 'sort', stable)
    t.append(([thaw2(k) for k in keys], stable, sp))
    return sp


def s_reset_index(s, drop=False, name=None, **k):
    if drop:
        return PSeries(thaw2(s.a), range_index(s.space), s.name)
    f = PFrame(s.space, {s.index.name or 'index': index_values(s.index), (name or s.name) if (name or s.name) is not None else 0: thaw2(s.a)})
    return f


def index_values(ix):
    r = thaw2(ix, 'nd')
    r.name = None
    return r


def s_rename(s, index=None, **k):
    if k:
        raise Unsupported('Series.rename')
    return PSeries(s.a, s.index, index)


def s_rename_axis(s, nm, **k):
    ix = thaw2(s.index)
    ix.name = nm
    if getattr(s.index, 'is_range', False):
        ix.is_range = True
    return PSeries(s.a, ix, s.name)


def s_to_frame(s, name=None):
    return PFrame(s.space, {name if name is not None else (s.name if s.name is not None else 0): thaw2(s.a)}, s.index)


def s_pipe(s, f, *a, **k):
    return call(f, [s] + list(a), k)


def s_where(s, cond, other=NAN):
    c = s.aligned(cond) if isinstance(cond, PSeries) else arr(cond)
    other = force(other)
    o = s.aligned(other) if isinstance(other, PSeries) else other
    dt = s.a.dtype
    if not isinstance(o, SArr) and isinstance(o, float) and o != o:
        dt = nullable(dt)
    f = (lambda x, m, y: s_ite(zraw(m), sf(x) if dt == 'float' else x, sf(y) if dt == 'float' else y))
    return PSeries(ew(f, dt, s.a, c, o), s.index, s.name)


def s_head(s, n=5):
    return hd(s, n)


def hd(o, n):
    lo, ln = norm_slice(slice(None, n), o.n)
    return o.rows(lo, ln)


def tl(o, n):
    n = force(n)
    if interp.truth(mkb(beq(zi(n), 0)), 'tail 0') if not isinstance(n, int) else n == 0:
        return o.rows(0, 0)
    lo, ln = norm_slice(slice(interp.unop(_AST_NEG, n), None), o.n)
    return o.rows(lo, ln)


def may_be_inf(v):
    return isinstance(v, SF) and not (isinstance(v.inf, int) and v.inf == 0) and not (z3.is_expr(v.inf) and z3.is_int_value(v.inf) and v.inf.as_long() == 0)


def s_idx(op):
    def f(s):
        g = frozen(s.a)
        if truth(mkb(beq(s.n, 0)), 'empty'):
            raise_py(ValueError, 'attempt to get argmin of an empty sequence')
        if not truth(mkb(exists(s.space, lambda i: bnot(isnan(g(i))), 'some')), 'some non-null'):
            return NAN

        def make():
            w = C().fresh(I, 'idx')
            s.space.touch(w)
            if may_be_inf(g(w)):
                # pandas replaces nulls by the worst value (+inf for idxmin) and takes the first extreme position
                C().assume(zb(s.space.in_range(w)))
                worst = SF(z3.RealVal(0), False, z3.IntVal(1 if op == '<' else -1))
                h = lambda i: s_ite(isnan(g(i)), worst, g(i))
                s.space.add_fact(lambda i: band(
                    bnot(zraw(scalar_cmp(op, h(i), h(w)))), z3.Implies(zb(zraw(scalar_cmp('==', h(i), h(w)))), w <= i)))
                return w
            C().assume(zb(band(s.space.in_range(w), bnot(isnan(g(w))))))
            s.space.add_fact(lambda i: bor(isnan(g(i)), band(
                bnot(zraw(scalar_cmp(op, g(i), g(w)))), z3.Implies(zb(zraw(scalar_cmp('==', g(i), g(w)))), w <= i))))
            return w
        w = reduction(('idx', op), s.a, make)
        return s.index.get(w)
    return f


def s_first_valid_index(s):
    g = frozen(s.a)
    if not truth(mkb(exists(s.space, lambda i: bnot(isnan(g(i))), 'some')), 'some non-null'):
        return None

    def make():
        w = C().fresh(I, 'fvi')
        s.space.touch(w)
        C().assume(zb(band(s.space.in_range(w), bnot(isnan(g(w))))))
        s.space.add_fact(lambda i: bor(isnan(g(i)), w <= i))
        return w
    return s.index.get(reduction('fvi', s.a, make))


def s_quantile(s, q=0.5):
    """quantile of the non-null values: between two of them, monotone in q"""
    g = frozen(s.a)
    q = force(q)
    t = reduction('quant', s.a, lambda: {'qs': [], 'f': C().fn('quant', R, R), 'none': bnot(exists(s.space, lambda i: bnot(isnan(g(i))), 'qsome'))})
    qr = sf(q).r
    f, none = t['f'], t['none']
    for key, v in t['qs']:
        if provably(zb(beq(key, qr))):
            return v
    lo, hi = C().fresh(I, 'qlo'), C().fresh(I, 'qhi')
    for w, o in ((lo, '<='), (hi, '>=')):
        s.space.touch(w)
        x = sf(g(w))
        C().assume(z3.Implies(zb(bnot(none)), zb(band(s.space.in_range(w), bnot(x.nan), x.r <= f(qr) if o == '<=' else x.r >= f(qr)))))
    for q2, v in t['qs']:
        C().assume(z3.Implies(zb(qr <= q2), f(qr) <= f(q2)))
        C().assume(z3.Implies(zb(q2 <= qr), f(q2) <= f(qr)))
    v = SF(f(qr), none)
    t['qs'].append((qr, v))
    return v


def s_sample(s, n=None, replace=False, **k):
    if replace is not True or k:
        raise Unsupported('sample without replacement')
    n = zi(force(n))
    if truth(mkb(band(beq(s.n, 0), bnot(beq(n, 0)))), 'sample from empty'):
        raise_py(ValueError, "a must be greater than 0 unless no samples are taken")
    f = C().fn('sample', I, I)
    sp = Space(n, 'sample')
    sn = iexpr(s.n)

    def src(i):
        r = f(iexpr(i))
        C().assume(z3.Implies(zb(sp.in_range(i)), z3.And(r >= 0, r < sn)))
        return r
    return PSeries(sel(s.a, sp, src), sel(s.index, sp, src), s.name)


def s_reduce(nm):
    def f(s, *a, **k):
        if nm == 'mean':
            return mean_of(s.a, True)
        if nm == 'sum':
            return lib_np.sym_sum(s.a, 'nansum', True) if not isinstance(s.a.n, int) else lib_np.np_nansum(s.a)
        return lib_np.NP[nm].fn(s.a)
    return f


def s_any(s):
    return lib_np.NP['any'].fn(s.a)


def s_all(s):
    return lib_np.NP['all'].fn(s.a)


def s_copy(s, **k):
    return PSeries(thaw2(s.a), s.index, s.name)


def s_tolist(s):
    l = iterate(s.a)
    if l is None:
        return SymSeq(s.space, frozen(s.a))
    return l


def s_dropna(s):
    return s.filter(s_notnull(s))


def on_line(p, q, ip, iq, i):
    """height at position i of the straight line from (ip, p) to (iq, q), ip < i < iq: a symbol, with the facts that it
    lies between p and q and that it has the slope of the line when that slope is one of SLOPES"""
    ip, iq, i = iexpr(ip), iexpr(iq), iexpr(i)
    r = UF('on_line', R, R, I, I, I, R)(p, q, ip, iq, i)
    seen = tab('on_line')
    if r.get_id() not in seen:
        seen[r.get_id()] = r
        inside = z3.And(ip < i, i < iq)
        C().assume(z3.Implies(inside, z3.And(z3.Implies(p < q, z3.And(p < r, r < q)), z3.Implies(q < p, z3.And(q < r, r < p)),
                                             z3.Implies(p == q, r == p))))
        for c in SLOPES:
            C().assume(z3.Implies(z3.And(inside, q - p == z3.ToReal(c * (iq - ip))), r == p + z3.ToReal(c * (i - ip))))
    return r


SLOPES = (1, 7)


def s_interpolate(s, **k):
    """linear interpolation of gaps: non-null values are kept; a null between two values lies on the line through the nearest
    ones; nulls after the last value repeat it; nulls before the first stay"""
    if k:
        raise Unsupported('interpolate options')
    a = s.a
    g = frozen(a)
    if a.dtype in ('int', 'bool', 'str', 'time'):
        return s_copy(s)
    for i in (0, arrays.simp_i(iexpr(a.n) - 1)):
        a.space.touch(i)
    w = C().fresh(I, 'gap')
    a.space.touch(w)
    if not C().cap_stack and C().check(zb(band(a.space.in_range(w), isnan(g(w)))), ms=1500)[0] == z3.unsat:
        return s_copy(s)        # no gaps
    pv, nx = s_fillna(s, method='ffill'), s_fillna(s, method='bfill')
    back, ahead = pv.fill_src, nx.fill_src
    pv, nx = pv.a, nx.a

    def fn(i):
        x, p, q = sf(g(i)), sf(pv.get(i)), sf(nx.get(i))
        n = isnan(x)
        both = band(bnot(p.nan), bnot(q.nan))
        line = on_line(p.r, q.r, iexpr(back(i)), iexpr(ahead(i)), iexpr(i))
        r = ite(both, line, p.r)
        return SF(ite(n, r, x.r), band(n, p.nan), ite(n, ite(both, 0, p.inf), x.inf) if not (isinstance(x.inf, int) and x.inf == 0) else 0)
    return PSeries(SArr(a.space, fn, 'float'), s.index, s.name)


class Rolling:
    def __init__(self, s, window, center):
        self.s, self.w, self.center = s, window, center

    def sv_getattr(self, nm):
        if nm == 'max':
            return meth(self.max, 'Rolling.max')
        raise Unsupported('rolling.' + nm)

    def max(self):
        s, w = self.s, self.w
        if not isinstance(w, int) or not self.center:
            raise Unsupported('rolling window')
        g = frozen(s.a)
        h = w // 2
        lo_off, hi_off = -(w - 1 - (w - 1) // 2) , (w - 1) // 2
        if w % 2 == 0:
            raise Unsupported('even rolling window')
        lo_off, hi_off = -h, h

        def fn(i):
            v = None
            full = True
            for d in range(lo_off, hi_off + 1):
                j = add_i(i, d) if isinstance(i, int) else arrays.simp_i(i + d)
                full = band(full, iexpr(j) >= 0, iexpr(j) < iexpr(s.n))
                s.space.touch(j, C().hop + 1)
                x = sf(g(j))
                full = band(full, bnot(x.nan))
                v = x if v is None else s_ite(zraw(scalar_cmp('>', x, v)), x, v)
            return SF(v.r, bnot(full), 0)
        return PSeries(SArr(s.space, fn, 'float'), s.index, s.name)


def s_rolling(s, window, win_type=None, center=False, **k):
    return Rolling(s, window, center)


def s_cumsum(s):
    return PSeries(lib_np.np_cumsum(s.a), s.index, s.name)


def s_nlargest(s, n=5, keep='first'):
    f = PFrame(s.space, {'v': s.a}, s.index)
    return f_nlargest(f, n, 'v').col('v')


def s_to_numpy(s, **k):
    return s.a


def s_round(s, nd=0):
    raise Unsupported('round')


def s_corr(s, other):
    return SF(C().fresh(R, 'corr'), C().fresh(B, 'corr_nan'))


def s_groupby(s, *a, **k):
    raise Unsupported('Series.groupby')


def s_map(s, f):
    raise Unsupported('Series.map')


SMETH = dict(astype=s_astype, isnull=s_isnull, isna=s_isnull, notnull=s_notnull, notna=s_notnull, min=s_ext('<'), max=s_ext('>'),
             diff=s_diff, abs=s_abs, shift=s_shift, fillna=s_fillna, drop_duplicates=s_drop_duplicates, duplicated=s_duplicated,
             nunique=s_nunique, unique=s_unique, isin=s_isin, sort_values=s_sort_values, reset_index=s_reset_index, rename=s_rename,
             rename_axis=s_rename_axis, to_frame=s_to_frame, pipe=s_pipe, where=s_where, head=s_head, tail=lambda s, n=5: tl(s, n),
             idxmin=s_idx('<'), idxmax=s_idx('>'), first_valid_index=s_first_valid_index, quantile=s_quantile, sample=s_sample,
             mean=s_reduce('mean'), sum=s_reduce('sum'), any=s_any, all=s_all, copy=s_copy, tolist=s_tolist, to_list=s_tolist,
             dropna=s_dropna, reindex=lambda *a, **k: s_reindex(*a, **k), interpolate=s_interpolate, rolling=s_rolling, cumsum=s_cumsum, nlargest=s_nlargest, to_numpy=s_to_numpy,
             corr=s_corr, ffill=lambda s: s_fillna(s, method='ffill'), bfill=lambda s: s_fillna(s, method='bfill'))
SERIES_ATTRS = set(SMETH) | {'values', 'index', 'name', 'size', 'shape', 'iloc', 'loc', 'dt'}


# ---------------------------------------------------------------- DataFrame

class PRow:
    """one row of a frame (a Series over the columns)"""

    def __init__(self, d):
        self.d = d

    def sv_getattr(self, nm):
        if nm in self.d:
            return self.d[nm]
        if nm == 'index':
            return list(self.d)
        raise Unsupported('row.' + nm)

    def sv_getitem(self, k):
        if isinstance(k, str) and k in self.d:
            return self.d[k]
        raise_py(KeyError, k)


class Columns:
    def __init__(self, names):
        self.names = list(names)

    def sv_contains(self, x):
        x = force(x)
        if isinstance(x, SS):
            return interp.contains(x, self.names)
        return x in self.names

    def sv_iter(self):
        return list(self.names)

    def sv_len(self):
        return len(self.names)

    def sv_getattr(self, nm):
        if nm in ('tolist', 'to_list'):
            return meth(lambda: list(self.names), 'Index.tolist')
        if nm == 'values':
            return list(self.names)
        if nm == 'size':
            return len(self.names)
        if nm == 'difference':
            return meth(lambda o: Columns(sorted(set(self.names) - set(iterate(o)))), 'Index.difference')
        raise Unsupported('columns.' + nm)

    def sv_getitem(self, k):
        if isinstance(k, (int, slice)):
            return self.names[k]
        raise Unsupported('columns[]')


class PFrame:
    ndim = 2

    def __init__(self, space, cols, index=None):
        self.space = space
        self.cols = dict(cols)
        self.index = index if index is not None else range_index(space)
        self.attrs_ = {}

    def __repr__(self):
        return 'Frame[%s](%s)' % (self.space.n, ', '.join(map(str, self.cols)))

    @property
    def n(self):
        return self.space.n

    def col(self, c):
        a = self.cols_get(c)
        return PSeries(a, self.index, c)

    def cols_get(self, c):
        if c not in self.cols:
            raise_py(KeyError, c)
        a = self.cols[c]
        return a

    def sv_snapshot(self):
        c, i, s = dict(self.cols), self.index, self.space

        def undo():
            self.cols, self.index, self.space = c, i, s
        return undo

    def select(self, sp, src):
        return PFrame(sp, {c: sel(a, sp, src) for c, a in self.cols.items()}, sel_index(self.index, sp, src))

    def rows(self, lo, ln):
        sp, src = slice_space(self.space, lo, ln)
        return self.select(sp, src)

    def row(self, p):
        return PRow({c: a.get(p) for c, a in self.cols.items()})

    def aligned(self, s):
        return PSeries(SArr(self.space, lambda i: 0, 'int'), self.index).aligned(s)

    def assigned(self, s):
        """a series assigned as a column: rows whose label it lacks become null"""
        try:
            return self.aligned(s)
        except Unsupported:
            o = s.space
            if not getattr(self.index, 'is_range', False) or getattr(o, 'froot', None) is not self.space:
                raise
            w = C().fresh(I, 'al')
            o.touch(w)
            lab = s.index.get(w)
            if not provably(z3.Implies(zb(o.in_range(w)), zb(cell_same(lab, mki(o.src(w)))))):
                raise
            g = frozen(s.a)
            nd = nullable(s.a.dtype)
            cond, rank = o.fcond, o.rank

            def fn(i):
                v = arrays.further(o, rank(i), g)
                return s_ite(cond(i), sf(v) if nd == 'float' else v, null_of(nd))
            return SArr(self.space, fn, nd)

    def filter(self, mask):
        m = self.aligned(mask) if isinstance(mask, PSeries) else mask
        if isinstance(m, SArr) and not truth(mkb(beq(m.n, self.n)), 'mask length'):
            raise_py(ValueError, 'Item wrong length')
        if m.dtype == 'obj':
            raise Unsupported('object mask')
        mg = frozen(m)
        sp, src = subset(self.space if m.space is self.space else self.space, lambda i: zraw(mg(i)))
        return self.select(sp, src)

    def copy(self, **k):
        ix = self.index
        return PFrame(self.space, {c: thaw2(a, 'nd') for c, a in self.cols.items()}, ix)

    def sv_getitem(self, k):
        k = force(k)
        if isinstance(k, str):
            return self.col(k)
        if isinstance(k, SS):
            for c in self.cols:
                if truth(eq(c, k), 'column name'):
                    return self.col(c)
            raise_py(KeyError, k)
        if isinstance(k, (list, Columns)):
            names = [force(x) for x in (k if isinstance(k, list) else k.names)]
            if all(isinstance(x, str) for x in names):
                for c in names:
                    if c not in self.cols:
                        raise_py(KeyError, c)
                return PFrame(self.space, {c: thaw2(self.cols[c], 'nd') for c in names}, self.index)
            raise Unsupported('frame[list]')
        if isinstance(k, PSeries) or (isinstance(k, SArr) and k.dtype == 'bool'):
            return self.filter(k)
        if isinstance(k, slice):
            lo, ln = norm_slice(k, self.n)
            return self.rows(lo, ln)
        raise Unsupported('frame[%r]' % type(k))

    def sv_setitem(self, k, v):
        k, v = force(k), force(v)
        if isinstance(k, SS):
            raise Unsupported('symbolic column name')
        if not isinstance(k, str):
            raise Unsupported('frame store %r' % (k,))
        a = self.as_col(v)
        mark_mutation(self)
        self.cols[k] = a

    def as_col(self, v):
        v = force(v)
        if isinstance(v, PFrame):
            if len(v.cols) != 1:
                raise_py(ValueError, 'Columns must be same length as key')
            v = v.col(list(v.cols)[0])
        if isinstance(v, PSeries):
            # columns of an empty frame-with-range-index are aligned by label
            return thaw2(self.assigned(v), 'nd')
        if isinstance(v, (list, tuple, SymSeq)):
            v = arr(list(v) if isinstance(v, tuple) else v)
        if isinstance(v, SArr):
            if not truth(mkb(beq(v.n, self.n)), 'column length'):
                raise_py(ValueError, 'Length of values does not match length of index')
            g = frozen(v)
            return SArr(self.space, g, v.dtype)
        if isinstance(v, (SMat,)):
            raise Unsupported('matrix column')
        if isinstance(v, _dt.datetime):
            v = time_of(v)
        dt = arrays.dtype_of_items([v])
        return SArr(self.space, lambda i: v, dt)

    def sv_delitem(self, k):
        mark_mutation(self)
        if k not in self.cols:
            raise_py(KeyError, k)
        del self.cols[k]

    def sv_contains(self, x):
        return Columns(self.cols).sv_contains(x)

    def sv_len(self):
        return mki(self.n)

    def sv_iter(self):
        return list(self.cols)

    def sv_truth(self):
        raise_py(ValueError, 'The truth value of a DataFrame is ambiguous')

    def sv_arrop(self, op, other, refl):
        raise Unsupported('frame arithmetic')

    def sv_arrcmp(self, op, other):
        if isinstance(other, PFrame) or other is None or is_num(other) or is_str(other):
            raise Unsupported('frame comparison')
        return NotImplemented

    def sv_setattr(self, nm, v):
        if nm == 'index':
            mark_mutation(self)
            v = v if is_index(v) else as_index(v)
            if not truth(mkb(beq(v.n, self.n)), 'index length'):
                raise_py(ValueError, 'Length mismatch')
            self.index = v
            return
        if nm == 'columns':
            mark_mutation(self)
            names = iterate(v)
            if len(names) != len(self.cols):
                raise_py(ValueError, 'Length mismatch')
            self.cols = dict(zip(names, self.cols.values()))
            return
        if nm in self.cols:
            return self.sv_setitem(nm, v)
        raise Unsupported('frame.%s = ' % nm)

    def sv_getattr(self, nm):
        if nm == 'columns':
            return Columns(self.cols)
        if nm == 'index':
            return self.index
        if nm == 'empty':
            if not self.cols:
                return True
            return mkb(beq(self.n, 0))
        if nm == 'shape':
            return (mki(self.n), len(self.cols))
        if nm == 'size':
            return mki(arrays.simp_i(iexpr(self.n) * len(self.cols)))
        if nm == 'ndim':
            return 2
        if nm == 'loc':
            return Loc(self)
        if nm == 'iloc':
            return ILoc(self)
        if nm in FMETH:
            f = FMETH[nm]
            return meth(lambda *p, **k: f(self, *p, **k), 'DataFrame.' + nm)
        if nm in self.cols:
            return self.col(nm)
        if nm == 'values':
            if len(self.cols) == 1:
                return SMat(self.n, 1, lambda i, j: list(self.cols.values())[0].get(i))
            raise Unsupported('frame.values')
        if nm in ('to_csv', 'to_string', 'describe', 'info', 'apply', 'iterrows', 'itertuples', 'pivot', 'melt', 'tz_localize'):
            raise Unsupported('frame.' + nm)
        raise_py(AttributeError, "'DataFrame' object has no attribute '%s'" % nm)


def f_apply_cols(fn):
    def f(self, *a, **k):
        return PFrame(self.space, {c: fn(self.col(c), *a, **k).a for c in self.cols}, self.index)
    return f


def f_copy(self, deep=True):
    return self.copy()


def mapper(d):
    if isinstance(d, IDict):
        if d.sym:
            raise Unsupported('symbolic rename')
        return dict(d)
    return d


def f_rename(self, mapper_=None, axis=None, columns=None, copy=True, **k):
    if k:
        raise Unsupported('rename options')
    m = columns if columns is not None else mapper_
    if columns is None and axis not in (1, 'columns'):
        raise Unsupported('rename of the index')
    m = mapper(m)
    new = {}
    for c, a in self.cols.items():
        nc = m.get(c, c) if isinstance(m, dict) else call(m, [c], {})
        if nc in new:
            raise Unsupported('rename produces a duplicate column')
        new[nc] = thaw2(a, 'nd')
    return PFrame(self.space, new, self.index)


def f_drop(self, labels=None, axis=0, columns=None, errors='raise', **k):
    if columns is None:
        if axis not in (1, 'columns'):
            raise Unsupported('drop rows')
        columns = labels
    names = [columns] if isinstance(columns, str) else iterate(columns)
    new = dict(self.cols)
    for c in names:
        if c not in new:
            if errors == 'ignore':
                continue
            raise_py(KeyError, c)
        del new[c]
    return PFrame(self.space, {c: thaw2(a, 'nd') for c, a in new.items()}, self.index)


def f_assign(self, **k):
    r = self.copy()
    for c, v in k.items():
        v = call(v, [r], {}) if isinstance(v, (IFunc, interp.Bound)) else v
        r.cols[c] = r.as_col(v)
    return r


def f_reset_index(self, level=None, drop=False, inplace=False, **k):
    if inplace or level is not None:
        raise Unsupported('reset_index options')
    new = {}
    if not drop:
        nm = self.index.name or ('index' if 'index' not in self.cols else 'level_0')
        if nm in self.cols:
            raise_py(ValueError, 'cannot insert %s, already exists' % nm)
        new[nm] = index_values(self.index)
    new.update({c: thaw2(a, 'nd') for c, a in self.cols.items()})
    return PFrame(self.space, new, range_index(self.space))


def f_set_index(self, keys, drop=True, **k):
    if not isinstance(keys, str):
        raise Unsupported('set_index of several columns')
    if keys not in self.cols:
        raise_py(KeyError, keys)
    ix = as_index(self.cols[keys], keys)
    return PFrame(self.space, {c: thaw2(a, 'nd') for c, a in self.cols.items() if c != keys}, ix)


def f_rename_axis(self, nm, **k):
    ix = thaw2(self.index)
    ix.name = nm
    if getattr(self.index, 'is_range', False):
        ix.is_range = True
    return PFrame(self.space, self.cols, ix)


def keycols(self, by):
    names = [by] if isinstance(by, str) else list(iterate(by))
    out = []
    for c in names:
        if c not in self.cols:
            raise_py(KeyError, c)
        out.append(self.cols[c])
    return names, out


def f_sort_values(self, by, ascending=True, **k):
    if k.pop('axis', 0) != 0 or k or ascending is not True:
        raise Unsupported('sort_values options')
    names, ks = keycols(self, by)
    sp = sort_perm(self.space, ks, len(ks) > 1)
    return self.select(sp, sp.src)


def f_drop_duplicates(self, subset_=None, keep='first', **k):
    if 'subset' in k:
        subset_ = k.pop('subset')
    if k:
        raise Unsupported('drop_duplicates options')
    names, ks = keycols(self, subset_ if subset_ is not None else list(self.cols))
    if keep == 'first':
        sp, src = first_rows(self.space, ks)
        return self.select(sp, src)
    cond = last_rep_cond(self.space, ks)
    sp, src = subset(self.space, cond, 'dedup')
    return self.select(sp, src)


def f_nlargest(self, n, columns, keep='first'):
    n = force(n)
    if not isinstance(n, int) or keep != 'first':
        raise Unsupported('nlargest')
    c = columns if isinstance(columns, str) else iterate(columns)[0]
    a = self.cols_get(c)
    g = frozen(a)
    if isinstance(self.n, int) and self.n < n:
        raise Unsupported('nlargest of a short frame')
    # enough non-null values?
    self.space.touch(z3.IntVal(0))
    self.space.touch(iexpr(self.n) - 1)
    ps = []
    for q in range(n):
        some = exists(self.space, lambda i: band(bnot(isnan(g(i))), *[bnot(beq(i, p)) for p in ps]), 'nl_some')
        if not truth(mkb(some), 'nlargest: non-null values left'):
            # nulls are appended in order only when values run out
            if q == 0 and n == 1:
                if truth(mkb(beq(self.n, 0)), 'empty'):
                    return self.rows(0, 0)
                return self.rows(0, 1)
            raise Unsupported('nlargest with too few values')
        p = C().fresh(I, 'nl')
        self.space.touch(p)
        C().assume(zb(band(self.space.in_range(p), bnot(isnan(g(p))), *[bnot(beq(p, o)) for o in ps])))
        old = list(ps)
        self.space.add_fact(lambda i, p=p, old=old: bor(
            isnan(g(i)), *[beq(i, o) for o in old],
            band(bnot(zraw(scalar_cmp('>', g(i), g(p)))), z3.Implies(zb(zraw(scalar_cmp('==', g(i), g(p)))), p <= i))))
        ps.append(p)
    sp = Space(n, 'nlargest')

    def src(i):
        return arrays.pick(ps, i)

    def src2(i):
        if isinstance(i, int):
            return ps[i] if 0 <= i < n else ps[-1]
        v = ps[-1]
        for q in range(n - 1):
            v = z3.If(i == q, ps[q], v)
        return v
    return self.select(sp, src2)


def f_diff(self, periods=1):
    return f_apply_cols(s_diff)(self)


def f_frame_abs(self):
    return f_apply_cols(s_abs)(self)


def f_pipe(self, f, *a, **k):
    return call(f, [self] + list(a), k)


def f_isnull(self):
    return f_apply_cols(s_isnull)(self)


def f_interpolate(self, **k):
    # object columns are left alone; strings raise no error
    return PFrame(self.space, {c: (s_interpolate(self.col(c)).a if a.dtype == 'float' else thaw2(a, 'nd')) for c, a in self.cols.items()}, self.index)


def f_fillna(self, value):
    return f_apply_cols(lambda s: s_fillna(s, value))(self)


# ---- joins

def provably_unique(space, keys):
    gs = [frozen(k) for k in keys]
    i, j = C().fresh(I, 'u'), C().fresh(I, 'u')
    with arrays.scratch():
        space.touch(i)
        space.touch(j)
        h = band(space.in_range(i), space.in_range(j), bnot(beq(i, j)))
        e = zb(bnot(band(*[same_key(g(i), g(j)) for g in gs])))
    return provably(z3.Implies(zb(h), e))


def match_fn(lsp, lk, rsp, rk):
    """hit(i): row i of the left has a match; at(i): a matching right row"""
    lg, rg = [frozen(k) for k in lk], [frozen(k) for k in rk]

    def keq(i, j):
        return band(*[same_key(a(i), b(j)) for a, b in zip(lg, rg)])
    memo = {}

    def hit(i):
        k = key_of(i)
        if k in memo:
            return memo[k][0]
        if isinstance(rsp.n, int) and rsp.n <= 4:
            h = bor(*[keq(i, j) for j in range(rsp.n)])
            at = 0
            for j in range(rsp.n - 1, -1, -1):
                at = ite(keq(i, j), j, at) if j < rsp.n - 1 else j
            memo[k] = (h, at, i)
            return h
        ctx = C()
        h = ctx.fresh(B, 'hit')
        at = ctx.fresh(I, 'at')
        memo[k] = (h, at, i)
        for a in lg:
            a(i)
        there = arrays.further(rsp, at, lambda at: band(rsp.in_range(at), keq(i, at)))
        ctx.assume(z3.Implies(h, zb(there)))
        rsp.add_fact(lambda j: z3.Implies(zb(bnot(h)), zb(bnot(keq(i, j)))))
        return h

    def at(i):
        hit(i)
        return memo[key_of(i)][1]
    return hit, at, keq


def f_merge(self, right, how='inner', on=None, left_on=None, right_on=None, suffixes=None, **k):
    if k or left_on is not None or right_on is not None:
        raise Unsupported('merge options')
    if isinstance(right, PSeries):
        right = s_to_frame(right)
    if on is None:
        on = [c for c in self.cols if c in right.cols]
        if not on:
            raise_py(ValueError, 'No common columns to perform merge on')
    on = [on] if isinstance(on, str) else list(iterate(on))
    for c in on:
        if c not in self.cols or c not in right.cols:
            raise_py(KeyError, c)
        merge_kind(self.cols[c], right.cols[c])
    clash = [c for c in self.cols if c in right.cols and c not in on]
    if clash:
        raise Unsupported('merge with suffixes')
    lk, rk = [self.cols[c] for c in on], [right.cols[c] for c in on]
    extra = [c for c in right.cols if c not in on]
    own = getattr(right.space, 'distinct_of', None)
    if own and own[0] is self.space and len(on) == 1 and how in ('left', 'inner') and arrays.same_content(own[1], lk[0]):
        g = frozen(own[1])
        if arrays.same_content(rk[0], SArr(right.space, lambda q: g(right.space.src(q)), own[1].dtype)):
            # every row meets exactly the one row of its own key
            sp = self.space
            new = {c: thaw2(a, 'nd') for c, a in self.cols.items()}
            for c in extra:
                gc = frozen(right.cols[c])
                new[c] = SArr(sp, lambda i, gc=gc: arrays.further(right.space, right.space.rank(i), gc), right.cols[c].dtype)
            return PFrame(sp, new, range_index(sp))
    if how == 'left' and provably_unique(right.space, rk):
        hit, at, keq = match_fn(self.space, lk, right.space, rk)
        tab('matches')[id(at)] = (self.space, right.space, hit, at)
        sp = self.space
        new = {c: thaw2(a, 'nd') for c, a in self.cols.items()}
        for c in extra:
            g = frozen(right.cols[c])
            dt = right.cols[c].dtype
            full = False
            nd = nullable(dt)
            new[c] = SArr(sp, (lambda i, g=g, nd=nd: s_ite(hit(i), sf(arrays.further(right.space, at(i), g)) if nd == 'float' else arrays.further(right.space, at(i), g), null_of(nd)
                                                           if nd in ('time', 'td', 'float') else NAN)), nd)
            if nd == 'float':
                base = new[c].fn
                new[c].fn = lambda i, b=base: sf(b(i))
        return PFrame(sp, new, range_index(sp))
    if how == 'inner' and provably_unique(right.space, rk):
        hit, at, keq = match_fn(self.space, lk, right.space, rk)
        sp, src = subset(self.space, hit, 'inner')
        new = {c: sel(a, sp, src, 'nd') for c, a in self.cols.items()}
        for c in extra:
            g = frozen(right.cols[c])
            new[c] = SArr(sp, lambda i, g=g: arrays.further(right.space, at(src(i)), g), right.cols[c].dtype)
        return PFrame(sp, new, range_index(sp))
    if how == 'inner':
        return join_pairs(self, right, lk, rk, extra)
    raise Unsupported('merge(how=%r) with non-unique right keys' % how)


def merge_kind(a, b):
    num = ('float', 'int', 'bool')
    if a.dtype in num and b.dtype in num or a.dtype == b.dtype or 'obj' in (a.dtype, b.dtype):
        return
    raise_py(ValueError, 'You are trying to merge on %s and %s columns' % (a.dtype, b.dtype))


def join_pairs(self, right, lk, rk, extra):
    """general inner join: one row per matching pair, ordered by (left row, right row)"""
    ctx = C()
    n = ctx.fresh(I, 'nj')
    ctx.assume(n >= 0)
    L, Rf, P = ctx.fn('jl', I, I), ctx.fn('jr', I, I), ctx.fn('jp', I, I, I)
    sp = Space(n, 'join')
    lg, rg = [frozen(k) for k in lk], [frozen(k) for k in rk]

    def keq(i, j):
        return band(*[same_key(a(i), b(j)) for a, b in zip(lg, rg)])
    home = {}

    def lr(i):
        h = home.get(key_of(i))
        if h:
            return h[0], h[1]
        l, r = L(iexpr(i)), Rf(iexpr(i))
        home[key_of(i)] = (l, r, i)
        pairs[(key_of(l), key_of(r))] = i
        return l, r
    pairs = {}

    def fact(i):
        l, r = lr(i)
        if key_of(i) in sp.guards:
            return True
        return band(self.space.in_range(l), right.space.in_range(r), keq(l, r), P(l, r) == i)
    sp.add_fact(fact)

    def pf(i, j):
        (a, b), (c, d) = lr(i), lr(j)
        return z3.And((i == j) == zb(band(beq(a, c), beq(b, d))), z3.Implies(zb(iexpr(i) < iexpr(j)), zb(bor(a < c, band(beq(a, c), b < d)))))
    sp.add_pair_fact(pf)

    def down(i, h):
        l, r = lr(i)
        self.space.touch(l, h)
        right.space.touch(r, h)
    sp.links.append(down)

    def up(l, r, h):
        if h > 1 or (key_of(l), key_of(r)) in pairs:
            return
        p = P(iexpr(l), iexpr(r))
        pairs[(key_of(l), key_of(r))] = p
        home[key_of(p)] = (l, r, p)
        ok = band(self.space.in_range(l), right.space.in_range(r), keq(l, r))
        sp.guards[key_of(p)] = (p, ok)
        C().assume(z3.Implies(zb(ok), z3.And(p >= 0, p < n, L(p) == l, Rf(p) == r)))
        sp.touch(p, h)
    sp.pair = lambda l, r: up(l, r, 0)      # every matching pair has a row: stated for the pairs asked about
    new = {c: sel(a, sp, lambda i: lr(i)[0], 'nd') for c, a in self.cols.items()}
    for c in extra:
        new[c] = sel(right.cols[c], sp, lambda i: lr(i)[1], 'nd')
    return PFrame(sp, new, range_index(sp))


def f_join(self, other, how='left', **k):
    raise Unsupported('join')


# ---- group by

def _no_labels(i):
    raise Unsupported('the labels of groupby.apply')


class GroupBy:
    def __init__(self, f, by, as_index=True, col=None):
        self.f, self.by, self.as_index, self.colname = f, by, as_index, col
        names, ks = keycols(f, by)
        if len(names) != 1:
            raise Unsupported('groupby several columns')
        self.key = ks[0]
        self.keyname = names[0]

    def groups(self):
        """(space of groups ordered by key, representative row of a group, group of a row)"""
        f, key = self.f, self.key
        rep = first_rep(f.space, [key])
        g = frozen(key)
        firsts, src = subset(f.space, lambda i: band(beq(rep(i), i), bnot(isnan(g(i)))), 'groups')
        kk = sel(key, firsts, src)
        sp = sort_perm(firsts, [kk], True)
        return sp, (lambda q: src(sp.src(q))), rep, kk

    def sv_getitem(self, k):
        if isinstance(k, str):
            return GroupBy(self.f, self.by, self.as_index, k)
        raise Unsupported('groupby[list]')

    def sv_getattr(self, nm):
        m = {'size': self.size, 'first': self.first, 'mean': self.mean, 'apply': self.apply}.get(nm)
        if m is None:
            if nm in self.f.cols:
                return GroupBy(self.f, self.by, self.as_index, nm)
            raise Unsupported('groupby.' + nm)
        return meth(m, 'GroupBy.' + nm)

    def member(self, q, i):
        sp, rowof, rep, kk = self.groups()
        return band(self.f.space.in_range(i), same_key(self.key.get(i), self.key.get(rowof(q))))

    def size(self):
        if not nullable_key(self.key):
            sp = group_space(self.f.space, self.key)
            rowof = sp.src
        else:
            raise Unsupported('groupby.size with null keys')
        key = frozen(self.key)
        cnt = group_count(self.f.space, [self.key])
        ix = as_index(SArr(sp, lambda q: key(rowof(q)), self.key.dtype), self.keyname)
        return PSeries(SArr(sp, lambda q: mki(cnt(rowof(q))), 'int'), ix, None)

    def first(self):
        """first non-null value of every column in each group"""
        f = self.f
        if self.colname is not None:
            r = GroupBy(PFrame(f.space, {self.keyname: self.key, self.colname: f.cols[self.colname]}, f.index), self.keyname, True).first()
            return r.col(self.colname)
        if not (isinstance(f.n, int) and f.n <= 6) and not nullable_key(self.key):
            return self.first_of_many()
        sp, rowof, rep, kk = self.groups()
        key = frozen(self.key)
        new = {}
        kcol = SArr(sp, lambda q: key(rowof(q)), self.key.dtype)
        for c, a in f.cols.items():
            if c == self.keyname:
                continue
            g = frozen(a)
            fi = C().fn('gfirst', I, I)

            def fn(q, g=g, fi=fi, a=a):
                r = rowof(q)
                p = fi(iexpr(r))
                if a.dtype in ('int', 'bool', 'str'):
                    return g(r)
                f.space.touch(p, C().hop + 1)
                kq = key(r)
                C().assume(z3.Implies(zb(sp.in_range(q)), zb(bor(
                    band(p >= 0, p < f.space.n, p >= r, same_key(key(p), kq), bnot(isnan(g(p)))),
                    band(p == r)))))
                memo = tab('gf').setdefault((fi(iexpr(r)).get_id()), None)
                if memo is None:
                    tab('gf')[fi(iexpr(r)).get_id()] = (p, q)
                    f.space.add_fact(lambda i: z3.Implies(zb(band(sp.in_range(q), same_key(key(i), kq), bnot(isnan(g(i))))),
                                                          zb(band(p <= i, bnot(isnan(near(f.space, p, g)))))))
                return near(f.space, p, g)
            new[c] = SArr(sp, fn, a.dtype)
        if self.as_index:
            return PFrame(sp, new, as_index(kcol, self.keyname))
        return PFrame(sp, dict([(self.keyname, kcol)] + list(new.items())), range_index(sp))

    def first_of_many(self):
        f = self.f
        if strictly_sorted(self.key):       # every row is a group of its own
            cols = {c: thaw2(a) for c, a in f.cols.items()}
            ix = cols[self.keyname]
            if self.as_index:
                cols = {c: a for c, a in cols.items() if c != self.keyname}
                return PFrame(f.space, cols, as_index(ix, self.keyname))
            return PFrame(f.space, dict([(self.keyname, ix)] + [(c, a) for c, a in cols.items() if c != self.keyname]), range_index(f.space))
        sp = group_space(f.space, self.key)
        rowof = sp.src
        key = frozen(self.key)

        def up(v, h):
            sp.touch(sp.rank(v), h + 1)
        f.space.add_link(up)
        kcol = SArr(sp, lambda q: near(f.space, rowof(q), key), self.key.dtype)
        new = {}
        for c, a in f.cols.items():
            if c == self.keyname:
                continue
            g = frozen(a)
            if a.dtype in ('int', 'bool', 'str'):
                full = True
            else:
                full = False
            fi = C().fn('gfirst', I, I)
            memo = {}

            def fn(q, g=g, fi=fi, memo=memo):
                k = key_of(q)
                if k in memo:
                    return near(f.space, memo[k][0], g)
                p = fi(iexpr(q))
                memo[k] = (p, q)
                f.space.touch(p, C().hop + 1)
                kq = near(f.space, rowof(q), key)
                C().assume(z3.Implies(zb(sp.in_range(q)), zb(band(p >= 0, p < iexpr(f.n), same_key(key(p), kq)))))
                f.space.add_fact(lambda i: z3.Implies(zb(band(sp.in_range(q), same_key(key(i), kq), bnot(isnan(g(i))))),
                                                      zb(band(p <= i, bnot(isnan(near(f.space, p, g)))))))
                return near(f.space, p, g)
            new[c] = SArr(sp, fn, a.dtype)
        if self.as_index:
            return PFrame(sp, new, as_index(kcol, self.keyname))
        return PFrame(sp, dict([(self.keyname, kcol)] + list(new.items())), range_index(sp))

    def mean(self):
        """mean of the non-null values of each group: between two of them, null when there are none"""
        f = self.f
        if self.colname is None or nullable_key(self.key) or not self.as_index:
            raise Unsupported('groupby.mean')
        a = f.cols[self.colname]
        if a.dtype not in ('float', 'int'):
            raise Unsupported('groupby.mean of %s' % a.dtype)
        gs = group_space(f.space, self.key)
        g, key = frozen(a), frozen(self.key)
        which = reduction('mean_by', self.key, lambda: len(tab('mean_by')) + tab('mean_by').setdefault(len(tab('mean_by')), 0))
        m, none = reduction(('gmean', which), a, lambda: (C().fn('gmean', I, R), C().fn('gmean_null', I, B)))
        memo = {}

        def fn(q):
            k = key_of(q)
            if k in memo:
                return memo[k]
            qq = iexpr(q)
            v = memo[k] = SF(m(qq), none(qq))
            rep = gs.src(q)
            ctx = C()
            w1, w2 = ctx.fresh(I, 'glo'), ctx.fresh(I, 'ghi')
            for w, o in ((w1, '<='), (w2, '>=')):
                f.space.touch(w, ctx.hop + 1)
                x = sf(g(w))
                ctx.assume(z3.Implies(zb(band(gs.in_range(q), bnot(v.nan))), zb(band(
                    f.space.in_range(w), same_key(key(w), key(rep)), bnot(x.nan), x.r <= v.r if o == '<=' else x.r >= v.r))))
            f.space.add_fact(lambda i: z3.Implies(zb(band(gs.in_range(q), v.nan, same_key(key(i), key(rep)))), zb(isnan(g(i)))))
            return v
        ix = as_index(SArr(gs, lambda q: key(gs.src(q)), self.key.dtype), self.keyname)
        return PSeries(SArr(gs, fn, 'float'), ix, self.colname)

    def apply_series(self, gs, j, seq, s, kids):
        """fn of each group is a series with the same labels: a row per group, known for the arbitrary group j"""
        from . import loops
        labels = [force(x) for x in lib_np.const_items(s.index)]
        if seq.forks or not all(isinstance(x, str) for x in labels):
            raise Unsupported('groupby.apply')
        new = {}
        for p, c in enumerate(labels):
            v = s.a.get(p)
            other = loops.unlike(v, 'other_' + c)
            if other is None:
                raise Unsupported('groupby.apply')

            def fn(q, v=v, other=other):
                if key_of(q) == key_of(j):
                    return v
                return s_ite(iexpr(q) == j, v, other(q))
            new[c] = SArr(gs, fn, arrays.dtype_of(v))
        tab('applied')[gs.uid] = (gs, j, kids)
        key = frozen(self.key)
        return PFrame(gs, new, as_index(SArr(gs, lambda q: key(gs.src(q)), self.key.dtype), self.keyname))

    def apply(self, fn, *a, **k):
        """fn of the rows of each group, in the order of the keys, joined; by the rule for loops of unknown length"""
        from . import loops
        fn, ctx, f = force(fn), C(), self.f
        if self.colname is not None or nullable_key(self.key):
            raise Unsupported('groupby.apply')
        if truth(mkb(beq(f.n, 0)), 'no groups'):
            raise Unsupported('groupby.apply on no rows')
        gs = group_space(f.space, self.key)
        g = frozen(self.key)
        sp, j, x, over = loops.sequence(SArr(gs, lambda q: g(gs.src(q)), self.key.dtype))
        ctx.assume(zb(sp.in_range(j)))
        f.space.touch(gs.src(j))
        kids, src = subset(f.space, lambda i: same_key(g(i), x), 'group')
        ctx.assume(z3.Implies(zb(sp.in_range(j)), iexpr(kids.n) >= 1))
        since = len(ctx.trail)
        out = []

        class Seen:
            vars, parent = dict(fn=fn, frame=f, args=list(a), kw=list(k.values())), getattr(fn, 'env', None)
        loops.guarded(Seen, lambda: out.append(call(fn, [f.select(kids, src)] + list(a), k)))
        seq = loops.MapSeq(sp, j, out[0], ctx.forks(since), over)
        s = force(out[0])
        if self.as_index is True:
            if not isinstance(s, PSeries):
                raise Unsupported('groupby.apply')
            return self.apply_series(gs, j, seq, s, kids)
        r = loops.pd_concat_seq(seq, True)
        if isinstance(r, PFrame):
            r.index = SArr(r.space, _no_labels, 'obj')
        return r


def f_groupby(self, by, as_index=True, **k):
    if k:
        raise Unsupported('groupby options')
    return GroupBy(self, by, as_index)


# ---- regular grids

def f_asfreq(self, freq):
    """the rows at the points of the frequency between the first and the last label"""
    ix = self.index
    if getattr(ix, 'dtype', None) != 'time':
        raise Unsupported('asfreq without dates')
    if truth(mkb(beq(self.n, 0)), 'empty'):
        return f_copy(self)
    lo, hi = extreme(ix, '<'), extreme(ix, '>')
    grid = pd_date_range(lo, hi, freq=force(freq), name=getattr(ix, 'name', None))
    return f_reindex(self, as_index(grid, getattr(ix, 'name', None)))


def f_reindex(self, ix, **k):
    """rows for every label of ix (unique index of self required)"""
    ix = ix if is_index(ix) else as_index(ix)
    if not provably_unique(self.space, [self.index]):
        if truth(mkb(bnot(unique_cond(self.index))), 'duplicate labels'):
            raise_py(ValueError, 'cannot reindex on an axis with duplicate labels')
    hit, at, keq = match_fn(ix.space, [ix], self.space, [self.index])
    new = {}
    for c, a in self.cols.items():
        g = frozen(a)
        nd = nullable(a.dtype)
        new[c] = SArr(ix.space, (lambda i, g=g, nd=nd: (sf if nd == 'float' else (lambda x: x))(s_ite(hit(i), sf(g(at(i))) if nd == 'float' else g(at(i)), null_of(nd)))), nd)
    return PFrame(ix.space, new, ix)


def s_reindex(s, ix, **k):
    if k:
        raise Unsupported('reindex options')
    u = [t for t in getattr(force(ix), 'union_of', []) if t[0] is s.index or t[0].space is s.space and arrays.same_content(t[0], s.index)]
    if u:
        x, own, row = u[0]
        g = frozen(s.a)
        nd = nullable(s.a.dtype)
        cv = sf if nd == 'float' else (lambda v: v)
        return PSeries(SArr(ix.space, lambda i: cv(s_ite(own(iexpr(i)), cv(near(s.space, row(i), g)), null_of(nd))), nd), ix, s.name)
    return f_reindex(PFrame(s.space, {'v': s.a}, s.index), ix).col('v')


def near(sp, i, f):
    return arrays.further(sp, i, f, 1)


def unique_cond(a):
    c = is_first(a.space, [a])
    return forall_b(a.space, c, 'uniq')


FMETH = dict(copy=f_copy, rename=f_rename, drop=f_drop, assign=f_assign, reset_index=f_reset_index, set_index=f_set_index,
             rename_axis=f_rename_axis, sort_values=f_sort_values, drop_duplicates=f_drop_duplicates, nlargest=f_nlargest,
             diff=f_diff, abs=f_frame_abs, pipe=f_pipe, isnull=f_isnull, isna=f_isnull, merge=f_merge, groupby=f_groupby,
             join=f_join, asfreq=f_asfreq, reindex=f_reindex, interpolate=f_interpolate, fillna=f_fillna,
             head=lambda f, n=5: hd(f, n), tail=lambda f, n=5: tl(f, n))


# ---------------------------------------------------------------- constructors and functions

def pd_series(data=None, index=None, name=None, dtype=None, copy=False, **k):
    data = force(data)
    if isinstance(data, PSeries):
        if index is not None:
            raise Unsupported('Series(series, index)')
        return PSeries(data.a, data.index, name if name is not None else data.name)
    if isinstance(data, IDict):
        names = [kk for kk, _ in data.allitems()]
        vals_ = [v for _, v in data.allitems()]
        r = PSeries(arr(vals_), as_index(SArr.of(names, 'str')), name)
        return r
    ix = None
    if index is not None:
        ix = index if is_index(index) else as_index(arr(index))
    if is_num(data) or is_str(data) or data is None:
        if ix is None:
            a = SArr.of([data] if data is not None else [])
        else:
            v = data if data is not None else NAN
            a = SArr(ix.space, lambda i: v, arrays.dtype_of_items([v]))
    else:
        if is_index(data) and name is None:
            name = data.name
        a = arr(data)
        if isinstance(a, SMat):
            raise_py(ValueError, 'Data must be 1-dimensional')
        a = thaw2(a, 'nd')
        a.name = None
    if ix is not None:
        if not truth(mkb(beq(ix.n, a.n)), 'Series length'):
            raise_py(ValueError, 'Length of values does not match length of index')
        if ix.space is not a.space:
            g = frozen(a)
            a = SArr(ix.space, g, a.dtype)
    return PSeries(a, ix, name)


def pd_frame(data=None, index=None, columns=None, dtype=None, copy=None):
    data = force(data)
    if isinstance(data, PFrame):
        if index is not None or columns is not None:
            raise Unsupported('DataFrame(frame, ...)')
        return data.copy()
    if isinstance(data, PSeries):
        return s_to_frame(data)
    ix = None
    if index is not None:
        ix = index if is_index(index) else as_index(arr(index))
    if isinstance(data, IDict):
        items = data.allitems()
        if any(not isinstance(c, str) for c, _ in items):
            raise Unsupported('DataFrame column names')
        sp = ix.space if ix is not None else None
        conv = {}
        for c, v in items:
            v = force(v)
            if isinstance(v, (list, tuple)):
                v = SArr.of(list(v), None if not any(isinstance(x, (SArr, list, IObj)) or x is None for x in v) else 'obj')
            elif hasattr(v, 'sv_arr'):
                if ix is None and isinstance(v, PSeries):
                    ix = v.index
                    sp = ix.space if sp is None else sp
                v = v.sv_arr()
            elif isinstance(v, SymSeq):
                v = arr(v)
            elif isinstance(v, SMat):
                raise_py(ValueError, 'Per-column arrays must each be 1-dimensional')
            conv[c] = v
        for v in conv.values():
            if isinstance(v, SArr):
                if sp is None:
                    sp = v.space
                elif not truth(mkb(beq(v.n, sp.n)), 'column lengths'):
                    raise_py(ValueError, 'All arrays must be of the same length')
        if sp is None:
            raise_py(ValueError, 'If using all scalar values, you must pass an index')
        new = {}
        for c, v in conv.items():
            if isinstance(v, SArr):
                new[c] = SArr(sp, frozen(v), v.dtype)
                if v.dtype == 'obj' and hasattr(v, 'items'):
                    new[c].items = v.items
            else:
                new[c] = SArr(sp, lambda i, v=v: v, arrays.dtype_of_items([v]))
        return PFrame(sp, new, ix if ix is not None else range_index(sp))
    if isinstance(data, list) and columns is not None and all(isinstance(r, list) for r in data):
        names = iterate(columns)
        sp = Space(len(data), 'rows')
        new = {}
        for j, c in enumerate(names):
            items = [r[j] for r in data]
            d = 'obj' if any(isinstance(x, (SArr, list, IObj)) or x is None for x in items) else None
            a = SArr.of(items, d)
            new[c] = SArr(sp, a.fn, a.dtype)
        return PFrame(sp, new, ix)
    if data is None and columns is None:
        return PFrame(Space(0), {}, ix)
    raise Unsupported('DataFrame(%r)' % type(data))


def pd_isnull(x):
    x = force(x)
    if isinstance(x, PSeries):
        return s_isnull(x)
    if isinstance(x, PFrame):
        return f_isnull(x)
    if isinstance(x, (list, tuple)):
        x = arr(x)
    if isinstance(x, SArr):
        return ew(lambda v: mkb(isnan(v)), 'bool', x)
    if isinstance(x, SMat):
        raise Unsupported('isnull of a matrix')
    return mkb(isnan(x))


def pd_notnull(x):
    r = pd_isnull(x)
    return interp.unop(_AST_INV, r) if not isinstance(r, bool) else not r


def pd_to_datetime(x, **k):
    if k:
        raise Unsupported('to_datetime options')
    x = force(x)
    if isinstance(x, str):
        return time_of(x)
    if isinstance(x, (_dt.datetime, _dt.date, ST, Date)) or x is None:
        return time_of(x) if x is not None else None
    if isinstance(x, PSeries):
        return PSeries(to_time_arr(x.a), x.index, x.name)
    if is_index(x):
        r = to_time_arr(x)
        r.kind = 'dtindex'
        r.name = x.name
        return r
    if isinstance(x, (list, tuple, SymSeq)):
        x = arr(list(x) if isinstance(x, tuple) else x)
    if isinstance(x, SArr):
        r = to_time_arr(x)
        r.kind = 'dtindex'
        return r
    raise Unsupported('to_datetime(%r)' % type(x))


def to_time_arr(a):
    if a.dtype == 'time':
        return ew(lambda v: time_of(v), 'time', a)
    if a.dtype == 'str' and a.concrete():
        items = [time_of(v) if isinstance(v, str) else None for v in a.tolist()]
        if None in items:
            raise Unsupported('to_datetime of strings')
        return SArr.of(items, 'time')
    if a.dtype == 'obj':
        def f(v):
            if isinstance(v, Cell):
                r = None
                for g, x in reversed(v.alts):
                    y = f(x)
                    r = y if r is None else s_ite(g, y, r)
                return r
            if isinstance(v, MaybeNull):
                t = time_of(v.v)
                return ST(t.z, bor(t.nat, v.null))
            if isinstance(v, float):
                return ST(0, True)
            return time_of(v)
        return ew(f, 'time', a)
    if a.concrete() and a.n == 0:
        return SArr.of([], 'time')
    raise Unsupported('to_datetime of %s' % a.dtype)


UNITS = {'d': DAY, 'D': DAY, 'day': DAY, 'days': DAY, 'h': HOUR, 'H': HOUR, 'hour': HOUR, 'hours': HOUR, 'W': 7 * DAY, 'w': 7 * DAY,
         's': 10 ** 9, 'm': 60 * 10 ** 9, 'min': 60 * 10 ** 9, 'ns': 1, 'seconds': 10 ** 9, 'minutes': 60 * 10 ** 9, 'weeks': 7 * DAY}


def pd_timedelta(v=None, unit=None, **k):
    v = force(v)
    if k:
        t = 0
        for u, x in k.items():
            x = force(x)
            t = add_i(t, zi(x) * UNITS[u]) if not is_float(x) else add_i(t, td_real(x, UNITS[u]))
        return SD(t)
    if isinstance(v, str):
        num, u = v.split()
        return SD(int(num) * UNITS[u.rstrip('s') if u.rstrip('s') in UNITS else u])
    u = UNITS.get(unit or 'ns')
    if u is None:
        raise Unsupported('Timedelta unit %r' % unit)
    if isinstance(v, SD):
        return v
    if is_float(v):
        return SD(td_real(v, u), isnan(sf(v)))
    return SD(zi(v) * u)


def td_real(v, u):
    if isinstance(v, float):
        return int(round(v * u))
    r = sf(v).r * u
    return z3.ToInt(r)


def pd_to_timedelta(v, unit=None):
    v = force(v)
    if isinstance(v, (PSeries, SArr)):
        raise Unsupported('to_timedelta of an array')
    return pd_timedelta(v, unit)


def is_numeric_dtype(x):
    x = force(x)
    if isinstance(x, PSeries):
        x = x.a
    if isinstance(x, SArr):
        return x.dtype in ('float', 'int', 'bool')
    if isinstance(x, lib_np.DType):
        return x.k in ('float', 'int', 'bool')
    raise Unsupported('is_numeric_dtype')


# ---- dates

class Offset:
    """pd.DateOffset of whole or fractional fixed-length units, or months/years (calendar function)"""

    def __init__(self, kw):
        self.kw = kw

    def sv_offset(self, t, op):
        ns, cal_kw = 0, {}
        if op not in ('+', '-'):
            raise Unsupported('offset ' + op)
        for u, v in self.kw.items():
            v = force(v)
            if u in ('days', 'weeks', 'hours', 'minutes', 'seconds'):
                if v is None:
                    raise_py(TypeError, 'offset')
                ns = add_i(ns, zi(v) * UNITS[u]) if not is_float(v) else add_i(ns, td_real(v, UNITS[u]))
            elif u in ('months', 'years'):
                cal_kw[u] = v
            else:
                raise Unsupported('DateOffset(%s)' % u)
        z = t.z
        for u, v in cal_kw.items():
            if is_float(v):
                raise_py(ValueError, 'Non-integer years and months are ambiguous and not currently supported.')
            m = arrays.simp_i(iexpr(zi(v)) * (12 if u == 'years' else 1)) if z3.is_expr(zi(v)) else zi(v) * (12 if u == 'years' else 1)
            if op == '-':
                m = -m
            f = UF('add_months', I, I, I)
            d = f(iexpr(day_of(t)), iexpr(m))
            # month arithmetic keeps the time of day and is monotone; trusted calendar facts
            C().assume(z3.Implies(iexpr(m) >= 0, d >= iexpr(day_of(t)) + 28 * iexpr(m)))
            C().assume(z3.Implies(iexpr(m) >= 0, d <= iexpr(day_of(t)) + 31 * iexpr(m)))
            C().assume(z3.Implies(iexpr(m) == 0, d == iexpr(day_of(t))))
            z = d * DAY + (iexpr(z) - iexpr(day_of(t)) * DAY)
        z = add_i(z, ns) if op == '+' else (z - ns)
        return ST(arrays.simp_i(z) if z3.is_expr(z) else z, t.nat)


def pd_dateoffset(n=1, normalize=False, **kw):
    for u, v in kw.items():
        v = force(v)
        if u in ('months', 'years') and is_float(v) and not (isinstance(v, float) and v == int(v)):
            if truth(mkb(bnot(is_whole(sf(v)))), 'whole months'):
                raise_py(ValueError, 'Non-integer years and months are ambiguous and not currently supported.')
            kw[u] = mki(z3.ToInt(sf(v).r))
        if u not in ('days', 'weeks', 'hours', 'minutes', 'seconds', 'months', 'years', 'weekday'):
            raise_py(TypeError, "relativedelta() got an unexpected keyword argument")
    return Offset(kw)


def is_whole(x):
    return z3.IsInt(x.r)


def grid_member(base, step, n):
    """raw predicate: the time is one of the n points base + i * step"""
    def member(x):
        x = force(x)
        if not isinstance(x, (ST, _dt.datetime)):
            return False
        x = time_of(x)
        d = iexpr(x.z) - iexpr(base)
        return band(bnot(x.nat), d >= 0, d % step == 0, d < iexpr(n) * step)
    return member


def pd_date_range(start=None, end=None, freq='D', periods=None, name=None, **k):
    start, end, freq = force(start), force(end), force(freq)
    if periods is not None or start is None or end is None:
        raise Unsupported('date_range periods')
    s, e = time_of(start), time_of(end)
    step = None
    if isinstance(freq, str):
        step = {'D': DAY, 'H': HOUR}.get(freq)
        if step is None and freq in _WD:
            wd = _WD[freq]
            # first date >= start that falls on the weekday
            step = 7 * DAY
            sz = s.z
            delta = (wd - iexpr(weekday_raw(s))) % 7 if not isinstance(weekday_raw(s), int) else (wd - weekday_raw(s)) % 7
            if z3.is_expr(delta) and provably(delta == 0):
                delta = 0
            s = ST(sz + delta * DAY if isinstance(delta, int) else arrays.simp_i(iexpr(sz) + delta * DAY), s.nat)
    if step is None:
        return month_range(s, e, freq, name)
    if isinstance(s.z, int) and isinstance(e.z, int):
        n = max(0, (e.z - s.z) // step + 1)
        return_items = [ST(s.z + i * step) for i in range(n)]
        r = SArr.of(return_items, 'time', 'dtindex')
        r.name = name
        r.tag['grid'] = (s, step)
        return r
    if truth(mkb(bor(s.nat, e.nat)), 'NaT bounds'):
        raise_py(ValueError, 'Neither `start` nor `end` can be NaT')
    d = iexpr(e.z) - iexpr(s.z)
    n = C().fresh(I, 'ndates')
    C().assume(z3.If(d < 0, n == 0, z3.And((n - 1) * step <= d, d < n * step, n >= 1)))
    sp = Space(n, 'date_range')
    tab('grids').setdefault('all', []).append(sp)
    r = SArr(sp, lambda i: ST(arrays.simp_i(iexpr(s.z) + iexpr(i) * step)), 'time', 'dtindex', name)
    r.tag['grid'] = (s, step)
    r.sv_member = grid_member(s.z, step, n)
    return r


_WD = {'W-MON': 0, 'W-TUE': 1, 'W-WED': 2, 'W-THU': 3, 'W-FRI': 4, 'W-SAT': 5, 'W-SUN': 6, 'W': 6}


def month_range(s, e, freq, name):
    """dates of a calendar frequency: exactly the anchor dates between start and end, increasing"""
    if isinstance(freq, SS) or freq not in ('M', 'MS', 'Q', 'QS', 'Y', 'YS', 'A', 'AS'):
        raise Unsupported('date_range freq %r' % (freq,))
    n = C().fresh(I, 'nmonths')
    C().assume(n >= 0)
    sp = Space(n, 'date_range')
    f = C().fn('anchor', I, I)      # day of the i-th point; every point has the time of day of the start
    anchor = UF('is_anchor_' + freq, I, B)
    gap = {'M': (28, 31), 'MS': (28, 31), 'Q': (90, 92), 'QS': (90, 92), 'Y': (365, 366), 'YS': (365, 366), 'A': (365, 366), 'AS': (365, 366)}[freq]
    sday = iexpr(day_of(s))
    tod = arrays.simp_i(iexpr(s.z) - sday * DAY)
    at = lambda d: arrays.simp_i(d * DAY + iexpr(tod))

    def fact(i):
        d = f(iexpr(i))
        return band(d >= sday, at(d) <= iexpr(e.z), anchor(d))
    sp.add_fact(fact)

    def pf(i, j):
        a, b = f(iexpr(i)), f(iexpr(j))
        return z3.Implies(zb(iexpr(j) == iexpr(i) + 1), z3.And(b - a >= gap[0], b - a <= gap[1]))
    sp.add_pair_fact(pf)
    sp.add_pair_fact(lambda i, j: z3.Implies(zb(iexpr(i) < iexpr(j)), f(iexpr(j)) - f(iexpr(i)) >= gap[0] * (iexpr(j) - iexpr(i))))
    pos = C().fn('anchor_pos', I, I)

    def find(d):
        """the position of the anchor day d, when it lies in the range"""
        p = pos(iexpr(d))
        sp.touch(p)
        C().assume(z3.Implies(z3.And(anchor(iexpr(d)), iexpr(d) >= sday, at(iexpr(d)) <= iexpr(e.z)),
                              z3.And(p >= 0, p < n, f(p) == iexpr(d))))
        return p
    sp.find_day = find
    r = SArr(sp, lambda i: ST(at(f(iexpr(i)))), 'time', 'dtindex', name)
    return r


def pd_datetimeindex(x=None, **k):
    if k:
        raise Unsupported('DatetimeIndex options')
    x = force(x)
    nm = getattr(x, 'name', None)
    if isinstance(x, PSeries):
        x = x.a
    r = to_time_arr(need_arr(x))
    r = thaw2(r, 'dtindex')
    r.name = nm
    return r


def pd_index(x, name=None, **k):
    r = as_index(arr(x), name)
    return r


def pd_rangeindex(start=None, stop=None, step=None, name=None):
    start, stop = force(start), force(stop)
    if stop is None:
        start, stop = 0, start
    for v in (start, stop):
        if is_float(v):
            v = sf(v)
            if not truth(mkb(band(z3.IsInt(v.r), bnot(v.nan), beq(v.inf, 0))), 'integer'):
                raise_py(TypeError, 'Wrong type for RangeIndex')
    z0 = lib_np.trunc_raw(start)
    z1 = lib_np.trunc_raw(stop)
    lo, hi = iexpr(zi(z0)), iexpr(zi(z1))
    n = z3.simplify(z3.If(hi - lo > 0, hi - lo, z3.IntVal(0)))
    n = arrays.simp_i(n)
    r = SArr(Space(n, 'range'), lambda i: mki(arrays.simp_i(lo + iexpr(i))), 'int', 'index', name)
    return r


# ---- concat

def pd_concat(objs, axis=0, sort=False, ignore_index=False, **k):
    if axis != 0 or k:
        raise Unsupported('concat options')
    objs = force(objs)
    l = iterate(objs)
    if l is None:
        from . import loops
        if isinstance(objs, loops.MapSeq):
            return loops.pd_concat_seq(objs, ignore_index)
        raise Unsupported('concat of a symbolic list')
    l = [force(x) for x in l if x is not None]
    if not l:
        raise_py(ValueError, 'No objects to concatenate')
    if all(isinstance(x, PSeries) for x in l):
        a = arrays.concat_arrays([x.a for x in l])
        return PSeries(a, None if ignore_index else as_index(arrays.concat_arrays([x.index for x in l])))
    if not all(isinstance(x, PFrame) for x in l):
        raise Unsupported('concat of mixed objects')
    if len(l) == 1:
        r = l[0].copy()
        if ignore_index:
            r.index = range_index(r.space)
        return r
    sp = concat_space([x.space for x in l])
    names = []
    for x in l:
        for c in x.cols:
            if c not in names:
                names.append(c)
    new = {}
    for c in names:
        gets = [frozen(x.cols[c]) if c in x.cols else None for x in l]
        ds = [x.cols[c].dtype for x in l if c in x.cols and not (isinstance(x.n, int) and x.n == 0 and False)]
        missing = any(g is None and not (isinstance(x.n, int) and x.n == 0) for g, x in zip(gets, l))
        num = ('float', 'int', 'bool')
        if all(d == ds[0] for d in ds):
            dt = ds[0]
        elif all(d in ('float', 'int') for d in ds):
            dt = 'float'
        else:
            dt = 'obj'
        if missing:
            dt = nullable(dt)

        def fn(i, gets=gets, dt=dt):
            v = None
            for cnd, kk, li in reversed(sp.which(i)):
                g = gets[kk]
                x = null_of(dt) if g is None else g(li)
                if dt == 'float':
                    x = sf(x)
                v = x if v is None else s_ite(cnd, x, v)
            return v if v is not None else null_of(dt)
        new[c] = SArr(sp, fn, dt)
    ix = range_index(sp) if ignore_index else as_index(arrays.concat_arrays([x.index for x in l]))
    return PFrame(sp, new, ix)


# ---------------------------------------------------------------- indexes

def index_attr(o, nm):
    if nm == 'values':
        r = index_values(o)
        return r
    if nm == 'name':
        return o.name
    if nm == 'empty':
        return mkb(beq(o.n, 0))
    if nm in ('month', 'day', 'year', 'weekday', 'dayofweek', 'hour', 'quarter'):
        if o.dtype != 'time':
            raise_py(AttributeError, "'Index' object has no attribute '%s'" % nm)
        f = lib_np.DT_FIELDS.get(nm)
        if f is None:
            raise Unsupported('DatetimeIndex.' + nm)
        r = ew(f, 'int', o)
        r.kind = 'index'
        return r
    if nm == 'days':
        r = ew(lambda d: mki(lib_np.days_of(d)), 'int', o)
        r.kind = 'index'
        return r
    if nm in ('date', 'normalize', 'strftime'):
        raise Unsupported('DatetimeIndex.' + nm)
    if nm == 'drop_duplicates':
        def dd(keep='first'):
            sp, src = subset(o.space, is_first(o.space, [o]), 'dedup')
            return sel(o, sp, src)
        return meth(dd, 'Index.drop_duplicates')
    if nm == 'unique':
        def un():
            if not isinstance(o.n, int) and o.dtype in ('time', 'float', 'int') and strictly_sorted(o):
                return thaw2(o)
            by = getattr(o, 'sorted_by', None)
            if by is not None and not (isinstance(o.n, int) and o.n <= 6):
                sp = distinct_space(by.space, by)       # distinct values of a sorted index
                return sel(by, sp, sp.src)
            sp, src = subset(o.space, is_first(o.space, [o]), 'dedup')
            return sel(o, sp, src)
        return meth(un, 'Index.unique')
    if nm == 'nunique':
        return meth(lambda: s_nunique(PSeries(o)), 'Index.nunique')
    if nm == 'to_series':
        return meth(lambda **k: PSeries(index_values(o), o, o.name), 'Index.to_series')
    if nm in ('isin',):
        return meth(lambda v: s_isin(PSeries(o), v).a, 'Index.isin')
    if nm in ('isnull', 'isna'):
        return meth(lambda: ew(lambda v: mkb(isnan(v)), 'bool', o), 'Index.isna')
    if nm == 'to_numpy':
        return meth(lambda: index_values(o), 'Index.to_numpy')
    if nm == 'sort_values':
        def sv():
            if not isinstance(o.n, int) and strictly_sorted(o):
                return thaw2(o)
            sp = sort_perm(o.space, [o], False)
            r = sel(o, sp, sp.src)
            r.sorted_by = o
            return r
        return meth(sv, 'Index.sort_values')
    if nm == 'union':
        return meth(lambda other: index_union(o, other), 'Index.union')
    if nm == 'freq':
        raise Unsupported('index.freq')
    raise Unsupported('Index.%s' % nm)


def strictly_sorted(a):
    return reduction('strict', a, lambda: strictly_sorted_(a))


def strictly_sorted_(a):
    if a.dtype not in ('time', 'float', 'int'):
        return False
    i, j = C().fresh(I, 'si'), C().fresh(I, 'sj')
    with arrays.scratch():
        a.space.touch(i)
        a.space.touch(j)
        x, y = a.get(i), a.get(j)
    ok = band(bnot(isnan(x)), bnot(isnan(y)), z3.Implies(zb(i < j), zb(lt_cells(x, y))))
    return provably(z3.Implies(zb(band(a.space.in_range(i), a.space.in_range(j))), zb(ok)))


def index_union(a, b):
    """the labels of two strictly increasing indices, in increasing order"""
    b = b if is_index(b) else as_index(b)
    if isinstance(a.n, int) or isinstance(b.n, int):
        raise Unsupported('union of short indices')
    if (a.dtype == 'time') != (b.dtype == 'time') or a.dtype not in ('time', 'int', 'float') or b.dtype not in ('time', 'int', 'float'):
        raise Unsupported('union of %s and %s' % (a.dtype, b.dtype))
    if not strictly_sorted(a) or not strictly_sorted(b):
        raise Unsupported('union of indices that are not strictly increasing')
    ctx = C()
    n = ctx.fresh(I, 'nun')
    ctx.assume(z3.And(n >= iexpr(a.n), n >= iexpr(b.n), n <= iexpr(a.n) + iexpr(b.n)))
    sp = Space(n, 'union')
    G = ctx.fn('label', I, I if a.dtype == 'time' else R)
    val = lambda u: ST(G(iexpr(u)), False) if a.dtype == 'time' else SF(G(iexpr(u)))
    dt = a.dtype if a.dtype == b.dtype and a.dtype == 'time' else 'float'
    sides = []
    for x in (a, b):
        g = frozen(x)
        own, src, rank = ctx.fn('owns', I, B), ctx.fn('usrc', I, I), ctx.fn('urank', I, I)
        back, fwd = {}, {}

        def row(u, src=src, back=back, fwd=fwd):
            k = key_of(u)
            if k not in back:
                r = src(iexpr(u))
                back[k] = (r, u)
                fwd[key_of(r)] = (iexpr(u), r)
            return back[k][0]

        def pos(r, rank=rank, back=back, fwd=fwd):
            k = key_of(r)
            if k not in fwd:
                u = rank(iexpr(r))
                fwd[k] = (u, r)
                back[key_of(u)] = (iexpr(r), u)
            return fwd[k][0]
        sides.append((x, g, own, src, rank, row, pos))

    def fact(u):
        r = [bor(*[own(iexpr(u)) for (_, _, own, _, _, _, _) in sides])]
        for x, g, own, src, rank, row, pos in sides:
            t = row(u)
            r.append(z3.Implies(own(iexpr(u)), zb(band(iexpr(t) >= 0, iexpr(t) < iexpr(x.n), rank(iexpr(t)) == iexpr(u), cell_same(g(t), val(u))))))
        return band(*r)
    sp.add_fact(fact)
    sp.add_pair_fact(lambda i, j: z3.Implies(zb(i < j), G(iexpr(i)) < G(iexpr(j))))

    def down(u, h):
        for x, g, own, src, rank, row, pos in sides:
            x.space.touch(row(u), h + 1)
    sp.links.append(down)
    for x, g, own, src, rank, row, pos in sides:
        def up(r, h, x=x, g=g, own=own, src=src, rank=rank, pos=pos):
            u = pos(r)
            ok = zb(x.space.in_range(r))
            C().assume(z3.Implies(ok, zb(band(iexpr(u) >= 0, iexpr(u) < n, rank(iexpr(r)) == iexpr(u), own(iexpr(u)), src(iexpr(u)) == iexpr(r), cell_same(g(r), val(u))))))
            sp.touch(u, h + 1)
        x.space.add_link(up)
    r = SArr(sp, val, dt, a.kind if dt == 'time' else 'index', None)
    r.union_of = [(x, own, row) for x, _, own, _, _, row, _ in sides]
    return r


# ---------------------------------------------------------------- holidays

class DateSet:
    """the dates of a holiday rule or calendar within [lo, hi]: an unknown set of days"""

    def __init__(self, member, lo, hi):
        self.member, self.lo, self.hi = member, lo, hi

    def sv_member(self, x):
        if not isinstance(x, (ST, _dt.datetime)):
            return False
        x = time_of(x)
        return band(bnot(x.nat), bnot(self.lo.nat), bnot(self.hi.nat), iexpr(x.z) >= iexpr(self.lo.z), iexpr(x.z) <= iexpr(self.hi.z),
                    self.member(x))

    def sv_arr(self):
        raise Unsupported('materialised holiday list')

    def sv_getattr(self, nm):
        raise Unsupported('holiday list.%s' % nm)


_rule_ids = {}


class Rule:
    """pandas Holiday: an uninterpreted set of days determined by the rule"""

    def __init__(self, name, **kw):
        self.name, self.kw = name, kw
        key = repr((name, sorted((k, str(v)) for k, v in kw.items())))
        self.rid = _rule_ids.setdefault(key, len(_rule_ids))

    def member(self, x):
        d = day_of(x)
        return band(UF('holiday_%d' % self.rid, I, B)(iexpr(d)), iexpr(x.z) == iexpr(d) * DAY)

    def sv_getattr(self, nm):
        if nm == 'name':
            return self.name
        if nm == 'dates':
            return meth(lambda a, b, **k: DateSet(self.member, time_of(force(a)), time_of(force(b))), 'Holiday.dates')
        if nm in self.kw:
            return self.kw[nm]
        raise Unsupported('Holiday.%s' % nm)


class HolidayBase:
    """pandas AbstractHolidayCalendar as a base class"""
    _counter = 0

    def sv_init(self, o, args, kwargs):
        nm = kwargs.get('name', args[0] if args else None)
        o.attrs['name'] = nm if nm is not None else o.cls.name
        if kwargs.get('rules') is not None:
            o.attrs['rules'] = kwargs['rules']

    def sv_base_attr(self, o, nm):
        if nm == 'holidays':
            def holidays(start=None, end=None, return_name=False):
                rules = iterate(interp.getattr_(o, 'rules'))
                lo, hi = time_of(force(start)), time_of(force(end))

                def member(x):
                    return bor(*[r.member(x) for r in rules])
                return DateSet(member, lo, hi)
            return meth(holidays, 'AbstractHolidayCalendar.holidays')
        if nm == 'rules':
            return []
        return NotImplemented

    def check(self, v):
        return isinstance(v, IObj) and any(self in c.bases for c in v.cls.mro())


HOLBASE = TypeTok('AbstractHolidayCalendar')


def _hol_check(v):
    return isinstance(v, IObj) and any(HOLBASE in c.bases for c in v.cls.mro())


HOLBASE.check = _hol_check
_hb = HolidayBase()
HOLBASE.sv_init = _hb.sv_init
HOLBASE.sv_base_attr = _hb.sv_base_attr
HOLIDAY = TypeTok('Holiday', ctor=lambda name, **kw: Rule(name, **kw), check=lambda v: isinstance(v, Rule))


def pd_timestamp(v=None, *a, **k):
    v = force(v)
    if a or k:
        raise Unsupported('Timestamp options')
    return time_of(v)


PDMOD = LibMod('pandas', {
    'Series': TypeTok('Series', pd_series, check=lambda v: isinstance(v, PSeries)),
    'DataFrame': TypeTok('DataFrame', pd_frame, check=lambda v: isinstance(v, PFrame)),
    'DatetimeIndex': TypeTok('DatetimeIndex', pd_datetimeindex, check=lambda v: isinstance(v, SArr) and v.kind == 'dtindex'),
    'Index': TypeTok('Index', pd_index, check=is_index),
    'RangeIndex': TypeTok('RangeIndex', pd_rangeindex, check=lambda v: is_index(v) and getattr(v, 'is_range', False)),
    'Timestamp': TypeTok('Timestamp', pd_timestamp, check=lambda v: isinstance(v, ST)),
    'Timedelta': TypeTok('Timedelta', pd_timedelta, check=lambda v: isinstance(v, SD)),
    'DateOffset': TypeTok('DateOffset', pd_dateoffset, check=lambda v: isinstance(v, Offset)),
    'isnull': HostFn(pd_isnull, 'pandas.isnull'), 'isna': HostFn(pd_isnull, 'pandas.isna'),
    'notnull': HostFn(pd_notnull, 'pandas.notnull'), 'notna': HostFn(pd_notnull, 'pandas.notna'),
    'to_datetime': HostFn(pd_to_datetime, 'pandas.to_datetime'), 'to_timedelta': HostFn(pd_to_timedelta, 'pandas.to_timedelta'),
    'date_range': HostFn(pd_date_range, 'pandas.date_range'), 'concat': HostFn(pd_concat, 'pandas.concat'),
    'merge': HostFn(lambda l, r, **k: f_merge(l, r, **k), 'pandas.merge'),
    'NaT': ST(0, True), 'NA': None,
    'api': LibMod('pandas.api', {'types': LibMod('pandas.api.types', {'is_numeric_dtype': HostFn(is_numeric_dtype, 'is_numeric_dtype')})}),
})
