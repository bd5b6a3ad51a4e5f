"""Index spaces, 1-d and 2-d symbolic arrays.

A Space is the index set {0..n-1} of an array or table.  Universal facts about its elements are
kept as Python closures and instantiated at every index term that is inspected ("touched").
Derived spaces (filters, sorts, concatenations, quotients) are linked to their parents, so that
touching a row of one touches the corresponding rows of the others.
"""
import itertools
import z3
from .core import C, Unsupported, PathEnd
from .vals import *
from . import vals

_sid = itertools.count(1)
MAX_HOPS = 3
SCRATCH_HOP = 0
MORE_HOPS = 0       # added when a refutation is checked again with facts about more rows


def key_of(i):
    return i if isinstance(i, int) else ('z', i.get_id())


def frame():
    ctx = C()
    if not hasattr(ctx, 'frames'):
        ctx.frames = [{}]
        ctx.keep = []
    return ctx.frames[-1]


class scratch:
    """indices made in here only serve an auxiliary question: the facts about them are left out of the first attempts at an obligation"""

    def __enter__(self):
        C().scratch += 1
        C().hop += SCRATCH_HOP

    def __exit__(self, *a):
        C().scratch -= 1
        C().hop -= SCRATCH_HOP


class Space:
    def __init__(self, n, label=''):
        self.n = simp_i(n) if z3.is_expr(n) else n
        self.uid = next(_sid)
        self.label = label
        self.facts = []
        self.pair_facts = []
        self.links = []         # callables(i, hops) run when i is touched
        self.guards = {}        # key -> extra validity condition replacing the range test

    def __repr__(self):
        return 'Space#%d(%s,n=%s)' % (self.uid, self.label, self.n)

    def in_range(self, i):
        g = self.guards.get(key_of(i))
        if g is not None:
            return g[1]
        if isinstance(i, int) and isinstance(self.n, int):
            return 0 <= i < self.n
        return band(i >= 0, i < self.n)

    def touched(self):
        return frame().setdefault(('t', self.uid), {})

    def touch(self, i, hops=0):
        t = self.touched()
        k = key_of(i)
        ctx = C()
        hops = max(hops, ctx.hop)
        if k in t and (t[k][1] <= MAX_HOPS + MORE_HOPS or hops >= MAX_HOPS + MORE_HOPS):
            return
        t[k] = (i, hops)
        if ctx.scratch:
            ctx.scratch_keys.add((self.uid, k))
        if hops > MAX_HOPS + MORE_HOPS:
            return              # too far from any inspected row: no facts are instantiated here
        if not self.facts and not self.pair_facts and not self.links:
            return
        ctx.tick()
        saved, ctx.hop = ctx.hop, hops
        try:
            self._touch_new(i, k, t, hops)
        finally:
            ctx.hop = saved

    def _touch_new(self, i, k, t, hops):
        for f in list(self.facts):
            self._apply(f, i)
        for f in list(self.pair_facts):
            for k2, (j, _) in list(t.items()):
                if k2 != k and _ <= MAX_HOPS + MORE_HOPS:
                    self._apply2(f, i, j)
                    self._apply2(f, j, i)
        if hops <= MAX_HOPS + MORE_HOPS:
            for l in list(self.links):
                l(i, hops)

    def _apply(self, f, i):
        if not C().scratch and (self.uid, key_of(i)) in C().scratch_keys:
            with scratch():
                return self._apply(f, i)
        r = self.in_range(i)
        if r is False:
            return
        g = f(i)
        if g is True or g is None:
            return
        C().assume(z3.Implies(zb(r), zb(g)))

    def _apply2(self, f, i, j):
        if not C().scratch and ((self.uid, key_of(i)) in C().scratch_keys or (self.uid, key_of(j)) in C().scratch_keys):
            with scratch():
                return self._apply2(f, i, j)
        r = band(self.in_range(i), self.in_range(j))
        if r is False:
            return
        g = f(i, j)
        if g is True or g is None:
            return
        C().assume(z3.Implies(zb(r), zb(g)))

    def add_fact(self, f):
        self.facts.append(f)
        ctx = C()
        saved = ctx.hop
        try:
            for k, (i, h) in list(self.touched().items()):
                if h <= MAX_HOPS + MORE_HOPS:
                    ctx.hop = max(h, saved)
                    self._apply(f, i)
        finally:
            ctx.hop = saved

    def add_pair_fact(self, f):
        self.pair_facts.append(f)
        ctx = C()
        saved = ctx.hop
        l = [x for x in self.touched().values() if x[1] <= MAX_HOPS + MORE_HOPS]
        try:
            for a, h in l:
                for b, h2 in l:
                    if key_of(a) != key_of(b):
                        ctx.hop = max(h, h2, saved)
                        self._apply2(f, a, b)
        finally:
            ctx.hop = saved

    def add_link(self, l):
        self.links.append(l)
        ctx = C()
        saved = ctx.hop
        try:
            for k, (i, h) in list(self.touched().items()):
                if h <= MAX_HOPS + MORE_HOPS:
                    ctx.hop = max(h, saved)
                    if (self.uid, k) in ctx.scratch_keys and not ctx.scratch:
                        with scratch():
                            l(i, h)
                    else:
                        l(i, h)
        finally:
            ctx.hop = saved

    def generic(self, base='i'):
        """a fresh index; facts about it are guarded by its range"""
        i = C().fresh(z3.IntSort(), base)
        self.touch(i)
        return i


def forall(space, body, name, clause=None):
    """Obligation: body(i) for every i of the space."""
    i = C().fresh(z3.IntSort(), 'i')
    space.touch(i)
    g = body(i)
    C().prove(z3.Implies(zb(space.in_range(i)), zb(g)), name, clause)


def further(sp, i, f, by=2):
    """f(i) for an index derived from the one in progress: one link further away, also for all that it touches"""
    ctx = C()
    saved = ctx.hop
    ctx.hop = saved + by
    try:
        sp.touch(i, ctx.hop)
        return f(i)
    finally:
        ctx.hop = saved


def assume_forall(space, body):
    space.add_fact(body)


class SArr:
    """1-d array.  get(i) yields the scalar at raw index i (no range check)."""
    is_view = False
    ndim = 1

    def __init__(self, space, fn, dtype, kind='nd', name=None):
        if isinstance(space, int) or z3.is_expr(space):
            space = Space(space)
        self.space, self.fn, self.dtype, self.kind = space, fn, dtype, kind
        self.version = 0
        self._memo = {}
        self.uid = next(_sid)
        self.tag = {}
        self.name = name

    @property
    def n(self):
        return self.space.n

    def get(self, i):
        if isinstance(i, (SI, SB)):
            i = zi(i)
        if z3.is_expr(i):
            s = z3.simplify(i)
            if z3.is_int_value(s):
                i = s.as_long()
        fr = frame()
        m = fr.setdefault(('m', self.uid, self.version), {})
        k = key_of(i)
        if k in m:
            return m[k][0]
        self.space.touch(i)
        v = self.fn(i)
        m[k] = (v, i)
        return v

    def peek(self, i):
        return self.get(i)

    def __repr__(self):
        if isinstance(self.n, int) and self.n <= 12:
            try:
                return 'SArr[%s](%s)' % (self.dtype, ', '.join(str(self.fn(i)) for i in range(self.n)))
            except Exception:
                pass
        return 'SArr[%s] n=%s' % (self.dtype, self.n)

    @staticmethod
    def of(items, dtype=None, kind='nd'):
        items = list(items)
        if dtype is None:
            dtype = dtype_of_items(items)
        if dtype == 'float':
            items = [x if is_float(x) else (float(x) if not isinstance(x, SCALARS) else sf(x)) for x in items]

        def fn(i):
            return pick(items, i)
        a = SArr(Space(len(items)), fn, dtype, kind)
        a.items = items
        return a

    def concrete(self):
        return isinstance(self.n, int)

    def tolist(self):
        if not self.concrete():
            raise Unsupported('tolist of symbolic length')
        return [self.get(i) for i in range(self.n)]

    def copy(self, kind=None):
        r = SArr(self.space, self.fn, self.dtype, kind or self.kind, self.name)
        r.origin = self
        # keep the value even if the original is modified later
        r.fn = self.fn
        return r

    def setitem(self, cond, value_at):
        """destructive update: element i becomes value_at(i) where cond(i)"""
        if self.is_view:
            raise Unsupported('write through an array view')
        mark_mutation(self)
        old = self.fn
        sp = self.space

        def fn(i):
            c = cond(i)
            if c is True:
                return value_at(i)
            if c is False:
                return old(i)
            return s_ite(c, value_at(i), old(i))
        self.fn = fn
        self.version += 1


def snapshot(obj):
    if isinstance(obj, list):
        old = list(obj)

        def undo():
            obj[:] = old
    elif isinstance(obj, dict):
        old, sym = dict(obj), list(getattr(obj, 'sym', ()))

        def undo():
            obj.clear()
            dict.update(obj, old)
            if hasattr(obj, 'sym'):
                obj.sym[:] = sym
    elif hasattr(obj, 'sv_snapshot'):
        undo = obj.sv_snapshot()
    elif hasattr(obj, 'attrs') and not isinstance(obj, SArr):
        old = dict(obj.attrs)

        def undo():
            obj.attrs.clear()
            obj.attrs.update(old)
    elif isinstance(obj, SArr):
        fn, ver, sp, dt = obj.fn, obj.version, obj.space, obj.dtype

        def undo():
            obj.fn, obj.version, obj.space, obj.dtype = fn, ver, sp, dt
            obj._memo = {}
    else:
        def undo():
            pass
    return undo


BOOT_IDS = {}       # mutable objects that exist once the modules are loaded (kept alive by the modules)


def mark_mutation(obj):
    """Record (before it happens) a destructive update of obj on this path."""
    ctx = C()
    if id(obj) in BOOT_IDS and not ctx.boot:
        ctx.__dict__.setdefault('boot_writes', []).append(type(obj).__name__)
    tab = ctx.__dict__.setdefault('mutated', {})
    if id(obj) not in tab:
        tab[id(obj)] = (obj, snapshot(obj))
    for g in ctx.loop_guards:
        g.append(obj)


def undo_mutations(ctx):
    for obj, undo in ctx.__dict__.get('mutated', {}).values():
        undo()
    for undo in reversed(ctx.__dict__.get('undo', [])):
        undo()


def was_mutated(obj):
    return id(obj) in C().__dict__.get('mutated', {})


def dtype_of_items(items):
    if not items:
        return 'float'
    if any(is_float(x) for x in items):
        if all(is_num(x) for x in items):
            return 'float'
        return 'obj'
    if all(is_bool(x) for x in items):
        return 'bool'
    if all(is_num(x) for x in items):
        return 'int'
    if all(is_time(x) for x in items):
        return 'time'
    if all(isinstance(x, SD) for x in items):
        return 'td'
    if all(is_str(x) for x in items):
        return 'str'
    return 'obj'


def dtype_of(v):
    if isinstance(v, SArr):
        return v.dtype
    return dtype_of_items([v])


def pick(items, i):
    if isinstance(i, int):
        if 0 <= i < len(items):
            return items[i]
        return items[-1] if items else default_elem()
    if not items:
        return default_elem()
    v = items[-1]
    for k in range(len(items) - 2, -1, -1):
        v = s_ite(i == k, items[k], v)
    return v


def default_elem():
    return SF(z3.RealVal(0))


def s_ite(c, a, b):
    """if-then-else over scalars"""
    if isinstance(c, SB):
        c = c.z
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, MaybeNull) or isinstance(b, MaybeNull) or (a is None) != (b is None):
        na, nb = isnan(a), isnan(b)
        va = a.v if isinstance(a, MaybeNull) else a
        vb = b.v if isinstance(b, MaybeNull) else b
        if is_float(va) or is_float(vb) or is_time(va) or is_time(vb):
            pass
        else:
            v = vb if va is None else va if vb is None else s_ite(c, va, vb)
            return MaybeNull(v, ite(c, na, nb))
    if a is None and b is None:
        return None
    if isinstance(a, float) and a != a and not is_num(b):
        if isinstance(b, ST):
            return ST(b.z, ite(c, True, b.nat))
        if isinstance(b, SD):
            return SD(b.z, ite(c, True, b.nat))
        return MaybeNull(b, ite(c, True, isnan(b)))
    if isinstance(b, float) and b != b and not is_num(a):
        return s_ite(bnot(c), b, a)
    if is_float(a) or is_float(b):
        if is_num(a) and is_num(b):
            x, y = sf(a), sf(b)
            return SF(ite(c, x.r, y.r), ite(c, x.nan, y.nan), ite(c, x.inf, y.inf), x.np or y.np)
    if is_bool(a) and is_bool(b):
        return mkb(ite(c, a.z if isinstance(a, SB) else a, b.z if isinstance(b, SB) else b))
    if is_num(a) and is_num(b):
        return mki(ite(c, zi(a), zi(b)))
    if is_str(a) and is_str(b):
        return mks(z3.If(c, zs(a), zs(b)))
    if isinstance(a, ST) and isinstance(b, ST):
        return ST(ite(c, a.z, b.z), ite(c, a.nat, b.nat))
    if isinstance(a, SD) and isinstance(b, SD):
        return SD(ite(c, a.z, b.z), ite(c, a.nat, b.nat))
    if isinstance(a, Cell) and isinstance(b, Cell):
        return a.ite(c, b)
    if isinstance(a, Cell) or isinstance(b, Cell):
        x = a if isinstance(a, Cell) else Cell.lift(a)
        y = b if isinstance(b, Cell) else Cell.lift(b)
        return x.ite(c, y)
    if type(a) is type(b) and a == b:
        return a
    x, y = Cell.lift(a), Cell.lift(b)
    return x.ite(c, y)


class Cell:
    """An object-dtype cell: guarded alternatives of arbitrary host/symbolic values."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    @staticmethod
    def lift(v):
        return Cell([(True, v)])

    def ite(self, c, other):
        if isinstance(c, SB):
            c = c.z
        return Cell([(band(c, g), v) for g, v in self.alts] + [(band(bnot(c), g), v) for g, v in other.alts])

    def force(self):
        """resolve to one alternative by branching"""
        for g, v in self.alts[:-1]:
            if C().branch(zb(g), 'object cell'):
                return v
        return self.alts[-1][1]

    def sv_isnull(self):
        return bor(*[band(g, isnan(v)) for g, v in self.alts])

    def __repr__(self):
        return 'Cell(%s)' % (self.alts,)


class SMat:
    """2-d array (shape n0 x n1)"""
    ndim = 2
    kind = 'nd'

    def __init__(self, n0, n1, fn, dtype='float', rows=None):
        self.n0, self.n1, self.fn, self.dtype = n0, n1, fn, dtype
        self.uid = next(_sid)
        self.rows = rows

    @staticmethod
    def of_rows(rows):
        gets = [frozen(r) for r in rows]

        def fn(i, j):
            if isinstance(i, int):
                return gets[i](j)
            return pick([g(j) for g in gets], i)
        return SMat(len(rows), rows[0].n, fn, 'float', list(rows))

    def get(self, i, j):
        return self.fn(i, j)

    def row(self, i):
        if self.rows is not None and isinstance(i, int):
            return self.rows[i]
        r = SArr(Space(self.n1), lambda j: self.get(i, j), self.dtype)
        r.is_view = True
        return r

    def __repr__(self):
        return 'SMat(%s,%s)' % (self.n0, self.n1)


# ---------------------------------------------------------------- elementwise

def same_len(a, b):
    """True / False(raise) / 'broadcast a' decisions on lengths"""
    na, nb = a.n, b.n
    if a.space is b.space or beq(na, nb) is True:
        return True
    e = beq(na, nb)
    if e is False:
        return False
    return C().branch(zb(e), 'array lengths agree')


def join_space(arrs):
    sp = None
    base = None
    for a in arrs:
        if base is None:
            base = a
            continue
        if a.space is base.space:
            continue
        if not same_len(base, a):
            # numpy broadcasts length-1 operands
            if beq(a.n, 1) is True or (beq(a.n, 1) is not False and C().branch(zb(beq(a.n, 1)), 'broadcast')):
                continue
            if beq(base.n, 1) is True or (beq(base.n, 1) is not False and C().branch(zb(beq(base.n, 1)), 'broadcast')):
                base = a
                continue
            raise_py(ValueError, 'operands could not be broadcast together')
    return base.space


def ew(f, dtype, *args):
    """elementwise map"""
    arrs = [a for a in args if isinstance(a, SArr)]
    sp = join_space(arrs)
    bc = []
    for a in args:
        if isinstance(a, SArr):
            if a.space is not sp and beq(a.n, sp.n) is not True and beq(a.n, 1) is True:
                bc.append(lambda i, a=a: a.get(0))
            else:
                bc.append(frozen(a))
        else:
            bc.append(lambda i, a=a: a)
    kind = 'nd'
    return SArr(sp, lambda i: f(*[g(i) for g in bc]), dtype, kind)


def frozen(a):
    """element accessor that keeps the present contents of a"""
    if isinstance(a, SArr):
        fn, sp, ver, uid = a.fn, a.space, a.version, a.uid
        if hasattr(a, 'items'):
            return lambda i: fn(i)
        c = SArr.__new__(SArr)
        c.__dict__.update(a.__dict__)
        return c.get
    raise Unsupported('frozen')


def arith_dtype(op, *ds):
    if op == '/':
        return 'float'
    if 'float' in ds:
        return 'float'
    if all(d == 'bool' for d in ds) and op in ('+', '*', '&', '|', '^'):
        return 'bool'
    return 'int'


# ---------------------------------------------------------------- derived spaces

def filter_space(parent, cond, label='filter'):
    """Subset of parent where cond holds, in order.  Returns (space, src, forward)."""
    ctx = C()
    n = ctx.fresh(z3.IntSort(), 'nf')
    fs = ctx.fn('src', z3.IntSort(), z3.IntSort())
    fr = ctx.fn('rank', z3.IntSort(), z3.IntSort())
    ctx.assume(z3.And(n >= 0, n <= parent.n))
    sp = Space(n, label)
    back, fwd = {}, {}

    def src(i):
        k = key_of(i)
        if k in back:
            return back[k][0]
        t = fs(z3.IntVal(i) if isinstance(i, int) else i)
        back[k] = (t, i)
        fwd[key_of(t)] = (i if z3.is_expr(i) else z3.IntVal(i), t)
        return t

    def rank(t):
        k = key_of(t)
        if k in fwd:
            return fwd[k][0]
        r = fr(z3.IntVal(t) if isinstance(t, int) else t)
        fwd[k] = (r, t)
        back[key_of(r)] = (t, r)
        sp.guards[key_of(r)] = (r, band(parent.in_range(t), cond(t)))
        return r

    def fact(i):
        t = src(i)
        if key_of(i) in sp.guards:       # i == rank(t): the guard already says so
            return band(i >= 0, i < n)
        return band(t >= 0, t < parent.n, cond(t), fr(t) == i)
    sp.add_fact(fact)
    sp.add_pair_fact(lambda i, j: (i < j) == (src(i) < src(j)))

    def down(i, hops):
        parent.touch(src(i), hops)
    sp.links.append(down)

    def up(t, hops):
        r = rank(t)
        C().assume(z3.Implies(zb(band(parent.in_range(t), cond(t))), z3.And(fs(r) == t, r >= 0, r < n)))
        sp.touch(r, hops)
    parent.add_link(up)
    # emptiness <=> no element satisfies cond
    C().assume(z3.Implies(n == 0, z3.BoolVal(True)))
    sp.parent, sp.src, sp.rank, sp.cond = parent, src, rank, cond
    sp.forward = lambda t: (cond(t), rank(t))
    w = ctx.fresh(z3.IntSort(), 'w')
    # if non-empty there is element 0
    return sp


def perm_space(parent, less, label='sort', stable=True):
    """A permutation of parent, sorted: less(a,b) (raw bool over parent indices) never holds for a later-before pair."""
    ctx = C()
    fs = ctx.fn('perm', z3.IntSort(), z3.IntSort())
    fr = ctx.fn('pinv', z3.IntSort(), z3.IntSort())
    sp = Space(parent.n, label)
    back, fwd = {}, {}

    def src(i):
        k = key_of(i)
        if k in back:
            return back[k][0]
        t = fs(z3.IntVal(i) if isinstance(i, int) else i)
        back[k] = (t, i)
        fwd[key_of(t)] = (i if z3.is_expr(i) else z3.IntVal(i), t)
        return t

    def rank(t):
        k = key_of(t)
        if k in fwd:
            return fwd[k][0]
        r = fr(z3.IntVal(t) if isinstance(t, int) else t)
        fwd[k] = (r, t)
        back[key_of(r)] = (t, r)
        sp.guards[key_of(r)] = (r, parent.in_range(t))
        return r

    def fact(i):
        t = src(i)
        if key_of(i) in sp.guards:
            return band(i >= 0, i < sp.n)
        return band(t >= 0, t < parent.n, fr(t) == i)
    sp.add_fact(fact)

    def pf(i, j):
        a, b = src(i), src(j)
        f = z3.Implies(i < j, zb(bnot(less(b, a))))
        if stable:
            f = z3.And(f, z3.Implies(z3.And(i < j, zb(bnot(less(a, b)))), a < b))
        return z3.And(f, (i == j) == (a == b))
    if less is not None:
        sp.add_pair_fact(pf)
    else:
        sp.add_pair_fact(lambda i, j: (i == j) == (src(i) == src(j)))
    sp.links.append(lambda i, h: parent.touch(src(i), h))

    def up(t, hops):
        r = rank(t)
        C().assume(z3.Implies(zb(parent.in_range(t)), z3.And(fs(r) == t, r >= 0, r < sp.n)))
        sp.touch(r, hops)
    state = []

    def touch(i, hops=0):           # rows of the parent are linked only once the sorted rows are looked at
        if not state:
            state.append(1)
            parent.add_link(up)
        Space.touch(sp, i, hops)
    sp.touch = touch
    sp.parent, sp.src, sp.rank = parent, src, rank
    sp.forward = lambda t: (True, rank(t))
    return sp


def iexpr(i):
    return z3.IntVal(i) if isinstance(i, int) else i


def concat_space(parents, label='concat'):
    offs = [0]
    for p in parents:
        offs.append(simp_i(iexpr(offs[-1]) + p.n) if z3.is_expr(offs[-1]) or z3.is_expr(p.n) else offs[-1] + p.n)
    sp = Space(offs[-1], label)
    home, alias = {}, {}

    def local(k, i):
        """index in parent k of the child index i"""
        h = home.get(key_of(i))
        if h is not None and h[0] == k:
            return h[1]
        o = offs[k]
        if isinstance(i, int) and isinstance(o, int):
            return i - o
        return simp_i(iexpr(i) - o)

    def which(i):
        """list of (cond, parent index k, local index)"""
        h = home.get(key_of(i))
        if h is not None:
            return [(True, h[0], h[1])]
        out = []
        for k, p in enumerate(parents):
            lo, hi = offs[k], offs[k + 1]
            if isinstance(i, int) and isinstance(lo, int) and isinstance(hi, int):
                if lo <= i < hi:
                    return [(True, k, i - lo)]
                continue
            c = band(i >= lo if not (isinstance(lo, int) and lo == 0) else True, i < hi)
            out.append((c, k, local(k, i)))
        return out

    def link(i, h):
        for c, k, li in which(i):
            parents[k].touch(li, h)
    sp.links.append(link)

    def fwd(k, j):
        o = offs[k]
        if isinstance(j, int) and isinstance(o, int):
            return j + o
        i = simp_i(iexpr(j) + o)
        if isinstance(i, int):
            return i
        if key_of(i) in sp.touched():
            return i
        if isinstance(o, int) and o == 0:       # the term is the part's own index: its own name as a row of the whole
            if key_of(j) not in alias:
                alias[key_of(j)] = (C().fresh(z3.IntSort(), 'cat'), j)
                C().assume(alias[key_of(j)][0] == i)
            i = alias[key_of(j)][0]
        if key_of(i) not in home:
            if True:
                home[key_of(i)] = (k, j, i)
                sp.guards[key_of(i)] = (i, parents[k].in_range(j))
            C().assume(z3.Implies(zb(parents[k].in_range(j)), z3.And(i >= 0, i < sp.n)))
        return i
    for k, p in enumerate(parents):
        def up(j, h, k=k):
            if not isinstance(j, int) or not isinstance(offs[k], int):
                sp.touch(fwd(k, j), h)
        p.add_link(up)
    sp.parents, sp.which, sp.fwd, sp.offs = parents, which, fwd, offs
    return sp


def concat_arrays(arrs, dtype=None):
    if all(a.concrete() and hasattr(a, 'items') and a.version == 0 for a in arrs):
        return SArr.of([x for a in arrs for x in a.items], dtype)
    ds = [a.dtype for a in arrs if not (a.concrete() and a.n == 0 and len(arrs) > 1 and False)]
    if dtype is None:
        dtype = ds[0] if all(d == ds[0] for d in ds) else \
            'float' if all(d in ('float', 'int', 'bool') for d in ds) else 'obj'
    sp = concat_space([a.space for a in arrs])
    gets = [frozen(a) for a in arrs]

    def fn(i):
        v = None
        alts = sp.which(i)
        if not alts:
            return default_elem()
        for c, k, li in reversed(alts):
            x = gets[k](li)
            v = x if v is None else s_ite(c, x, v)
        return v
    return SArr(sp, fn, dtype)


# ---------------------------------------------------------------- universal / existential over arrays

def exists(space, cond, base='ex'):
    """raw bool: some index satisfies cond; witness and universal facts are attached."""
    ctx = C()
    if isinstance(space.n, int) and space.n <= 16:
        return bor(*[cond(i) for i in range(space.n)])
    b = ctx.fresh(z3.BoolSort(), base)
    w = ctx.fresh(z3.IntSort(), base + '_w')
    space.touch(w)
    ctx.assume(z3.Implies(b, zb(band(w >= 0, w < space.n, cond(w)))))
    space.add_fact(lambda i: bor(b, bnot(cond(i))))
    return b


def forall_b(space, cond, base='all'):
    return bnot(exists(space, lambda i: bnot(cond(i)), base))


def arr_eq_cond(a, b):
    """raw bool: arrays are equal elementwise (by a Skolem witness; usable as hypothesis antecedent)."""
    ln = beq(a.n, b.n)
    if ln is False:
        return False
    if a is b or (a.space is b.space and a.fn is b.fn):
        return True
    if isinstance(a.n, int) and isinstance(b.n, int):
        return band(*[cell_same(a.get(i), b.get(i)) for i in range(a.n)])
    w = C().fresh(z3.IntSort(), 'ext')
    a.space.touch(w)
    b.space.touch(w)
    return band(ln, z3.Implies(zb(a.space.in_range(w)), zb(cell_same(a.get(w), b.get(w)))))


def cell_same(x, y):
    """raw bool: specification equality of two scalars (NaN equals NaN)"""
    if x is y:
        return True
    if isinstance(x, Cell) or isinstance(y, Cell):
        xs = x.alts if isinstance(x, Cell) else [(True, x)]
        ys = y.alts if isinstance(y, Cell) else [(True, y)]
        return bor(*[band(g, h, cell_same(a, b)) for g, a in xs for h, b in ys])
    if isinstance(x, MaybeNull) or isinstance(y, MaybeNull):
        nx, ny = isnan(x), isnan(y)
        vx = x.v if isinstance(x, MaybeNull) else x
        vy = y.v if isinstance(y, MaybeNull) else y
        if vx is None or vy is None or (isinstance(vx, float) and vx != vx) or (isinstance(vy, float) and vy != vy):
            return band(nx, ny)
        return bor(band(nx, ny), band(bnot(nx), bnot(ny), cell_same(vx, vy)))
    if x is None or y is None:
        return band(isnan(x), isnan(y))
    if is_num(x) and is_num(y):
        if is_float(x) or is_float(y):
            return f_same(x, y)
        return num_cmp('==', x, y)
    if is_str(x) and is_str(y):
        return s_eq(x, y)
    if isinstance(x, ST) and isinstance(y, ST):
        return bor(band(x.nat, y.nat), band(bnot(x.nat), bnot(y.nat), beq(x.z, y.z)))
    if isinstance(x, SD) and isinstance(y, SD):
        return bor(band(x.nat, y.nat), band(bnot(x.nat), bnot(y.nat), beq(x.z, y.z)))
    if isinstance(x, SArr) and isinstance(y, SArr):
        return arr_eq_cond(x, y)
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        if len(x) != len(y):
            return False
        return band(*[cell_same(a, b) for a, b in zip(x, y)])
    if type(x) is not type(y):
        return False
    if hasattr(x, 'same_as'):
        return x.same_as(y)
    try:
        return bool(x == y)
    except Exception:
        return False


# ---------------------------------------------------------------- canonical filters and reductions

def tab(name):
    return C().__dict__.setdefault('tab_' + name, {})


def provably(cond):
    """cond (raw) holds on this path"""
    if isinstance(cond, bool):
        return cond
    ctx = C()
    if ctx.cap_stack:
        return z3.is_true(z3.simplify(cond))
    return ctx.check(z3.Not(cond), ms=3000)[0] == z3.unsat


def subset(parent, cond, label='filter'):
    """Rows of `parent` satisfying cond, in order.

    Subsets of subsets are expressed over the root, and two subsets of one root whose conditions are
    provably equivalent are the same space (congruence of filtering).  Returns (space, src) with src
    mapping a row of the subset to its row in `parent`."""
    small = small_subset(parent, cond, label)
    if small is not None:
        return small
    root = getattr(parent, 'froot', parent)
    if root is parent:
        rc = cond
    else:
        pc, pr = parent.fcond, parent.rank

        def rc(t):
            c = pc(t)
            if c is False:
                return False
            return band(c, cond(pr(t)))
    known = tab('filters').setdefault(root.uid, [])
    if not C().cap_stack:
        w = C().fresh(z3.IntSort(), 'fw')
        with scratch():
            root.touch(w)
            cw = rc(w)
        rng = root.in_range(w)
        if cw is True or (cw is not False and provably(z3.Implies(zb(rng), zb(cw)))):
            # nothing is removed
            if root is parent:
                return parent, (lambda i: i)
            return _as_child(root, parent)
        for sp in known:
            with scratch():
                c2 = sp.fcond(w)
            if c2 is cw or (z3.is_expr(cw) and z3.is_expr(c2) and cw.eq(c2)) or \
                    provably(z3.Implies(zb(rng), zb(cw) == zb(c2))):
                return _as_child(sp, parent)
    sp = filter_space(root, rc, label)
    sp.froot, sp.fcond = root, rc
    # emptiness: if the filter is empty no row satisfies the condition (follows from the forward link)
    known.append(sp)
    tab('keep').setdefault('spaces', []).append((root, parent))
    return _as_child(sp, parent)


def select_space(parent, rows, label):
    """the space of the listed rows of a space of known size"""
    t = tab('selected')
    k = (parent.uid, tuple(rows))
    if k in t:
        return t[k][0]
    sp = Space(len(rows), label)
    sp.parent = parent

    def src(i):
        if isinstance(i, int):
            return rows[i] if 0 <= i < len(rows) else 0
        return pick_int(rows, i)

    def rank(v):
        if isinstance(v, int):
            return rows.index(v) if v in rows else -1
        r = z3.IntVal(-1)
        for q, u in enumerate(rows):
            r = z3.If(v == u, z3.IntVal(q), r)
        return r
    sp.src, sp.rank = src, rank
    sp.forward = lambda v: ((v in rows) if isinstance(v, int) else bor(*[v == u for u in rows]), rank(v))
    t[k] = (sp, parent)
    return sp


def pick_int(rows, i):
    r = z3.IntVal(rows[-1] if rows else 0)
    for q in range(len(rows) - 2, -1, -1):
        r = z3.If(i == q, z3.IntVal(rows[q]), r)
    return r


def small_subset(parent, cond, label):
    """a filter of a few rows whose outcome is already decided on this path"""
    if not isinstance(parent.n, int) or parent.n > 6 or C().cap_stack:
        return None
    rows = []
    for i in range(parent.n):
        c = cond(i)
        if not isinstance(c, bool):
            c = True if provably(c) else (False if provably(bnot(c)) else None)
        if c is None:
            return None
        if c:
            rows.append(i)
    if len(rows) == parent.n:
        return parent, (lambda i: i)
    sp = select_space(parent, rows, label)
    return sp, sp.src


def _as_child(sp, parent):
    root = getattr(parent, 'froot', parent)
    if sp is parent:
        return sp, (lambda i: i)
    if sp is root:
        # a subset equal to the whole root
        return sp, (lambda i: parent.rank(i))
    if root is parent:
        return sp, sp.src
    return sp, (lambda i: parent.rank(sp.src(i)))


def same_content(a, b):
    """arrays provably equal elementwise on this path (bool)"""
    if a is b:
        return True
    ln = beq(a.n, b.n)
    if ln is False or not provably(ln):
        return False
    if isinstance(a.n, int) and a.n <= 8:
        return provably(band(*[cell_same(a.get(i), b.get(i)) for i in range(a.n)]))
    w = C().fresh(z3.IntSort(), 'sw')
    with scratch():
        a.space.touch(w)
        b.space.touch(w)
        e = cell_same(a.get(w), b.get(w))
    if e is True:
        return True
    if e is False:
        return False
    return provably(z3.Implies(zb(a.space.in_range(w)), zb(e)))


def thaw(a):
    """a read-only copy that keeps the present contents"""
    g = frozen(a)
    r = SArr(a.space, g, a.dtype, a.kind)
    return r


def reduction(name, arr, make, *params):
    """A function of the contents of arr: equal contents give the same result."""
    t = tab('red').setdefault((name,) + params, [])
    for a, v in t:
        if same_content(a, arr):
            return v
    v = make()
    t.append((thaw(arr), v))
    return v
