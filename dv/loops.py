"""Loops and comprehensions over a sequence of unknown length.

The rule: the body is executed once, for an arbitrary index j of the sequence, in a state where every variable the body
assigns is unknown. It is accepted only when the iterations are independent, which is checked, not assumed: apart from
appending exactly one element to lists that were empty before the loop (a statement at the top level of the body), the
body updates no object that existed before the loop, and it neither breaks, continues nor returns. After the loop such a
list has one element per element of the sequence, and element j is the one that was computed; nothing is known about the
other elements. As j is arbitrary, what is proved of element j holds of all of them. An obligation about any row of a
concatenation of such a list is proved for the rows that come from element j, which is every row, for one choice of j."""
import ast
import z3
from .core import C, Unsupported
from .vals import *
from . import arrays, interp
from .arrays import SArr, Space, key_of, band, iexpr, zb


class MapSeq(interp.SymSeq):
    """a list with one element per element of a sequence; the element at the arbitrary index j is known"""

    def __init__(self, space, j, elem, forks, over):
        interp.SymSeq.__init__(self, space, self.at)
        self.j, self.elem, self.forks, self.over = j, elem, forks, over

    def at(self, i):
        if key_of(i) == key_of(self.j) or (z3.is_expr(i) and arrays.provably(i == self.j)):
            return self.elem
        raise Unsupported('an element of a list computed by a loop of unknown length')

    def sv_iter(self):
        return None


def sequence(it):
    it = interp.force(it)
    if hasattr(it, 'sv_arr') and not isinstance(it, SArr):
        it = it.sv_arr()
    if isinstance(it, MapSeq):
        return it.space, it.j, it.elem, it.over
    if not isinstance(it, (SArr, interp.SymSeq)):
        raise Unsupported('a loop over %s of unknown length' % type(it).__name__)
    sp = it.space
    j = getattr(sp, 'arbitrary', None)
    if j is None:
        j = sp.arbitrary = C().fresh(I, 'j')
        sp.touch(j)
        up = sp                 # row 0 of every space it is selected from decides whether it is empty
        while up is not None:
            up.touch(0)
            up = getattr(up, 'parent', None)
    return sp, j, it.get(j), it


def names_stored(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
    return out


def appended(s):
    """(list variable, element expression) of a statement that appends one element"""
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and \
            isinstance(s.value, ast.List) and len(s.value.elts) == 1 and not isinstance(s.value.elts[0], ast.Starred):
        return s.target.id, s.value.elts[0]
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
            s.value.func.attr == 'append' and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1 and \
            not s.value.keywords and not isinstance(s.value.args[0], ast.Starred):
        return s.value.func.value.id, s.value.args[0]
    return None


def leaves(stmts):
    """break, continue or return of this loop"""
    for s in stmts:
        if isinstance(s, (ast.Break, ast.Continue, ast.Return)):
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(s, (ast.For, ast.While)):
            if any(isinstance(n, ast.Return) for n in ast.walk(s)) or leaves(s.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if leaves(getattr(s, f, [])):
                return True
        for h in getattr(s, 'handlers', []):
            if leaves(h.body):
                return True
    return False


def reachable(env):
    seen, todo = {}, []
    e = env
    while e is not None:
        todo += list(e.vars.values())
        e = e.parent
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, (int, float, str, bool)) or id(o) in seen or z3.is_expr(o):
            continue
        seen[id(o)] = o
        if isinstance(o, (list, tuple)):
            todo += list(o)
        elif isinstance(o, dict):
            todo += list(o.values())
        elif isinstance(o, interp.IDict):
            todo += [v for k, v in o.allitems()]
        elif isinstance(o, interp.IObj):
            todo += list(o.attrs.values())
        else:
            for f in ('cols', 'a', 'index', 'df', 'frame', 's', 'items'):
                v = getattr(o, f, None)
                if v is not None and not callable(v):
                    todo.append(v)
    return seen


def guarded(env, f):
    """runs f; it may only update objects it has made itself"""
    ctx = C()
    old = reachable(env)
    g = []
    ctx.loop_guards.append(g)
    try:
        r = f()
    finally:
        ctx.loop_guards.pop()
    for o in g:
        if id(o) in old or id(o) in arrays.BOOT_IDS:
            raise Unsupported('a loop of unknown length updates an object from outside')
    return r


def exec_for_symbolic(s, it, env):
    ctx = C()
    sp, j, x, over = sequence(it)
    if s.orelse or leaves(s.body):
        raise Unsupported('for@%d: leaves a loop of unknown length' % s.lineno)
    accs = {}
    for st in s.body:
        a = appended(st)
        if a is not None:
            accs[a[0]] = accs.get(a[0], 0) + 1
    lists = {}
    for nm in accs:
        l = interp.lookup(nm, env)
        if not isinstance(l, list) or l or accs[nm] != 1:
            raise Unsupported('for@%d: appends to %s' % (s.lineno, nm))
        lists[nm] = l
    if not ctx.branch(zb(iexpr(sp.n) >= 1), 'for@%d' % s.lineno):
        return
    ctx.assume(zb(sp.in_range(j)))
    havoc = (names_stored(s.body) | names_stored([ast.Assign(targets=[s.target], value=None)])) - set(lists)
    for st in s.body:       # a list that grows is not used in any other way inside the body
        e = appended(st)
        for n in ast.walk(e[1] if e else st):
            if isinstance(n, ast.Name) and n.id in lists:
                raise Unsupported('for@%d: %s is used while it grows' % (s.lineno, n.id))
    for nm in havoc:
        interp.store_name(nm, interp.HAVOC, env)
    since = len(ctx.trail)
    out = {}

    def body():
        interp.assign(s.target, x, env)
        for st in s.body:
            a = appended(st)
            if a is None:
                interp.exec_stmt(st, env)
            else:
                out[a[0]] = interp.ev(a[1], env)
    guarded(env, body)
    f = ctx.forks(since)
    for nm in havoc:
        interp.store_name(nm, interp.HAVOC, env)
    for nm, l in lists.items():
        arrays.mark_mutation(l)
        interp.store_name(nm, MapSeq(sp, j, out[nm], f, over), env)
        if sum(1 for e in _envs(env) for v in e.vars.values() if v is l):
            raise Unsupported('for@%d: two names of one list' % s.lineno)


def _envs(env):
    while env is not None:
        yield env
        env = env.parent


def comp_symbolic(n, it, env):
    ctx = C()
    g = n.generators[0]
    sp, j, x, over = sequence(it)
    if g.ifs:
        raise Unsupported('a conditional comprehension over an unknown number of elements')
    if not ctx.branch(zb(iexpr(sp.n) >= 1), 'comprehension'):
        return []
    ctx.assume(zb(sp.in_range(j)))
    since = len(ctx.trail)
    e2 = interp.Env(env.mod, env, interp.comp_targets(n.generators))
    r = []

    def body():
        interp.assign(g.target, x, e2)
        r.append(interp.ev(n.elt, e2))
    guarded(env, body)
    return MapSeq(sp, j, r[0], ctx.forks(since), over)


# ---------------------------------------------------------------- concatenation of such a list

def part_space(seq, local):
    """rows of the concatenation: part(r) is the element a row comes from, pos(r) the row in it; local: rows of element j"""
    ctx = C()
    j, parts = seq.j, seq.space
    n = ctx.fresh(I, 'nc')
    ctx.assume(n >= 0)
    ctx.assume(n >= zi_(local.n))
    sp = Space(n, 'parts')
    fp, fi, fw = ctx.fn('part', I, I), ctx.fn('pos', I, I), ctx.fn('row_of', I, I, I)
    back, home = {}, {}

    def part(r):
        h = home.get(key_of(r))
        return j if h is not None else fp(iexpr(r))

    def pos(r):
        h = home.get(key_of(r))
        return h[0] if h is not None else fi(iexpr(r))

    def fact(r):
        if key_of(r) in home:
            return band(r >= 0, r < n, fp(r) == j, fi(r) == iexpr(home[key_of(r)][0]))
        p, i = fp(iexpr(r)), fi(iexpr(r))
        return band(p >= 0, p < iexpr(parts.n), i >= 0, z3.Implies(p == j, i < iexpr(local.n)), fw(p, i) == iexpr(r))
    sp.add_fact(fact)

    def pf(r, q):
        lex = z3.Or(fp(iexpr(r)) < fp(iexpr(q)), z3.And(fp(iexpr(r)) == fp(iexpr(q)), fi(iexpr(r)) < fi(iexpr(q))))
        return zb(iexpr(r) < iexpr(q)) == lex
    sp.add_pair_fact(pf)

    def down(r, h):
        if key_of(r) in home:
            local.touch(home[key_of(r)][0], h)
            return
        p, i = fp(iexpr(r)), fi(iexpr(r))
        back[key_of(i)] = i      # row i of element j when p == j, some row of it or none otherwise
        local.touch(i, h)
    sp.links.append(down)

    def row(i):
        """the row of the concatenation that is row i of element j"""
        r = fw(j, iexpr(i))
        if key_of(r) not in home:
            home[key_of(r)] = (i, r)
            sp.guards[key_of(r)] = (r, local.in_range(i))
            ctx2 = C()
            ctx2.assume(z3.Implies(zb(local.in_range(i)), z3.And(r >= 0, r < n, fp(r) == j, fi(r) == iexpr(i))))
        return r

    def up(i, h):
        if key_of(i) not in back:
            sp.touch(row(i), h)
    local.add_link(up)
    sp.part, sp.pos, sp.row, sp.seq, sp.local = (lambda r: fp(iexpr(r))), pos, row, seq, local
    sp.is_j = lambda r: True if key_of(r) in home else fp(iexpr(r)) == j
    return sp


def zi_(n):
    return iexpr(n)


def unlike(proto, name):
    """an arbitrary value of the kind of proto for each row"""
    ctx = C()
    v = interp.force(proto)
    if is_bool(v):
        f = ctx.fn(name, I, B)
        return lambda i: SB(f(iexpr(i)))
    if is_str(v):
        f = ctx.fn(name, I, z3.StringSort())
        return lambda i: SS(f(iexpr(i)))
    if isinstance(v, ST):
        f, h = ctx.fn(name, I, I), ctx.fn(name + '_null', I, B)
        return lambda i: ST(f(iexpr(i)), h(iexpr(i)))
    if is_float(v):
        f, h, g = ctx.fn(name, I, R), ctx.fn(name + '_null', I, B), ctx.fn(name + '_inf', I, I)
        return lambda i: SF(f(iexpr(i)), h(iexpr(i)), g(iexpr(i)))
    if is_num(v):
        f = ctx.fn(name, I, I)
        return lambda i: mki(f(iexpr(i)))
    return None


def concat_array(sp, a, name):
    g = arrays.frozen(a)
    kind = {}

    def fn(r):
        c = sp.is_j(r)
        v = g(sp.pos(r))
        if c is True:
            return v
        if 'u' not in kind:
            kind['u'] = unlike(v, 'other_' + name)
        if kind['u'] is None:
            if arrays.provably(c):
                return v
            raise Unsupported('column %s of another element' % name)
        return arrays.s_ite(c, v, kind['u'](r))
    return SArr(sp, fn, a.dtype)


def pd_concat_seq(seq, ignore_index):
    from . import lib_pd
    f = interp.force(seq.elem)
    if seq.forks:
        raise Unsupported('the iterations of a loop of unknown length may take different branches')
    if isinstance(f, lib_pd.PSeries):
        sp = part_space(seq, f.space)
        return lib_pd.PSeries(concat_array(sp, f.a, 'value'), None if ignore_index else concat_array(sp, f.index, 'index'), f.name)
    if not isinstance(f, lib_pd.PFrame):
        raise Unsupported('concat of %r' % (f,))
    key = ('concat', seq.space.uid, f.space.uid)
    t = lib_pd.tab('seq_concat')
    sp = t.get(key)
    if sp is None:
        sp = t[key] = part_space(seq, f.space)
    new = {c: concat_array(sp, a, str(c)) for c, a in f.cols.items()}
    ix = lib_pd.range_index(sp) if ignore_index else lib_pd.as_index(concat_array(sp, f.index, 'index'))
    return lib_pd.PFrame(sp, new, ix)
