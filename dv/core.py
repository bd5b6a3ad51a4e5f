"""Core of the deductive verifier: symbolic-execution context, obligations, path exploration.

Every path of the function under verification is executed symbolically.  Branch decisions are
explored depth-first by re-execution; a path is a conjunction of quantifier-free facts.  Universal
facts ("for every row ...") are attached to index spaces (see arrays.py) and instantiated at every
index term that is ever inspected, so each proof query is quantifier free and a `sat` answer is a
model of everything that was asserted.
"""
import time, subprocess, tempfile, os
from . import fastz3        # noqa: speeds up the binding
import z3

Z3_BRANCH_MS = 2500
Z3_PROVE_MS = 8000
Z3_QUICK_MS = 2000
Z3_FEWER_MS = 4000


class Unsupported(Exception):
    """The text uses something outside the verifier's subset: the unit is undecided."""


class PathEnd(Exception):
    """The current path is infeasible or was cut."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, exc):
        self.exc = exc
        super().__init__(repr(exc))


class Budget(Unsupported):
    pass


class Obligation:
    __slots__ = ('unit', 'name', 'status', 'backend', 'time', 'path', 'model', 'clause', 'line')

    def __init__(self, unit, name, status, backend, t, path, model=None, clause=None):
        self.unit, self.name, self.status, self.backend = unit, name, status, backend
        self.time, self.path, self.model, self.clause = t, path, model, clause

    def as_dict(self):
        return {'unit': self.unit, 'obligation': self.name, 'status': self.status,
                'backend': self.backend, 'seconds': round(self.time, 3), 'path': self.path,
                'model': self.model}


class Ctx:
    def __init__(self, unit='', prefix=(), deadline=None, boot=False):
        self.unit = unit
        self.prefix = list(prefix)
        self.trail = []          # decisions taken on this path
        self.forced = []
        self.pending = []        # alternative prefixes discovered
        self.asserts = []
        self.tags = []           # link depth of each of them; 99: only about an index made for an auxiliary question
        self.scratch = 0
        self.scratch_keys = set()
        self.solver = z3.Solver()
        self.solver.set('timeout', Z3_BRANCH_MS)
        self.obls = []
        self.names = {}
        self.scope = []          # enclosing generic loop indices
        self.deadline = deadline
        self.boot = boot
        self.notes = []
        self.trusted = set()     # trusted library contracts used
        self.functions = set()   # repository functions executed / used
        self.contracts_used = set()
        self.capture = None
        self.lossy = set()       # library contracts in use that say less than is true
        self.depth = 0
        self.solver_time = 0.0
        self.inputs = []         # (name, value) pairs to read back from a model
        self.cap_stack = []
        self.opaque_calls = {}
        self.uid = next(_uids)
        self.nested = None
        self.loop_guards = []    # objects updated inside the loop bodies in progress
        self.queries = 0
        self.hop = 0             # link depth of the instantiation in progress

    # -- fresh symbols
    def name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        if self.boot:               # symbols of the module bodies never meet those of a unit
            base = '%s/%s' % (self.unit, base)
        return '%s!%d' % (base, k) if k else base

    def fresh(self, sort, base='v'):
        nm = self.name(base)
        if not self.scope:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *([z3.IntSort()] * len(self.scope)), sort)
        return f(*self.scope)

    def fn(self, base, *sorts):
        """A fresh uninterpreted function; inside a generic loop it is also a function of the loop index."""
        nm = self.name(base)
        sc = list(self.scope)
        f = z3.Function(nm, *([z3.IntSort()] * len(sc)), *sorts)
        if not sc:
            return f
        return lambda *a: f(*sc, *a)

    # -- assumptions
    def assume(self, f):
        if f is True or (z3.is_expr(f) and z3.is_true(f)):
            return
        if f is False:
            f = z3.BoolVal(False)
        if self.cap_stack:
            self.cap_stack[-1].append(f)
            return
        self.asserts.append(f)
        self.tags.append(99 if self.scratch else self.hop)
        self.solver.add(f)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget of the unit exhausted')

    # -- solving
    def check(self, *extra, ms=None):
        self.tick()
        t = time.time()
        self.queries += 1
        self.solver.set('timeout', ms or Z3_BRANCH_MS)
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        self.solver_time += time.time() - t
        return r, m

    def feasible(self, cond):
        r, _ = self.check(cond)
        return r != z3.unsat

    def branch(self, cond, why=''):
        """Decide a condition; explores both outcomes over the whole run."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.cap_stack:
            raise Unsupported('branch inside a lazily evaluated element: %s' % why)
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trail.append(d)
            self.assume(c if d else z3.Not(c))
            return bool(d)
        rt = self.feasible(c)
        rf = self.feasible(z3.Not(c))
        if rt and rf:
            self.pending.append(self.trail + [0])     # 0 / 1: both outcomes are possible; True / False: only this one
            d = 1
        elif rt:
            d = True
        elif rf:
            d = False
        else:
            raise PathEnd('infeasible')
        self.trail.append(d)
        self.assume(c if d else z3.Not(c))
        return bool(d)

    def forks(self, since):
        return sum(1 for d in self.trail[since:] if not isinstance(d, bool))

    def choose(self, n, why=''):
        """Non-deterministic choice 0..n-1 (explores all)."""
        for k in range(n - 1):
            if self.coin():
                return k
        return n - 1

    def coin(self):
        """an unconstrained boolean choice (both outcomes are feasible whenever the path is)"""
        if self.cap_stack:
            raise Unsupported('choice inside a lazily evaluated element')
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            self.pending.append(self.trail + [0])
            d = 1
        self.trail.append(d)
        return bool(d)

    def prove(self, goal, name, clause=None, ms=None, then_assume=True):
        """One proof obligation."""
        if goal is True:
            goal = z3.BoolVal(True)
        if goal is False:
            goal = z3.BoolVal(False)
        t = time.time()
        g = z3.simplify(goal)
        status, backend, model = None, 'z3', None
        if z3.is_true(g):
            status, backend = 'proved', 'z3-simplify'
        else:
            r, m = self.check(z3.Not(goal), ms=Z3_QUICK_MS)
            if r == z3.unknown and self.relevant(goal):
                r = z3.unsat
                backend = 'z3/fewer facts'
            if r == z3.unknown:
                r, m = self.check(z3.Not(goal), ms=ms or Z3_PROVE_MS)
            if r == z3.unsat:
                status = 'proved'
            elif r == z3.sat:
                status, model = 'refuted', self.read_model(m)
            else:
                status, backend, model = self.hard(goal)
        if status == 'refuted' and self.lossy:
            # a library contract in use says less than is true: the counterexample may not exist
            status, backend = 'unknown', 'weak contract: ' + ', '.join(sorted(self.lossy))
        o = Obligation(self.unit, name, status, backend, time.time() - t,
                       ''.join('T' if d else 'F' for d in self.trail), model, clause)
        self.obls.append(o)
        if then_assume and status != 'refuted':
            self.assume(goal)
        return status == 'proved'

    def relevant(self, goal):
        """proved from the facts nearest to the rows inspected: a proof from some of the facts is a proof"""
        sizes = set()
        for top in (0, 1, 2, 98):
            l = [a for a, t in zip(self.asserts, self.tags) if t <= top]
            if len(l) in sizes or len(l) == len(self.asserts):
                continue
            sizes.add(len(l))
            self.tick()
            s = z3.Solver()
            s.set('timeout', Z3_FEWER_MS)
            for a in l:
                s.add(a)
            s.add(z3.Not(goal))
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            self.queries += 1
            if r == z3.unsat:
                return True
        return False

    def hard(self, goal):
        """Fall-backs for `unknown`: fresh z3 instances, then cvc5."""
        for tac in ('default', 'qfnra'):
            s = z3.Solver() if tac == 'default' else z3.Then('simplify', 'solve-eqs', 'smt').solver()
            s.set('timeout', Z3_PROVE_MS)
            for a in self.asserts:
                s.add(a)
            s.add(z3.Not(goal))
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            if r == z3.unsat:
                return 'proved', 'z3/' + tac, None
            if r == z3.sat:
                return 'refuted', 'z3/' + tac, self.read_model(s.model())
        st = cvc5_check(self.asserts + [z3.Not(goal)])
        if st == 'unsat':
            return 'proved', 'cvc5', None
        return 'unknown', 'z3+cvc5', None

    def read_model(self, m):
        out = {}
        try:
            for nm, v in self.inputs:
                out[nm] = repr_in_model(m, v)
        except Exception as e:            # a model is only used for reporting
            out['error'] = repr(e)
        return out


_uids = iter(range(1, 10 ** 9))


def cvc5_check(asserts, ms=8000):
    exe = '/usr/bin/cvc5'
    for c in ('/usr/local/bin/cvc5', '/usr/bin/cvc5', '/opt/veriftools/bin/cvc5'):
        if os.path.exists(c):
            exe = c
            break
    else:
        return 'unknown'
    s = z3.Solver()
    for a in asserts:
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        r = subprocess.run([exe, '--tlimit=%d' % ms, p], capture_output=True, text=True, timeout=ms / 1000 + 5)
        w = r.stdout.split()
        return w[0] if w and w[0] in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)


def repr_in_model(m, v):
    from . import arrays, vals
    if isinstance(v, z3.ExprRef):
        return str(m.eval(v, model_completion=True))
    return vals.read(m, v)


_cur = [None]


def C():
    return _cur[-1]


class using:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        _cur.append(self.ctx)
        return self.ctx

    def __exit__(self, *a):
        _cur.pop()


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.obls = []
        self.paths = 0
        self.ended = 0
        self.error = None       # text if undecided
        self.trusted = set()
        self.functions = set()
        self.contracts_used = set()
        self.notes = []
        self.solver_time = 0.0
        self.queries = 0
        self.wall = 0.0
        self.reached = 0        # paths that ran to completion of the unit

    @property
    def status(self):
        if any(o.status == 'refuted' for o in self.obls):
            return 'refuted'
        if self.error:
            return 'undecided'
        if any(o.status == 'unknown' for o in self.obls):
            return 'undecided'
        if not self.obls:
            return 'vacuous'
        if not self.reached:
            return 'vacuous'
        return 'proved'


def explore(unit_name, body, max_paths=600, seconds=60):
    """Run body(ctx) on every feasible path."""
    res = Result(unit_name)
    t0 = time.time()
    stack = [[]]
    while stack:
        pre = stack.pop()
        if res.paths >= max_paths:
            res.error = 'path budget (%d) exhausted' % max_paths
            break
        ctx = Ctx(unit_name, pre, deadline=t0 + seconds)
        res.paths += 1
        with using(ctx):
            try:
                body(ctx)
                w = ctx.__dict__.get('boot_writes', []) + ctx.__dict__.get('global_writes', [])
                if w:
                    raise Unsupported('the call modifies state of the module (%s): a contract of a single call does not cover a sequence of calls' % (w[:3],))
                # vacuity guard: the assumptions of this path must be satisfiable
                if ctx.check(ms=800)[0] != z3.unsat:
                    res.reached += 1
            except PathEnd:
                res.ended += 1
            except Unsupported as e:
                import traceback
                res.error = 'unsupported: %s' % e
                res.notes.append(traceback.format_exc(limit=-12))
            except PyRaise as e:
                r, m = ctx.check(ms=Z3_PROVE_MS)
                if r == z3.unsat:
                    res.ended += 1
                else:
                    ctx.obls.append(Obligation(
                        unit_name, 'no uncaught exception: %r' % (e.exc,), 'refuted' if r == z3.sat else 'unknown',
                        'z3', 0.0, ''.join('T' if d else 'F' for d in ctx.trail),
                        ctx.read_model(m) if m is not None else None))
            except z3.Z3Exception as e:
                res.error = 'z3 exception: %s' % e
                import traceback
                res.notes.append(traceback.format_exc(limit=-8))
            except RecursionError:
                res.error = 'recursion limit'
            finally:
                from . import arrays
                arrays.undo_mutations(ctx)
        res.obls += ctx.obls
        res.trusted |= ctx.trusted
        res.functions |= ctx.functions
        res.contracts_used |= ctx.contracts_used
        res.notes += ctx.notes
        res.solver_time += ctx.solver_time
        res.queries += ctx.queries
        stack += ctx.pending
        if res.error:
            break
        if any(o.status == 'refuted' for o in ctx.obls) and sum(o.status == 'refuted' for o in res.obls) > 20:
            break
    res.wall = time.time() - t0
    return res


def safe_model(ctx):
    try:
        r, m = ctx.check()
        return ctx.read_model(m) if m is not None else None
    except Exception:
        return None
