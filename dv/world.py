"""Loading the real modules of /repo and resolving imports to library models."""
import ast
import os
import z3
from .core import C, Ctx, using, Unsupported, PathEnd, PyRaise
from .vals import Opaque
from . import interp
from .interp import Module, Env, LibMod, HostFn, TypeTok, exec_stmt

REPO = os.environ.get('ANTICIPY_REPO', '/repo')
_mods = {}
_boot_notes = []


def repo_path(name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(p):
        return os.path.join(p, '__init__.py')
    return p + '.py'


def load(name):
    if name in _mods:
        return _mods[name]
    path = repo_path(name)
    m = Module(name, path)
    _mods[name] = m
    with open(path) as f:
        src = f.read()
    tree = ast.parse(src, path)
    m.tree = tree
    m.source = src
    ctx = Ctx('boot:' + name, boot=True)
    env = Env(m, None, ())
    with using(ctx):
        m.vars['__name__'] = name
        for s in tree.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.If) and 'ImportError' in ast.unparse(s):
                pass
            try:
                exec_stmt(s, env)
            except Exception as e:      # the name is unusable: units needing it are undecided
                names = [n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    names.append(s.name)
                for n in names:
                    m.vars.pop(n, None)
                    m.failed[n] = str(e)[:300]
                _boot_notes.append('%s:%d %s' % (name, s.lineno, str(e)[:200]))
    # facts asserted while the module was loaded hold on every path
    m.boot_asserts = list(ctx.asserts)
    m.boot_pending = list(ctx.pending)
    return m


def import_module(name, level=0, mod=None):
    from . import libs
    if level:
        base = mod.name.split('.')[:-level]
        name = '.'.join(base + ([name] if name else []))
    if name.split('.')[0] == 'anticipy':
        if name == 'anticipy':
            return PackageMod()
        return load(name)
    return libs.module(name)


class PackageMod:
    def sv_getattr(self, nm):
        if os.path.exists(repo_path('anticipy.' + nm)):
            return load('anticipy.' + nm)
        interp.raise_py(AttributeError, nm)


def import_from(modname, mod, name, level, cur):
    if isinstance(mod, PackageMod):
        return mod.sv_getattr(name)
    if isinstance(mod, Module):
        if name in mod.vars:
            return mod.vars[name]
        if name in mod.failed:
            return Opaque('%s.%s' % (mod.name, name))
        sub = mod.name + '.' + name
        if os.path.exists(repo_path(sub)):
            return load(sub)
        interp.raise_py(ImportError, name)
    if isinstance(mod, LibMod):
        if name in mod.attrs:
            return mod.attrs[name]
        return Opaque('%s.%s' % (mod.name, name))
    if isinstance(mod, Opaque):
        return Opaque('%s.%s' % (mod.why, name))
    raise Unsupported('from %s import %s' % (modname, name))


def boot_objects():
    """Mutable objects reachable from the loaded modules: the state that a call may find and must leave as it was."""
    from . import arrays
    seen = {}
    todo = [m.vars for m in _mods.values()]
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, (str, int, float, bool, bytes)) or id(o) in seen:
            continue
        if isinstance(o, dict):
            seen[id(o)] = o
            todo += list(o.keys()) + list(o.values())
            for kv in getattr(o, 'sym', []):
                todo += list(kv)
        elif isinstance(o, (list, tuple, set, frozenset)):
            seen[id(o)] = o
            todo += list(o)
        elif isinstance(o, interp.IObj):
            seen[id(o)] = o
            todo += list(o.attrs.values())
        elif isinstance(o, interp.IClass):
            seen[id(o)] = o
            todo.append(o.ns)
        elif isinstance(o, interp.IFunc):
            seen[id(o)] = o
            todo += [v for v in vars(o).values()] if hasattr(o, '__dict__') else [getattr(o, n, None) for n in o.__slots__]
        elif isinstance(o, Env):
            seen[id(o)] = o
            todo += [o.vars, o.parent]
        elif isinstance(o, interp.Bound):
            seen[id(o)] = o
            todo += [o.f, o.self]
        elif hasattr(o, 'fn') and hasattr(o, 'space') or type(o).__name__ in ('PSeries', 'PFrame', 'SSet', 'SMat'):
            seen[id(o)] = o
            if hasattr(o, '__dict__'):
                todo += [v for v in vars(o).values() if isinstance(v, (list, dict, tuple)) or hasattr(v, 'fn') or type(v).__name__ in ('SSet',)]
    arrays.BOOT_IDS = seen
    return seen
