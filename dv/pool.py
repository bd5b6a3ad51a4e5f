"""Run the verification units of a property, each in its own process with a time and memory limit."""
import importlib
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import sys
import time
import traceback


def _child(i, seconds, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    from . import spec
    u = spec.UNITS[i]
    try:
        r = spec.run(u, seconds)
        if r.status == 'refuted':
            # facts are stated for rows within some links of the inspected ones: more of them may exclude the counterexample
            from . import arrays
            arrays.MORE_HOPS, arrays.MAX_HOPS, arrays.SCRATCH_HOP = 2, 3, 0
            r2 = spec.run(u, seconds)
            if r2.status in ('proved', 'refuted'):
                r = r2
            arrays.MORE_HOPS = 0
        out = dict(name=u['name'], status=r.status, error=r.error, paths=r.paths, reached=r.reached, wall=r.wall, solver_time=r.solver_time,
                   queries=r.queries, trusted=sorted(r.trusted), functions=sorted(r.functions), contracts=sorted(r.contracts_used),
                   notes=r.notes[-2:], obls=[o.as_dict() for o in r.obls])
    except BaseException as e:
        out = dict(name=u['name'], status='undecided', error='engine: %s: %s' % (type(e).__name__, e), paths=0, reached=0, wall=0., solver_time=0.,
                   queries=0, trusted=[], functions=[], contracts=[], notes=[traceback.format_exc()[-3000:]], obls=[])
    try:
        conn.send(out)
    finally:
        conn.close()
        os._exit(0)


def _gone(u, why, wall):
    return dict(name=u['name'], status='undecided', error=why, paths=0, reached=0, wall=wall, solver_time=0., queries=0, trusted=[], functions=[],
                contracts=[], notes=[], obls=[])


def boot():
    """interpret the modules of the repository once, before the units are forked"""
    from . import spec
    for m in ('mu', 'fm', 'fc'):
        spec.mod(m)


def run_units(prop, workers=None, scale=1.0, budget=600., only=None, tier='quick'):
    from . import spec
    n0 = len(spec.UNITS)
    try:
        importlib.import_module('contracts.' + prop.lower())
    except ModuleNotFoundError as e:
        if 'contracts.' + prop.lower() in str(e):
            return []
        raise
    idx = [i for i, u in enumerate(spec.UNITS) if u['prop'] == prop and (not only or only in u['name']) and (tier == 'thorough' or u['tier'] == 'quick')]
    sys.setrecursionlimit(20000)
    err = None
    try:
        boot()
    except BaseException as e:
        err = 'the modules cannot be interpreted: %s: %s' % (type(e).__name__, e)
    if err:
        return [_gone(spec.UNITS[i], err, 0.) for i in idx]
    t0 = time.time()
    ctx = mp.get_context('fork')
    todo = sorted(idx, key=lambda i: -spec.UNITS[i]['seconds'])
    live, res = {}, {}
    workers = workers or os.cpu_count() or 4
    while todo or live:
        left = budget - (time.time() - t0)
        while todo and len(live) < workers and left > 1:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            s = max(5., min(spec.UNITS[i]['seconds'] * scale, left))
            p = ctx.Process(target=_child, args=(i, s, b), daemon=True)
            p.start()
            b.close()
            live[i] = (p, a, time.time(), s * 2.3 + 15)
        if todo and left <= 1 and not live:
            for i in todo:
                res[i] = _gone(spec.UNITS[i], 'time budget of the check exhausted', 0.)
            break
        mp.connection.wait([v[1] for v in live.values()], 0.5)
        for i in list(live):
            p, a, t, lim = live[i]
            if a.poll():
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = _gone(spec.UNITS[i], 'the verifier process ended (memory limit or crash)', time.time() - t)
                p.join(5)
            elif not p.is_alive():
                res[i] = _gone(spec.UNITS[i], 'the verifier process ended (memory limit or crash)', time.time() - t)
            elif time.time() - t > lim:
                p.kill()
                p.join(5)
                res[i] = _gone(spec.UNITS[i], 'time limit', time.time() - t)
            else:
                continue
            a.close()
            del live[i]
    return [res[i] for i in idx]


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
