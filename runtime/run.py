"""run.py PROP --tier quick --seed 1 --out FILE [--workers N] [--budget S] | --replay FILE"""
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import signal

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def load(prop):
    importlib.import_module(prop.lower())
    return [k for k in common.CHECKS if k['prop'] == prop]


def run_case(k, seed, limit=60):
    """-> (status, message, inputs, reached)"""
    c = common.Case(seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        k['fn'](c)
        r = ('ok', '')
    except common.Skip as e:
        r = ('skip', str(e))
    except common.Violation as e:
        r = ('violation', str(e))
    except CaseTimeout:
        r = ('timeout', 'no answer in %d s' % limit)
    except Exception as e:
        tb = traceback.format_exc().strip().split('\n')
        r = ('violation', 'the result is not of the documented shape: %s: %s\n%s' % (type(e).__name__, e, '\n'.join(tb[-10:])))
    finally:
        signal.alarm(0)
    return r + (c.inputs, c.n_ensure)


def worker(args):
    prop, idx, seeds, deadline = args
    k = [k for k in common.CHECKS if k['prop'] == prop][idx]
    out = []
    for s in seeds:
        if time.time() > deadline:
            break
        st, msg, inp, reached = run_case(k, s)
        dig = hashlib.sha1(json.dumps(inp, sort_keys=True).encode()).hexdigest()
        out.append((s, st, msg, inp if st != 'ok' or len(out) == 0 else None, dig, reached))
        if st == 'violation':
            break
    return idx, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--out')
    ap.add_argument('--workers', type=int, default=6)
    ap.add_argument('--budget', type=float, default=60)
    ap.add_argument('--scale', type=float, default=1)
    ap.add_argument('--only', default=None)
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        common.set_hints(d.get('hints') or [])
        ks = [k for k in load(d['property']) if k['name'] == d['check']]
        st, msg, inp, _ = run_case(ks[0], d['case_seed'], 300)
        print(json.dumps(dict(status=st, message=msg, inputs=inp), indent=1))
        sys.exit(1 if st == 'violation' else 0)
    t0 = time.time()
    ks = load(a.prop)
    deadline = t0 + a.budget
    jobs = []
    for i, k in enumerate(ks):
        if a.only and a.only not in k['name']:
            continue
        n = k['n'] if a.tier == 'quick' else k['t']
        n = max(1, int(n * a.scale))
        seeds = [common.seed_of(a.seed, a.prop + k['name'], j) for j in range(n)]
        ch = max(1, min(20, n // a.workers or 1))
        jobs += [(a.prop, i, seeds[j:j + ch], deadline) for j in range(0, n, ch)]
    # interleave the checks, so that a budget cut leaves all of them sampled
    jobs.sort(key=lambda j: (j[2][0] % 997))
    res = {i: [] for i in range(len(ks))}
    ctx = mp.get_context('fork')
    with ctx.Pool(a.workers, maxtasksperchild=50) as pool:
        for idx, out in pool.imap_unordered(worker, jobs):
            res[idx] += out
    rep = dict(property=a.prop, tier=a.tier, seed=a.seed, checks=[], violations=[], wall=round(time.time() - t0, 2))
    for i, k in enumerate(ks):
        r = res[i]
        d = dict(check=k['name'], cases=len(r), ok=sum(x[1] == 'ok' for x in r), skipped=sum(x[1] == 'skip' for x in r),
                 timeouts=sum(x[1] == 'timeout' for x in r), judgements=sum(x[5] for x in r),
                 distinct_nontrivial=len(set(x[4] for x in r if x[5] > 0)))
        smp = [x[3] for x in r if x[3] and x[1] == 'ok'][:1]
        if smp:
            d['sample'] = smp[0]
        rep['checks'].append(d)
        for x in r:
            if x[1] == 'violation':
                rep['violations'].append(dict(check=k['name'], case_seed=x[0], message=x[2], inputs=x[3]))
    if a.out:
        json.dump(rep, open(a.out, 'w'), indent=1)
    else:
        for d in rep['checks']:
            print({x: d[x] for x in d if x != 'sample'})
        for v in rep['violations'][:6]:
            print('VIOL', v['check'], v['case_seed'], v['message'][:1500], str(v['inputs'])[:1500])
        print('wall', rep['wall'])


if __name__ == '__main__':
    main()
