"""check.py PROP [quick|thorough]

Decides one property for /repo's working tree: (1) verification units (contracts/<prop>.py) are discharged by the deductive
engine dv/ over the text of /repo; (2) the bounded stand-ins (runtime/<prop>.py) are run on the real code, and a refuted
obligation's counterexample values are fed to them.  Exit 0 / 1 only; evidence/<PROP>.json is rewritten.
"""
import fractions
import json
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('ANTICIPY_REPO', '/repo')
PY = '/opt/venv/bin/python'


def meta(prop):
    with open(os.path.join(HERE, 'levels.json')) as f:
        return json.load(f)[prop]


def numbers(o, out):
    """the numbers of a counterexample"""
    if isinstance(o, dict):
        for v in o.values():
            numbers(v, out)
    elif isinstance(o, (list, tuple)):
        for v in o:
            numbers(v, out)
    elif isinstance(o, bool) or o is None:
        pass
    elif isinstance(o, (int, float)):
        out.append(float(o))
    elif isinstance(o, str):
        for t in re.findall(r'-?\d+(?:\.\d+)?(?:/\d+)?', o)[:60]:
            try:
                out.append(float(fractions.Fraction(t)))
            except Exception:
                pass


def bounded(prop, tier, seed, scale, budget, hints, tag):
    if not os.path.exists(os.path.join(HERE, 'runtime', prop.lower() + '.py')):
        return None
    out = os.path.join(HERE, 'evidence', '.%s.%s.json' % (prop, tag))
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, ANTICIPY_REPO=REPO, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
               MPLBACKEND='Agg')
    if hints:
        env['ANTICIPY_HINTS'] = json.dumps(hints[:200])
    cmd = [PY, '-W', 'ignore', os.path.join(HERE, 'runtime', 'run.py'), prop, '--tier', tier, '--seed', str(seed), '--scale', str(scale),
           '--budget', str(budget), '--workers', str(os.cpu_count() or 4), '--out', out]
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget * 1.5 + 120, cwd=HERE)
        log = p.stdout.decode('utf8', 'replace')[-3000:]
    except subprocess.TimeoutExpired as e:
        return dict(error='the bounded suite gave no answer in time', checks=[], violations=[], log='')
    if not os.path.exists(out):
        return dict(error='the bounded suite did not run', checks=[], violations=[], log=log)
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    d['error'] = None
    return d


def known(prop):
    """open findings: lines 'open: property=<id> check=<check or obligation> match=<regex> :: text'"""
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'open: property=(\S+) check=(.*?) match=(.*?) :: (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rep_dir = os.path.join(HERE, 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(prop + '_'):
            os.unlink(os.path.join(rep_dir, f))
    mt = meta(prop)
    quick = tier == 'quick'

    # ---- deductive part
    units = []
    uerr = None
    try:
        from dv import pool
        units = pool.run_units(prop, scale=1.0 if quick else 4.0, budget=240. if quick else 1800., tier=tier)
    except BaseException as e:
        uerr = '%s: %s' % (type(e).__name__, e)
        traceback.print_exc()
    refuted = [u for u in units if u['status'] == 'refuted']
    hints = []
    for u in refuted:
        for o in u['obls']:
            if o['status'] == 'refuted':
                numbers(o['model'], hints)

    # ---- bounded part
    runs = []
    b = bounded(prop, tier, seed, mt.get('scale', 1.0), 100. if quick else 1200., hints, 'main')
    if b:
        runs.append(b)
    if (refuted or any(u['status'] != 'proved' for u in units) and quick) and b and not b['violations'] and not b['error']:
        b2 = bounded(prop, tier, seed + 1000, mt.get('scale', 1.0) * 6, 150. if quick else 900., hints, 'more')
        runs.append(b2)

    # ---- verdict
    kn = known(prop)
    lines, viol, found = [], 0, False
    seen = set()
    for r in runs:
        for v in r['violations']:
            k = [t for c, m, t in kn if c == v['check'] and m.search(v['message'])]
            if k:
                if k[0] not in seen:
                    seen.add(k[0])
                    print('KNOWN-FINDING: property=%s %s' % (prop, k[0]))
                continue
            found = True
            viol += 1
            if v['check'] in seen:
                continue
            seen.add(v['check'])
            path = os.path.join(rep_dir, '%s_%s_%d.json' % (prop, re.sub(r'\W+', '_', v['check']), v['case_seed']))
            json.dump(dict(property=prop, kind='failing input on the real code', check=v['check'], case_seed=v['case_seed'], message=v['message'], inputs=v['inputs'], hints=hints,
                           refuted_obligations=[dict(o, unit=u['name']) for u in refuted for o in u['obls'] if o['status'] == 'refuted'][:20],
                           replay='ANTICIPY_HINTS=<hints> %s %s --replay %s' % (PY, os.path.join(HERE, 'runtime/run.py'), path)), open(path, 'w'), indent=1)
            print('%s: %s: %s' % (prop, v['check'], v['message'][:1200]))
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    for u in refuted:
        os_ = [o for o in u['obls'] if o['status'] == 'refuted']
        k = [t for c, m, t in kn if c == u['name'] and all(m.search(o['obligation']) for o in os_)]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0]))
            continue
        viol += len(os_)
        print('%s: obligation failed in unit %r: %s' % (prop, u['name'], os_[0]['obligation'][:300]))
        if not found:
            path = os.path.join(rep_dir, '%s_unit_%s.json' % (prop, re.sub(r'\W+', '_', u['name'])))
            json.dump(dict(property=prop, kind='refuted obligation', unit=u['name'], obligations=os_[:40], hints=hints,
                           note='the verifier found a counterexample to this obligation in its model of the text of /repo; running the real code on its values and on %d generated cases did not fail'
                                % sum(c['cases'] for r in runs for c in r['checks'])), open(path, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))

    # ---- evidence
    obls = [o for u in units for o in u['obls']]
    done = [o for o in obls if o['status'] == 'proved']
    back = {}
    for o in done:
        back[o['backend']] = back.get(o['backend'], 0) + 1
    und = [dict(unit=u['name'], reason=(u['error'] or u['status'])[:300]) for u in units if u['status'] not in ('proved', 'refuted')]
    checks = [dict(c, run=i) for i, r in enumerate(runs) for c in r['checks']]
    cov = {}
    if units:
        cov.update(obligations=len(obls), discharged=len(done), units=len(units), units_proved=sum(u['status'] == 'proved' for u in units),
                   undecided_units=und, by_backend=back, solver_seconds=round(sum(u['solver_time'] for u in units), 2), solver_queries=sum(u['queries'] for u in units),
                   paths=sum(u['paths'] for u in units), functions_under_contract=sorted(set(f for u in units for f in u['functions'])),
                   unit_list=[dict(unit=u['name'], status=u['status'], obligations=len(u['obls']), paths=u['paths'], seconds=round(u['wall'], 2)) for u in units],
                   checker_cmd='python3-vt bin/check.py %s %s' % (prop, tier),
                   trusted_base=['dv symbolic interpreter for the Python subset used by the package', 'z3 (python bindings), cvc5'] +
                                sorted('library contract: ' + t for u in [set(t for u in units for t in u['trusted'])] for t in u))
    if runs:
        cov.update(evaluations=sum(c['cases'] for c in checks), distinct_nontrivial=sum(c['distinct_nontrivial'] for c in checks),
                   rule='bounded stand-in: seeded generation of inputs for the real code; a case counts as non-trivial when at least one judgement about a result of the real code was made in it; '
                        'distinct by the digest of its recorded inputs',
                   samples=[dict(check=c['check'], inputs=c['sample']) for c in checks if c.get('sample')][:6],
                   bounded_checks=[{k: v for k, v in c.items() if k != 'sample'} for c in checks])
        if any(r['error'] for r in runs):
            cov['bounded_errors'] = [r['error'] + ' ' + r.get('log', '')[-500:] for r in runs if r['error']]
    cov['explanation'] = mt['explanation']
    if uerr:
        cov['engine_error'] = uerr
    ev = dict(property=prop, tier=tier, seed=seed, level=mt['level'], coverage=cov, assumptions=mt['assumptions'], wall_s=round(time.time() - t0, 2), violations=viol)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d/%d obligations discharged in %d/%d units; %d bounded cases; %.1f s' % (prop, tier, len(done), len(obls), sum(u['status'] == 'proved' for u in units),
                                                                                          len(units), sum(c['cases'] for c in checks), time.time() - t0))
    for d in und:
        print('undecided: %s: %s' % (d['unit'], d['reason'][:200]))
    for r in runs:
        if r['error']:
            print('bounded suite: %s\n%s' % (r['error'], r.get('log', '')[-1500:]))
    for x in lines[:8]:
        print(x)
    sys.stdout.flush()
    os._exit(1 if lines else 0)


if __name__ == '__main__':
    main()
