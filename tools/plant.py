"""plant.py SPEC.py ID...   Plant bugs described in SPEC.py in scratch copies of /repo, confirm them, and write seeded/<id>/.

SPEC.py: BUGS = {id: dict(prop=, file=, edits=[(old, new), ...], demo='python text', needs=, breaks=)}
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PRE = '''import os, sys, warnings
warnings.simplefilter('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path.insert(0, os.getcwd())
import logging; logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd
from anticipy import forecast as fc, forecast_models as fm, model_utils as mu, forecast_plot as fp
'''
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, t=400, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=dict(os.environ, **(env or {})))
    return p.returncode, p.stdout.decode('utf8', 'replace')


def one(i):
    b = ns['BUGS'][i]
    d = tempfile.mkdtemp(prefix='plant_')
    try:
        r = os.path.join(d, 'repo')
        sh('cp -a /repo %s' % r, '/')
        out = os.path.join(d, 'out')
        os.makedirs(out)
        open(os.path.join(out, 'demo.py'), 'w').write(PRE + b['demo'])
        open(os.path.join(out, 'demo.sh'), 'w').write(SH)
        rc, log = sh('bash %s/demo.sh' % out, r)
        if rc != 0:
            return i, 'demo fails on the unchanged tree: ' + log[-800:]
        f = os.path.join(r, b['file'])
        s = open(f).read()
        for old, new in b['edits']:
            if s.count(old) != 1:
                return i, 'text found %d times: %s' % (s.count(old), old[:80])
            s = s.replace(old, new)
        open(f, 'w').write(s)
        rc, log = sh('bash %s/demo.sh' % out, r)
        if rc == 0:
            return i, 'demo passes with the change'
        if 'AssertionError' not in log and not b.get('any'):
            return i, 'demo fails otherwise: ' + log[-600:]
        sh('sed "s#cd /repo#cd %s#" /opt/vp/test.sh > %s/t.sh' % (r, d), '/')
        sh('bash %s/t.sh %s/o.json' % (d, d), r)
        o = json.load(open(d + '/o.json'))
        bad = BASE - set(o.get('passed') or o.get('pass') or [])
        if bad:
            return i, 'tests fail: %s' % sorted(bad)[:4]
        _, diff = sh('git diff -- anticipy', r)
        t = os.path.join(H, 'seeded', i)
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(out, n), t)
        open(os.path.join(t, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(t, 'meta.json'), 'w'), indent=1)
        return i, 'planted'
    except Exception as e:
        return i, 'error %r' % e
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = sys.argv[2:] or list(ns['BUGS'])
with ThreadPoolExecutor(6) as ex:
    for i, m in ex.map(one, ids):
        print(i, m)
